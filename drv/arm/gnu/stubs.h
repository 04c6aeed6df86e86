/* lets the installed C library headers be parsed for a 64 bit ARM target */
#include <gnu/stubs-64.h>
