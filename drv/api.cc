// One translation unit that uses the whole public API, built once as library user and once header-only.
#ifdef VP_HEADER_ONLY
#define PANDA_RESAMPLER_HEADER_ONLY
#endif
#include "pandaresampler.hh"
#include "pandaresampler.hh"
#include <new>
using namespace PandaResampler;
typedef Resampler2 R;
extern "C" {
void vp_process (R *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
void vp_reset (R *r) { r->reset(); }
double vp_delay (const R *r) { return r->delay(); }
unsigned vp_order (const R *r) { return r->order(); }
bool vp_sse (const R *r) { return r->sse_enabled(); }
bool vp_sse_available () { return R::sse_available(); }
void vp_ctor (void *m, int mode, unsigned ratio, int prec, bool sse, int filter)
{ new (m) R ((R::Mode) mode, ratio, (R::Precision) prec, sse, (R::Filter) filter); }
void vp_ctor4 (void *m, int mode, unsigned ratio, int prec, bool sse) { new (m) R ((R::Mode) mode, ratio, (R::Precision) prec, sse); }
void vp_ctor3 (void *m, int mode, unsigned ratio, int prec) { new (m) R ((R::Mode) mode, ratio, (R::Precision) prec); }
void vp_dtor (R *r) { r->~R(); }
unsigned long vp_sizeof () { return sizeof (R); }
int vp_find (unsigned bits) { return R::find_precision_for_bits (bits); }
const char *vp_name (int p) { return R::precision_name ((R::Precision) p); }
bool vp_test_impl (bool v) { return R::test_filter_impl (v); }
int vp_UP () { return R::UP; }
int vp_DOWN () { return R::DOWN; }
int vp_FIR () { return R::FILTER_FIR; }
int vp_IIR () { return R::FILTER_IIR; }
int vp_P1 () { return R::PREC_LINEAR; }
int vp_P8 () { return R::PREC_48DB; }
int vp_P12 () { return R::PREC_72DB; }
int vp_P16 () { return R::PREC_96DB; }
int vp_P20 () { return R::PREC_120DB; }
int vp_P24 () { return R::PREC_144DB; }
}
