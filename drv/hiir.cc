// Analysis driver for the IIR filter classes: one C root per class, coefficient count and entry point.
// It is compiled, never linked or executed.
#include "pandaresampler/hiir/Downsampler2xFpu.h"
#include "pandaresampler/hiir/Upsampler2xFpu.h"
#include "pandaresampler/hiir/Downsampler2xSse.h"
#include "pandaresampler/hiir/Upsampler2xSse.h"
#include <new>
using namespace PandaResampler::hiir;
#define COMMON(T, NC) \
  void vh_##T##_##NC##_ctor (void *m, const double *c) { T<NC> *t = new (m) T<NC>(); t->set_coefs (c); } \
  void vh_##T##_##NC##_clear (T<NC> *t) { t->clear_buffers(); } \
  unsigned long vh_##T##_##NC##_size () { return sizeof (T<NC>); } \
  unsigned long vh_##T##_##NC##_align () { return alignof (T<NC>); } \
  int vh_##T##_##NC##_count () { return T<NC>::NBR_COEFS; } \
  void vh_##T##_##NC##_block (T<NC> *t, const float *in, long n, float *o, float *) { t->process_block (o, in, n); }
#define DOWN(T, NC) COMMON (T, NC) \
  void vh_##T##_##NC##_sample (T<NC> *t, const float *in, long n, float *o, float *) { for (long i = 0; i < n; i++) o[i] = t->process_sample (in + 2 * i); } \
  void vh_##T##_##NC##_split (T<NC> *t, const float *in, long n, float *l, float *h) { for (long i = 0; i < n; i++) t->process_sample_split (l[i], h[i], in + 2 * i); } \
  void vh_##T##_##NC##_blocksplit (T<NC> *t, const float *in, long n, float *l, float *h) { t->process_block_split (l, h, in, n); }
#define UP(T, NC) COMMON (T, NC) \
  void vh_##T##_##NC##_sample (T<NC> *t, const float *in, long n, float *o, float *) { for (long i = 0; i < n; i++) t->process_sample (o[2 * i], o[2 * i + 1], in[i]); }
#define ALL(NC) DOWN (Downsampler2xFpu, NC) DOWN (Downsampler2xSse, NC) UP (Upsampler2xFpu, NC) UP (Upsampler2xSse, NC)
extern "C" {
ALL (1) ALL (2) ALL (3) ALL (4) ALL (5) ALL (6) ALL (7) ALL (8) ALL (9) ALL (10) ALL (11) ALL (12) ALL (13) ALL (14)
}
