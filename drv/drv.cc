// Analysis driver: gives every public entry point a C name so that the exported IR has fixed roots.
// It is compiled, never linked or executed.
#define PANDA_RESAMPLER_HEADER_ONLY
#include "pandaresampler.hh"
#include <new>
using namespace PandaResampler;
typedef Resampler2 R;
extern "C" {
void vp_process (R *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
void vp_reset (R *r) { r->reset(); }
double vp_delay (const R *r) { return r->delay(); }
unsigned vp_order (const R *r) { return r->order(); }
bool vp_sse (const R *r) { return r->sse_enabled(); }
bool vp_sse_available () { return R::sse_available(); }
void vp_ctor (void *m, int mode, unsigned ratio, int prec, bool sse, int filter)
{ new (m) R ((R::Mode) mode, ratio, (R::Precision) prec, sse, (R::Filter) filter); }
void vp_ctor4 (void *m, int mode, unsigned ratio, int prec, bool sse)
{ new (m) R ((R::Mode) mode, ratio, (R::Precision) prec, sse); }
void vp_ctor3 (void *m, int mode, unsigned ratio, int prec)
{ new (m) R ((R::Mode) mode, ratio, (R::Precision) prec); }
void vp_dtor (R *r) { r->~R(); }
unsigned long vp_sizeof () { return sizeof (R); }
int vp_find (unsigned bits) { return R::find_precision_for_bits (bits); }
const char *vp_name (int p) { return R::precision_name ((R::Precision) p); }
bool vp_test_impl (bool v) { return R::test_filter_impl (v); }
// enum values, so that the analyser uses names instead of numbers
int vp_UP () { return R::UP; }
int vp_DOWN () { return R::DOWN; }
int vp_FIR () { return R::FILTER_FIR; }
int vp_IIR () { return R::FILTER_IIR; }
int vp_P1 () { return R::PREC_LINEAR; }
int vp_P8 () { return R::PREC_48DB; }
int vp_P12 () { return R::PREC_72DB; }
int vp_P16 () { return R::PREC_96DB; }
int vp_P20 () { return R::PREC_120DB; }
int vp_P24 () { return R::PREC_144DB; }
typedef AlignedArray<float> AF;
void vp_aa_ctor (void *m, size_t n) { new (m) AF (n); }
void vp_aa_vec (void *m, const std::vector<float> *v) { new (m) AF (*v); }
void vp_aa_dtor (AF *a) { a->~AF(); }
float *vp_aa_idx (AF *a, size_t i) { return &(*a)[i]; }
const float *vp_aa_cidx (const AF *a, size_t i) { return &(*a)[i]; }
size_t vp_aa_size (const AF *a) { return a->size(); }
float *vp_aa_begin (AF *a) { return a->begin(); }
float *vp_aa_end (AF *a) { return a->end(); }
unsigned long vp_aa_sizeof () { return sizeof (AF); }
}
