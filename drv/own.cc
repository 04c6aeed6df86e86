// Driver for ownership rules: what may be copied, and what copying does. Compiled, never linked or executed.
#define PANDA_RESAMPLER_HEADER_ONLY
#include "pandaresampler.hh"
#include <new>
#include <utility>
#include <type_traits>
using namespace PandaResampler;
typedef AlignedArray<float> AF;
typedef Resampler2 RS;
template<class T, bool B> struct CopyC { static void go (void *, const T *) {} };
template<class T> struct CopyC<T, true> { static void go (void *m, const T *a) { new (m) T (*a); } };
template<class T, bool B> struct CopyA { static void go (T *, const T *) {} };
template<class T> struct CopyA<T, true> { static void go (T *d, const T *a) { *d = *a; } };
template<class T, bool B> struct MoveC { static void go (void *, T *) {} };
template<class T> struct MoveC<T, true> { static void go (void *m, T *a) { new (m) T (std::move (*a)); } };
template<class T, bool B> struct MoveA { static void go (T *, T *) {} };
template<class T> struct MoveA<T, true> { static void go (T *d, T *a) { *d = std::move (*a); } };
#define OWN(X, T) \
bool vp_##X##_can_cc () { return std::is_copy_constructible<T>::value; } \
bool vp_##X##_can_ca () { return std::is_copy_assignable<T>::value; } \
bool vp_##X##_can_mc () { return std::is_move_constructible<T>::value; } \
bool vp_##X##_can_ma () { return std::is_move_assignable<T>::value; } \
void vp_##X##_cc (void *m, const T *a) { CopyC<T, std::is_copy_constructible<T>::value>::go (m, a); } \
void vp_##X##_ca (T *m, const T *a) { CopyA<T, std::is_copy_assignable<T>::value>::go (m, a); } \
void vp_##X##_mc (void *m, T *a) { MoveC<T, std::is_move_constructible<T>::value>::go (m, a); } \
void vp_##X##_ma (T *m, T *a) { MoveA<T, std::is_move_assignable<T>::value>::go (m, a); } \
unsigned long vp_##X##_sizeof () { return sizeof (T); } \
void vp_##X##_dtor (T *a) { a->~T(); }
extern "C" {
OWN (aa, AF)
OWN (rs, RS)
void vp_aa_ctor (void *m, size_t n) { new (m) AF (n); }
void vp_aa_vec (void *m, const std::vector<float> *v) { new (m) AF (*v); }
float *vp_aa_idx (AF *a, size_t i) { return &(*a)[i]; }
const float *vp_aa_cidx (const AF *a, size_t i) { return &(*a)[i]; }
size_t vp_aa_size (const AF *a) { return a->size(); }
float *vp_aa_begin (AF *a) { return a->begin(); }
float *vp_aa_end (AF *a) { return a->end(); }
void vp_rs_ctor (void *m, int mode, unsigned ratio, int prec, bool sse, int filter)
{ new (m) RS ((RS::Mode) mode, ratio, (RS::Precision) prec, sse, (RS::Filter) filter); }
void vp_rs_process (RS *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
unsigned vp_rs_order (const RS *r) { return r->order(); }
double vp_rs_delay (const RS *r) { return r->delay(); }
bool vp_rs_sse (const RS *r) { return r->sse_enabled(); }
// an element type whose construction and destruction can be counted
void vp_cnt_ctor (void *);
void vp_cnt_dtor (void *);
}
struct Cnt { float v[3]; Cnt() { vp_cnt_ctor (this); } Cnt (const Cnt&) { vp_cnt_ctor (this); } Cnt& operator= (const Cnt&) { return *this; } ~Cnt() { vp_cnt_dtor (this); } };
typedef AlignedArray<Cnt> AC;
extern "C" {
unsigned long vp_ac_sizeof () { return sizeof (AC); }
unsigned long vp_cnt_sizeof () { return sizeof (Cnt); }
void vp_ac_ctor (void *m, size_t n) { new (m) AC (n); }
void vp_ac_dtor (AC *a) { a->~AC(); }
Cnt *vp_ac_idx (AC *a, size_t i) { return &(*a)[i]; }
}
