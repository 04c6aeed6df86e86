// Copies of the IIR filter objects. Compiled, never linked or executed.
#include "pandaresampler/hiir/Downsampler2xFpu.h"
#include "pandaresampler/hiir/Upsampler2xFpu.h"
#include "pandaresampler/hiir/Downsampler2xSse.h"
#include "pandaresampler/hiir/Upsampler2xSse.h"
#include <new>
#include <utility>
#include <type_traits>
using namespace PandaResampler::hiir;
template<class T, bool OK = true> struct CC { static bool go (void *m, T *s) { new (m) T (*(const T *) s); return true; } };
template<class T> struct CC<T, false> { static bool go (void *, T *) { return false; } };
template<class T, bool OK = true> struct MC { static bool go (void *m, T *s) { new (m) T (std::move (*s)); return true; } };
template<class T> struct MC<T, false> { static bool go (void *, T *) { return false; } };
template<class T, bool OK = true> struct CA { static bool go (void *m, T *s) { *(T *) m = *(const T *) s; return true; } };
template<class T> struct CA<T, false> { static bool go (void *, T *) { return false; } };
template<class T, bool OK = true> struct MA { static bool go (void *m, T *s) { *(T *) m = std::move (*s); return true; } };
template<class T> struct MA<T, false> { static bool go (void *, T *) { return false; } };
#define ONE(T, NC) \
  void vq_##T##_##NC##_ctor (void *m, const double *c) { T<NC> *t = new (m) T<NC>(); t->set_coefs (c); } \
  unsigned long vq_##T##_##NC##_size () { return sizeof (T<NC>); } \
  unsigned long vq_##T##_##NC##_align () { return alignof (T<NC>); } \
  void vq_##T##_##NC##_block (T<NC> *t, const float *in, long n, float *o) { t->process_block (o, in, n); } \
  void vq_##T##_##NC##_clear (T<NC> *t) { t->clear_buffers(); } \
  bool vq_##T##_##NC##_cc (void *m, T<NC> *s) { return CC<T<NC>, std::is_copy_constructible<T<NC>>::value>::go (m, s); } \
  bool vq_##T##_##NC##_mc (void *m, T<NC> *s) { return MC<T<NC>, std::is_move_constructible<T<NC>>::value>::go (m, s); } \
  bool vq_##T##_##NC##_ca (void *m, T<NC> *s) { return CA<T<NC>, std::is_copy_assignable<T<NC>>::value>::go (m, s); } \
  bool vq_##T##_##NC##_ma (void *m, T<NC> *s) { return MA<T<NC>, std::is_move_assignable<T<NC>>::value>::go (m, s); }
#define ALL(NC) ONE (Downsampler2xFpu, NC) ONE (Downsampler2xSse, NC) ONE (Upsampler2xFpu, NC) ONE (Upsampler2xSse, NC)
extern "C" {
ALL (1) ALL (2) ALL (3) ALL (4) ALL (5) ALL (6) ALL (7) ALL (8) ALL (9) ALL (10) ALL (11) ALL (12) ALL (13) ALL (14)
}
