// Interface between a harness and its interpreter: the symbolic executor (engine/) or the native runtime (vp_rt.cpp).
#ifndef VP_H
#define VP_H
#include "vp_prelude.h"
extern "C" {
void vp_in(void *p, unsigned long n, unsigned long es, const char *name) noexcept;   // n arbitrary elements of es bytes
void vp_in_bool(void *p, unsigned long n, const char *name) noexcept;                // n arbitrary bools
int vp_int(const char *name, int lo, int hi) noexcept;                               // an arbitrary int in [lo, hi]
void vp_assume(bool c) noexcept;
void vp_check(bool c, const char *msg) noexcept;
// element-wise comparison; mode 0: same bits, 1: same bits or both NaN, 2: equal values (+0 == -0) or both NaN
void vp_eq(const void *a, const void *b, unsigned long n, unsigned long es, unsigned long mode, const char *msg) noexcept;
void *vp_alloc(unsigned long bytes, unsigned long align) noexcept;                   // object of exactly this extent and alignment
}
namespace vp {
template <class T> inline void in(T *p, unsigned long n, const char *name) { vp_in(p, n, sizeof(T), name); }
inline void in(bool *p, unsigned long n, const char *name) { vp_in_bool(p, n, name); }
template <class T> inline constexpr unsigned long mode() { return std::is_floating_point<T>::value ? 1 : 0; }
template <class T> inline void same(const T *a, const T *b, unsigned long n, const char *msg)
{
    vp_eq(a, b, n, sizeof(T), mode<T>(), msg);
}
template <class T> inline void same(T a, T b, const char *msg) { vp_eq(&a, &b, 1, sizeof(T), mode<T>(), msg); }
template <class T> inline void same_value(const T *a, const T *b, unsigned long n, const char *msg)
{
    vp_eq(a, b, n, sizeof(T), std::is_floating_point<T>::value ? 2 : 0, msg);
}
template <class T> inline T *alloc(unsigned long n, unsigned long align = sizeof(T))
{
    return static_cast<T *>(vp_alloc(n * sizeof(T), align));
}
}  // namespace vp
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#endif
