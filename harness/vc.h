#ifndef VP_VC_H
#define VP_VC_H
#include "vp.h"
#include <Vc/Vc>
using Vc::double_v;
using Vc::float_v;
using Vc::int_v;
using Vc::uint_v;
using Vc::short_v;
using Vc::ushort_v;
typedef signed char schar;
typedef unsigned char uchar;
typedef unsigned int uint;
typedef unsigned short ushort;
#if defined(Vc_IMPL_AVX)
// the SSE vectors stay usable next to the AVX ones and take different code paths there
typedef Vc::Vector<double, Vc::VectorAbi::Sse> sse_double_v;
typedef Vc::Vector<float, Vc::VectorAbi::Sse> sse_float_v;
typedef Vc::Vector<int, Vc::VectorAbi::Sse> sse_int_v;
typedef Vc::Vector<unsigned int, Vc::VectorAbi::Sse> sse_uint_v;
typedef Vc::Vector<short, Vc::VectorAbi::Sse> sse_short_v;
typedef Vc::Vector<unsigned short, Vc::VectorAbi::Sse> sse_ushort_v;
#endif
#ifdef VP_N
// the same harnesses for SimdArray<T, VP_N>
typedef Vc::SimdArray<double, VP_N> arr_double;
typedef Vc::SimdArray<float, VP_N> arr_float;
typedef Vc::SimdArray<int, VP_N> arr_int;
typedef Vc::SimdArray<unsigned int, VP_N> arr_uint;
typedef Vc::SimdArray<short, VP_N> arr_short;
typedef Vc::SimdArray<unsigned short, VP_N> arr_ushort;
#define VP_FLOATS(X) X(arr_double) X(arr_float)
#define VP_INTS(X) X(arr_int) X(arr_uint) X(arr_short) X(arr_ushort)
#else
#if defined(Vc_IMPL_AVX2)
#define VP_SSE_F(X) X(sse_double_v) X(sse_float_v)
#define VP_SSE_I(X) X(sse_int_v) X(sse_uint_v) X(sse_short_v) X(sse_ushort_v)
#elif defined(Vc_IMPL_AVX)
#define VP_SSE_F(X) X(sse_double_v) X(sse_float_v)
#define VP_SSE_I(X)
#else
#define VP_SSE_F(X)
#define VP_SSE_I(X)
#endif
#define VP_FLOATS(X) X(double_v) X(float_v) VP_SSE_F(X)
#define VP_INTS(X) X(int_v) X(uint_v) X(short_v) X(ushort_v) VP_SSE_I(X)
#endif
#define VP_ALL(X) VP_FLOATS(X) VP_INTS(X)
// a harness function for each type: VP_DEF(LIST, name) with a template name<V>()
#define VP_H(name, V) extern "C" void H_##name##_##V() { name<V>(); }
template <class V> using ET = typename V::EntryType;
template <class V> inline V ld(const ET<V> *p) { return V(p, Vc::Unaligned); }
template <class V> inline void st(const V &v, ET<V> *p) { v.store(p, Vc::Unaligned); }
// arbitrary vector, values in a[]
template <class V> inline V any(ET<V> *a, const char *name)
{
    vp::in(a, V::Size, name);
    return ld<V>(a);
}
template <class V> inline typename V::Mask anymask(bool *m, const char *name)
{
    vp::in(m, V::Size, name);
    return typename V::Mask(m);
}
template <class V> inline void expect(const V &v, const ET<V> *e, const char *msg)
{
    ET<V> r[V::Size];
    st(v, r);
    vp::same(r, e, V::Size, msg);
}
template <class V> inline void expect_value(const V &v, const ET<V> *e, const char *msg)
{
    ET<V> r[V::Size];
    st(v, r);
    vp::same_value(r, e, V::Size, msg);
}
template <class M> inline void expect_mask(const M &m, const bool *e, const char *msg)
{
    bool r[M::Size];
    for (std::size_t i = 0; i < M::Size; ++i) r[i] = m[i];
    vp_eq(r, e, M::Size, 1, 0, msg);
}
#define VP_LANES(V) for (std::size_t i = 0; i < V::Size; ++i)
#endif
