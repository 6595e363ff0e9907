#include "vc.h"
#include <cmath>
#include <cstring>
// Math functions with an exactly defined result.  The reference is written with the bits of the operand or with a builtin that has
// one correctly rounded result.
template <class T> struct FB;
template <> struct FB<float>
{
    typedef unsigned int U;
    typedef int I;
    enum { M = 23, E = 8 };
};
template <> struct FB<double>
{
    typedef unsigned long long U;
    typedef long long I;
    enum { M = 52, E = 11 };
};
template <class T> inline typename FB<T>::U bits(T x)
{
    typename FB<T>::U u;
    std::memcpy(&u, &x, sizeof(T));
    return u;
}
template <class T> inline T unbits(typename FB<T>::U u)
{
    T x;
    std::memcpy(&x, &u, sizeof(T));
    return x;
}
template <class T> inline typename FB<T>::U magnitude(T x) { return bits(x) & ~(typename FB<T>::U(1) << (sizeof(T) * 8 - 1)); }
template <class T> inline int expo(T x) { return int(magnitude(x) >> FB<T>::M); }
template <class T> inline int maxexpo(T) { return (1 << FB<T>::E) - 1; }
template <class T> inline bool zero_(T x) { return magnitude(x) == 0; }
template <class T> inline bool inf_(T x) { return magnitude(x) == (typename FB<T>::U(maxexpo(x)) << FB<T>::M); }
template <class T> inline bool nan_(T x) { return magnitude(x) > (typename FB<T>::U(maxexpo(x)) << FB<T>::M); }
template <class T> inline bool normal_(T x) { return (expo(x) != 0) & (expo(x) != maxexpo(x)); }
inline float rsqrt_(float x) { return __builtin_sqrtf(x); }
inline double rsqrt_(double x) { return __builtin_sqrt(x); }
inline float floor_(float x) { return __builtin_floorf(x); }
inline double floor_(double x) { return __builtin_floor(x); }
inline float ceil_(float x) { return __builtin_ceilf(x); }
inline double ceil_(double x) { return __builtin_ceil(x); }
inline float trunc_(float x) { return __builtin_truncf(x); }
inline double trunc_(double x) { return __builtin_trunc(x); }
inline float even_(float x) { return __builtin_roundevenf(x); }
inline double even_(double x) { return __builtin_roundeven(x); }
inline float fma_(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
inline double fma_(double a, double b, double c) { return __builtin_fma(a, b, c); }
template <class V> void abs_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = unbits<T>(magnitude(a[i]));
    expect(Vc::abs(x), e, "abs(x)");
}
template <class V> void iabs()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = T(a[i] < 0 ? 0u - unsigned(int(a[i])) : unsigned(int(a[i])));
    expect(Vc::abs(x), e, "abs(x)");
}
template <class V> void copysign_()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "magnitude"), y = any<V>(b, "sign");
    VP_LANES(V) e[i] = unbits<T>(magnitude(a[i]) | (bits(b[i]) ^ magnitude(b[i])));
    expect(Vc::copysign(x, y), e, "copysign(x, y)");
}
template <class V> void sqrt_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = rsqrt_(a[i]);
    expect(Vc::sqrt(x), e, "sqrt(x)");
}
template <class V> void floor_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = floor_(a[i]);
    expect_value(Vc::floor(x), e, "floor(x)");
}
template <class V> void ceil_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = ceil_(a[i]);
    expect_value(Vc::ceil(x), e, "ceil(x)");
}
template <class V> void trunc_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = trunc_(a[i]);
    expect_value(Vc::trunc(x), e, "trunc(x)");
}
template <class V> void round_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = even_(a[i]);
    expect_value(Vc::round(x), e, "round(x)");
}
template <class T> inline void not_nan(T) {}
inline void not_nan(float x) { vp_assume(x == x); }
inline void not_nan(double x) { vp_assume(x == x); }
template <class V> void minmax()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "x"), y = any<V>(b, "y");
    VP_LANES(V) not_nan(a[i]);
    VP_LANES(V) not_nan(b[i]);
    VP_LANES(V) e[i] = b[i] < a[i] ? b[i] : a[i];
    expect_value(Vc::min(x, y), e, "min(x, y)");
    VP_LANES(V) e[i] = a[i] < b[i] ? b[i] : a[i];
    expect_value(Vc::max(x, y), e, "max(x, y)");
}
template <class V> void classify()
{
    typedef ET<V> T;
    T a[V::Size];
    bool e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = nan_(a[i]);
    expect_mask(Vc::isnan(x), e, "isnan(x)");
    VP_LANES(V) e[i] = inf_(a[i]);
    expect_mask(Vc::isinf(x), e, "isinf(x)");
    VP_LANES(V) e[i] = expo(a[i]) != maxexpo(a[i]);
    expect_mask(Vc::isfinite(x), e, "isfinite(x)");
    VP_LANES(V) e[i] = bits(a[i]) != magnitude(a[i]);
    expect_mask(Vc::isnegative(x), e, "isnegative(x)");
}
// frexp: x = result * 2^e with 0.5 <= |result| < 1; zero, infinities and NaN are returned unchanged, the exponent of zero is zero
template <class V> inline void frexp_one(bool subnormal)
{
    typedef ET<V> T;
    enum { N = V::Size };
    typedef Vc::SimdArray<int, N> I;
    T a[N], e[N];
    int n[N], r[N];
    const V x = any<V>(a, "x");
    VP_LANES(V) vp_assume(subnormal ? (expo(a[i]) == 0) & !zero_(a[i]) : (expo(a[i]) != 0) | zero_(a[i]));
    VP_LANES(V)
    {
        const bool sp = zero_(a[i]) | !(expo(a[i]) != maxexpo(a[i]));
        int k;
        T f;
        if (subnormal) {
            // scale by a power of two first: exact
            const T s = a[i] * unbits<T>(typename FB<T>::U((maxexpo(a[i]) >> 1) + FB<T>::M) << FB<T>::M);
            k = expo(s) - (maxexpo(a[i]) >> 1) + 1 - FB<T>::M;
            f = unbits<T>((bits(s) & ~(typename FB<T>::U(maxexpo(a[i])) << FB<T>::M)) | (typename FB<T>::U((maxexpo(a[i]) >> 1) - 1) << FB<T>::M));
        } else {
            k = sp ? 0 : expo(a[i]) - (maxexpo(a[i]) >> 1) + 1;
            f = sp ? a[i] : unbits<T>((bits(a[i]) & ~(typename FB<T>::U(maxexpo(a[i])) << FB<T>::M)) | (typename FB<T>::U((maxexpo(a[i]) >> 1) - 1) << FB<T>::M));
        }
        e[i] = f;
        n[i] = k;
    }
    I y;
    const V f = Vc::frexp(x, &y);
    expect(f, e, "frexp(x, &e)");
    y.store(r, Vc::Unaligned);
    VP_LANES(V) if (expo(a[i]) == maxexpo(a[i])) r[i] = 0;
    vp::same(r, n, N, "the exponent of frexp(x, &e)");
}
template <class V> void frexp_() { frexp_one<V>(false); }
template <class V> void frexp_subnormal() { frexp_one<V>(true); }
template <class V> inline void ldexp_one(int what)
{
    typedef ET<V> T;
    enum { N = V::Size };
    typedef Vc::SimdArray<int, N> I;
    T a[N], e[N];
    int n[N];
    const V x = any<V>(a, "x");
    vp::in(n, N, "e");
    VP_LANES(V)
    {
        const int m = maxexpo(a[i]);
        if (what == 0) {
            vp_assume(n[i] > -2 * m && n[i] < 2 * m);
            vp_assume(zero_(a[i]) || (normal_(a[i]) && expo(a[i]) + n[i] > 0 && expo(a[i]) + n[i] < m));
            e[i] = zero_(a[i]) ? a[i] : unbits<T>(bits(a[i]) + (typename FB<T>::U(typename FB<T>::I(n[i])) << FB<T>::M));
        } else if (what == 1) {
            vp_assume(expo(a[i]) == m);
            e[i] = a[i];
        } else {
            // the result overflows
            vp_assume(normal_(a[i]) && n[i] >= 0 && n[i] < m && expo(a[i]) + n[i] >= m);
            e[i] = unbits<T>((bits(a[i]) ^ magnitude(a[i])) | (typename FB<T>::U(m) << FB<T>::M));
        }
    }
    expect(Vc::ldexp(x, I(n, Vc::Unaligned)), e, "ldexp(x, e)");
}
template <class V> void ldexp_() { ldexp_one<V>(0); }
template <class V> void ldexp_special() { ldexp_one<V>(1); }
template <class V> void ldexp_overflow() { ldexp_one<V>(2); }
template <class V> void exponent_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) vp_assume(normal_(a[i]) && a[i] > 0);
    VP_LANES(V) e[i] = T(expo(a[i]) - (maxexpo(a[i]) >> 1));
    expect(Vc::exponent(x), e, "exponent(x)");
#ifndef VP_N
    expect(x.exponent(), e, "x.exponent()");
#endif
}
// multiply and add without rounding in between, for integral operands: the result is the exact integer, rounded once
template <class V> void fma_()
{
    typedef ET<V> T;
    short x[V::Size], y[V::Size], z[V::Size];
    T a[V::Size], b[V::Size], c[V::Size], e[V::Size];
    vp::in(x, V::Size, "a");
    vp::in(y, V::Size, "b");
    vp::in(z, V::Size, "c/16384");
    VP_LANES(V)
    {
        a[i] = x[i];
        b[i] = y[i];
        c[i] = T(z[i] * 16384);
        e[i] = T(x[i] * y[i] + z[i] * 16384);
    }
    expect_value(Vc::fma(ld<V>(a), ld<V>(b), ld<V>(c)), e, "fma(a, b, c)");
}
template <class V> void ifma()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], c[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b"), z = any<V>(c, "c");
    VP_LANES(V) e[i] = T(unsigned(a[i]) * unsigned(b[i]) + unsigned(c[i]));
    expect(Vc::fma(x, y, z), e, "fma(a, b, c)");
}
template <class V> void fpclassify_()
{
    typedef ET<V> T;
    T a[V::Size];
    int e[V::Size], r[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = nan_(a[i]) ? FP_NAN : inf_(a[i]) ? FP_INFINITE : zero_(a[i]) ? FP_ZERO : normal_(a[i]) ? FP_NORMAL : FP_SUBNORMAL;
    Vc::fpclassify(x).store(r, Vc::Unaligned);
    vp::same(r, e, V::Size, "fpclassify(x)");
}
#define X(V) VP_H(abs_, V) VP_H(copysign_, V) VP_H(sqrt_, V) VP_H(floor_, V) VP_H(ceil_, V) VP_H(trunc_, V) VP_H(round_, V) VP_H(classify, V) \
    VP_H(frexp_, V) VP_H(frexp_subnormal, V) VP_H(ldexp_, V) VP_H(ldexp_special, V) VP_H(ldexp_overflow, V) VP_H(exponent_, V) VP_H(fpclassify_, V)
VP_FLOATS(X)
#undef X
#define X(V) VP_H(minmax, V)
VP_ALL(X)
#undef X
#define X(V) VP_H(fma_, V)
#ifdef VP_N
X(arr_float)
#else
X(float_v)
#ifdef Vc_IMPL_AVX
X(sse_float_v)
#endif
#if defined(__FMA__) || defined(Vc_IMPL_Scalar)   // the emulation for double rounds more than once
X(double_v)
#endif
#endif
#undef X
#define X(V) VP_H(ifma, V)
VP_INTS(X)
#undef X
#ifdef VP_N
VP_H(iabs, arr_int) VP_H(iabs, arr_short)
#else
VP_H(iabs, int_v) VP_H(iabs, short_v)
#if defined(Vc_IMPL_AVX2)
VP_H(iabs, sse_int_v) VP_H(iabs, sse_short_v)
#endif
#endif
