#include "vc.h"
#include <cstring>
// Transcendental functions: what can be stated without an accuracy bound.  Every entry of the result depends on the same entry of the
// operand only, special operands have the results of IEEE 754 / ISO C Annex F, sin/asin/atan are odd, cos is even, and
// sincos agrees with sin and cos.
template <class T> struct FB;
template <> struct FB<float>
{
    typedef unsigned int U;
    static constexpr U sign = 0x80000000u, inf = 0x7f800000u, nan = 0x7fc00000u;
    enum { M = 23, Bias = 127, ExpMax = 255 };
};
template <> struct FB<double>
{
    typedef unsigned long long U;
    static constexpr U sign = 0x8000000000000000ull, inf = 0x7ff0000000000000ull, nan = 0x7ff8000000000000ull;
    enum { M = 52, Bias = 1023, ExpMax = 2047 };
};
template <class T> inline typename FB<T>::U bits(T x)
{
    typename FB<T>::U u;
    std::memcpy(&u, &x, sizeof(T));
    return u;
}
template <class T> inline T unbits(typename FB<T>::U u)
{
    T x;
    std::memcpy(&x, &u, sizeof(T));
    return x;
}
template <class T> inline T flip(T x) { return unbits<T>(bits(x) ^ FB<T>::sign); }
template <class T> inline typename FB<T>::U mag(T x) { return bits(x) & ~FB<T>::sign; }
template <class T> inline bool nan_(T x) { return mag(x) > FB<T>::inf; }
template <class T> inline bool finite_(T x) { return mag(x) < FB<T>::inf; }
constexpr double Pi = 3.14159265358979323846;

struct Log { template <class V> V operator()(const V &x) const { return Vc::log(x); } };
struct Log2 { template <class V> V operator()(const V &x) const { return Vc::log2(x); } };
struct Log10 { template <class V> V operator()(const V &x) const { return Vc::log10(x); } };
struct Exp { template <class V> V operator()(const V &x) const { return Vc::exp(x); } };
struct Asin { template <class V> V operator()(const V &x) const { return Vc::asin(x); } };
struct Atan { template <class V> V operator()(const V &x) const { return Vc::atan(x); } };
struct Sin { template <class V> V operator()(const V &x) const { return Vc::sin(x); } };
struct Cos { template <class V> V operator()(const V &x) const { return Vc::cos(x); } };
struct SinOfSincos { template <class V> V operator()(const V &x) const { V s, c; Vc::sincos(x, &s, &c); return s; } };
struct CosOfSincos { template <class V> V operator()(const V &x) const { V s, c; Vc::sincos(x, &s, &c); return c; } };
struct Rsqrt { template <class V> V operator()(const V &x) const { return Vc::rsqrt(x); } };
struct Recip { template <class V> V operator()(const V &x) const { return Vc::reciprocal(x); } };

// f(x)[i] is f(V(x[i]))[i]
template <class F, class V> void lane_independent(const ET<V> *a, const char *msg)
{
    typedef ET<V> T;
    T r[V::Size], e[V::Size], b[V::Size];
    st(V(F()(ld<V>(a))), r);
    VP_LANES(V)
    {
        const V s = F()(V(a[i]));
        st(s, b);
        e[i] = b[i];
    }
    vp::same(r, e, V::Size, msg);
}
template <class V> void lane_log()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    lane_independent<Log, V>(a, "log: entry independent of the others");
    lane_independent<Log2, V>(a, "log2: entry independent of the others");
    lane_independent<Log10, V>(a, "log10: entry independent of the others");
}
template <class V> void lane_exp()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    lane_independent<Exp, V>(a, "exp: entry independent of the others");
}
template <class V> void lane_arc()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    lane_independent<Asin, V>(a, "asin: entry independent of the others");
    lane_independent<Atan, V>(a, "atan: entry independent of the others");
}
template <class V> void lane_approx()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    lane_independent<Rsqrt, V>(a, "rsqrt: entry independent of the others");
    lane_independent<Recip, V>(a, "reciprocal: entry independent of the others");
}
template <class V> void lane_atan2()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], r[V::Size], t[V::Size], e[V::Size];
    const V y = any<V>(a, "y"), x = any<V>(b, "x");
    st(V(Vc::atan2(y, x)), r);
    VP_LANES(V)
    {
        st(V(Vc::atan2(V(a[i]), V(b[i]))), t);
        e[i] = t[i];
    }
    vp::same(r, e, V::Size, "atan2: entry independent of the others");
}
// the argument reduction of sin/cos is chosen for the whole vector; within one range the entries are independent
template <class V> void lane_trig(const ET<V> *a)
{
    lane_independent<Sin, V>(a, "sin: entry independent of the others");
    lane_independent<Cos, V>(a, "cos: entry independent of the others");
}
template <class V> void in_range(ET<V> *a, double lo, double hi)
{
    any<V>(a, "x");
    VP_LANES(V)
    {
        const ET<V> m = unbits<ET<V>>(mag(a[i]));
        vp_assume((m >= ET<V>(lo)) & (m < ET<V>(hi)));
    }
}
template <class V> void lane_trig_small()
{
    ET<V> a[V::Size];
    in_range<V>(a, 0, .785);
    lane_trig<V>(a);
}
template <class V> void lane_trig_medium()
{
    ET<V> a[V::Size];
    in_range<V>(a, .786, 25.9);
    lane_trig<V>(a);
}
// 2^e <= |x| < 2^(e + 2^n)
template <class V> void range_large(ET<V> *a, int ef, int nf, int ed, int nd)
{
    typedef ET<V> T;
    typedef FB<T> B;
    const int e = sizeof(T) == 4 ? ef : ed, n = sizeof(T) == 4 ? nf : nd;
    typename B::U x[V::Size];
    vp::in(x, V::Size, "x");
    const typename B::U fixed = (B::inf >> (B::M + n)) << (B::M + n);
    VP_LANES(V) a[i] = unbits<T>((x[i] & ~fixed) | (typename B::U(e + B::Bias) << B::M));
}
template <class V> void lane_trig_large()
{
    // float: 32..131072, double: 8192..131072
    ET<V> a[V::Size];
    range_large<V>(a, 5, 2, 13, 2);
    lane_trig<V>(a);
    range_large<V>(a, 9, 3, 13, 2);
    lane_trig<V>(a);
}
template <class V> void lane_trig_huge()
{
    // values where the float functions continue with double; above the range of the second reduction for double
    ET<V> a[V::Size];
    range_large<V>(a, 25, 1, 33, 3);
    lane_trig<V>(a);
}
template <class V> void sincos_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    if (sizeof(T) == 4) VP_LANES(V) vp_assume((mag(a[i]) < bits(T(393382))) | (mag(a[i]) >= bits(T(527449))));
    if (sizeof(T) == 4) {
        bool lo = true, hi = true;
        VP_LANES(V) lo = lo & (mag(a[i]) < bits(T(393382)));
        VP_LANES(V) hi = hi & (mag(a[i]) >= bits(T(527449)));
        vp_assume(lo | hi);
    }
    V s, c;
    Vc::sincos(x, &s, &c);
    st(V(Vc::sin(x)), e);
    expect(s, e, "sincos and sin");
    st(V(Vc::cos(x)), e);
    expect(c, e, "sincos and cos");
}
#if defined(Vc_IMPL_AVX)
// the same values in AVX and in SSE vectors give the same results
template <class F, class A, class S> void same_abi(const ET<A> *a, const char *msg)
{
    typedef ET<A> T;
    T r[A::Size], e[A::Size];
    st(A(F()(ld<A>(a))), r);
    for (std::size_t i = 0; i < A::Size; i += S::Size) st(S(F()(ld<S>(a + i))), e + i);
    vp::same(r, e, A::Size, msg);
}
template <class A, class S> void abi_()
{
    ET<A> a[A::Size];
    any<A>(a, "x");
    same_abi<Log, A, S>(a, "log in AVX and SSE vectors");
    same_abi<Log2, A, S>(a, "log2 in AVX and SSE vectors");
    same_abi<Log10, A, S>(a, "log10 in AVX and SSE vectors");
    same_abi<Exp, A, S>(a, "exp in AVX and SSE vectors");
    same_abi<Asin, A, S>(a, "asin in AVX and SSE vectors");
    same_abi<Atan, A, S>(a, "atan in AVX and SSE vectors");
    in_range<A>(a, .786, 25.9);
    same_abi<Sin, A, S>(a, "sin in AVX and SSE vectors");
    same_abi<Cos, A, S>(a, "cos in AVX and SSE vectors");
}
template <class A, class S> void abi_large()
{
    ET<A> a[A::Size];
    range_large<A>(a, 5, 2, 13, 2);
    same_abi<Sin, A, S>(a, "sin in AVX and SSE vectors");
    same_abi<Cos, A, S>(a, "cos in AVX and SSE vectors");
}
#endif
// symmetry
template <class F, class V> void odd(const ET<V> *a, const char *msg)
{
    typedef ET<V> T;
    T n[V::Size], r[V::Size], e[V::Size];
    VP_LANES(V) n[i] = flip(a[i]);
    st(V(F()(ld<V>(a))), e);
    st(V(F()(ld<V>(n))), r);
    VP_LANES(V) e[i] = flip(e[i]);
    vp::same_value(r, e, V::Size, msg);
}
template <class F, class V> void even(const ET<V> *a, const char *msg)
{
    typedef ET<V> T;
    T n[V::Size], r[V::Size], e[V::Size];
    VP_LANES(V) n[i] = flip(a[i]);
    st(V(F()(ld<V>(a))), e);
    st(V(F()(ld<V>(n))), r);
    vp::same_value(r, e, V::Size, msg);
}
template <class V> void symmetric_trig()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    odd<Sin, V>(a, "sin(-x) = -sin(x)");
    even<Cos, V>(a, "cos(-x) = cos(x)");
    odd<SinOfSincos, V>(a, "sin(-x) = -sin(x) in sincos");
    even<CosOfSincos, V>(a, "cos(-x) = cos(x) in sincos");
}
template <class V> void symmetric_arc()
{
    ET<V> a[V::Size];
    any<V>(a, "x");
    VP_LANES(V) vp_assume(!nan_(a[i]) & (mag(a[i]) != 0));      // zero: special_arc
    odd<Asin, V>(a, "asin(-x) = -asin(x)");
    odd<Atan, V>(a, "atan(-x) = -atan(x)");
}
// special operands: entry i special, the others arbitrary
template <class F, class V> void special(typename FB<ET<V>>::U x, typename FB<ET<V>>::U want, const char *msg)
{
    typedef ET<V> T;
    VP_LANES(V)
    {
        T a[V::Size], r[V::Size];
        any<V>(a, "x");
        a[i] = unbits<T>(x);
        st(V(F()(ld<V>(a))), r);
        const T e = unbits<T>(want);
        vp_eq(&r[i], &e, 1, sizeof(T), 2, msg);
    }
}
template <class V> void special_log()
{
    typedef ET<V> T;
    typedef FB<T> B;
    special<Log, V>(0, B::inf | B::sign, "log(0) is -inf");
    special<Log, V>(B::sign, B::inf | B::sign, "log(-0) is -inf");
    special<Log, V>(bits(T(1)), 0, "log(1) is 0");
    special<Log, V>(B::inf, B::inf, "log(inf) is inf");
    special<Log, V>(B::nan, B::nan, "log(NaN) is NaN");
    special<Log2, V>(0, B::inf | B::sign, "log2(0) is -inf");
    special<Log2, V>(B::inf, B::inf, "log2(inf) is inf");
    special<Log2, V>(B::nan, B::nan, "log2(NaN) is NaN");
    special<Log10, V>(0, B::inf | B::sign, "log10(0) is -inf");
    special<Log10, V>(bits(T(1)), 0, "log10(1) is 0");
    special<Log10, V>(B::inf, B::inf, "log10(inf) is inf");
    special<Log10, V>(B::nan, B::nan, "log10(NaN) is NaN");
}
template <class V> void negative_log()
{
    typedef ET<V> T;
    typedef FB<T> B;
    T a[V::Size], r[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    bool neg[V::Size];
    VP_LANES(V) neg[i] = (bits(a[i]) > B::sign) & !nan_(a[i]);
    st(V(Vc::log(x)), r);
    VP_LANES(V) e[i] = neg[i] ? unbits<T>(B::nan) : r[i];
    vp::same(r, e, V::Size, "log(x < 0) is NaN");
    st(V(Vc::log2(x)), r);
    VP_LANES(V) e[i] = neg[i] ? unbits<T>(B::nan) : r[i];
    vp::same(r, e, V::Size, "log2(x < 0) is NaN");
    st(V(Vc::log10(x)), r);
    VP_LANES(V) e[i] = neg[i] ? unbits<T>(B::nan) : r[i];
    vp::same(r, e, V::Size, "log10(x < 0) is NaN");
}
// log2 of a power of two is exact
template <class V> void power_log2()
{
    typedef ET<V> T;
    typedef FB<T> B;
    // exponent fields with the leading one at p
    for (int p = sizeof(T) == 4 ? 7 : 10; p > 0; --p) {
        T a[V::Size], e[V::Size];
        typename B::U f[V::Size];
        vp::in(f, V::Size, "x");
        VP_LANES(V)
        {
            f[i] = (f[i] & ((typename B::U(1) << (B::M + p)) - (typename B::U(1) << B::M))) | (typename B::U(1) << (B::M + p));
            const int k = int(f[i] >> B::M);
            vp_assume(k < B::ExpMax);
            a[i] = unbits<T>(f[i]);
            e[i] = T(k - B::Bias);
        }
        expect_value(V(Vc::log2(ld<V>(a))), e, "log2 of a power of two");
    }
    // denormal powers of two
    for (int j = 0; j < int(B::M); j += V::Size) {
        T a[V::Size], e[V::Size];
        VP_LANES(V)
        {
            const int k = j + int(i) < int(B::M) ? j + int(i) : 0;
            a[i] = unbits<T>(typename B::U(1) << k);
            e[i] = T(k + 1 - B::Bias - int(B::M));
        }
        expect_value(V(Vc::log2(ld<V>(a))), e, "log2 of a denormal power of two");
    }
}
template <class V> void special_exp()
{
    typedef ET<V> T;
    typedef FB<T> B;
    special<Exp, V>(0, bits(T(1)), "exp(0) is 1");
    special<Exp, V>(B::sign, bits(T(1)), "exp(-0) is 1");
    special<Exp, V>(B::inf, B::inf, "exp(inf) is inf");
    special<Exp, V>(B::inf | B::sign, 0, "exp(-inf) is 0");
    special<Exp, V>(B::nan, B::nan, "exp(NaN) is NaN");
}
template <class V> void range_exp()
{
    typedef ET<V> T;
    typedef FB<T> B;
    T a[V::Size], r[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    st(V(Vc::exp(x)), r);
    VP_LANES(V)
    {
        const bool over = !nan_(a[i]) & (a[i] > T(88.75)), under = !nan_(a[i]) & (a[i] < T(-104));
        e[i] = over ? unbits<T>(B::inf) : under ? T(0) : r[i];
    }
    vp::same_value(r, e, V::Size, "exp beyond the range");
}
template <class V> void special_arc()
{
    typedef ET<V> T;
    typedef FB<T> B;
    special<Asin, V>(0, 0, "asin(0) is 0");
    special<Asin, V>(B::sign, 0, "asin(-0) is 0");
    special<Atan, V>(B::sign, 0, "atan(-0) is 0");
    special<Asin, V>(B::nan, B::nan, "asin(NaN) is NaN");
    special<Asin, V>(B::inf, B::nan, "asin(inf) is NaN");
    special<Atan, V>(0, 0, "atan(0) is 0");
    special<Atan, V>(B::inf, bits(T(Pi / 2)), "atan(inf) is pi/2");
    special<Atan, V>(B::inf | B::sign, bits(T(-Pi / 2)), "atan(-inf) is -pi/2");
    special<Atan, V>(B::nan, B::nan, "atan(NaN) is NaN");
}
template <class V> void range_asin()
{
    typedef ET<V> T;
    typedef FB<T> B;
    T a[V::Size], r[V::Size], e[V::Size];
    const V x = any<V>(a, "x");
    st(V(Vc::asin(x)), r);
    VP_LANES(V) e[i] = (mag(a[i]) > bits(T(1))) & !nan_(a[i]) ? unbits<T>(B::nan) : r[i];
    vp::same(r, e, V::Size, "asin(|x| > 1) is NaN");
}
template <class V> void special_trig()
{
    typedef ET<V> T;
    typedef FB<T> B;
    special<Sin, V>(0, 0, "sin(0) is 0");
    special<Cos, V>(0, bits(T(1)), "cos(0) is 1");
    special<Sin, V>(B::nan, B::nan, "sin(NaN) is NaN");
    special<Cos, V>(B::nan, B::nan, "cos(NaN) is NaN");
    special<Sin, V>(B::inf, B::nan, "sin(inf) is NaN");
    special<Cos, V>(B::inf, B::nan, "cos(inf) is NaN");
    special<SinOfSincos, V>(B::inf, B::nan, "sin(inf) is NaN in sincos");
    special<CosOfSincos, V>(B::inf, B::nan, "cos(inf) is NaN in sincos");
    special<SinOfSincos, V>(0, 0, "sin(0) is 0 in sincos");
    special<CosOfSincos, V>(0, bits(T(1)), "cos(0) is 1 in sincos");
}
// atan2(+-y, x): entry i as given with both signs of y, the others arbitrary; the result may be one unit away from the rounded value
template <class V> void atan2_case(typename FB<ET<V>>::U y, typename FB<ET<V>>::U x, double want, const char *msg)
{
    typedef ET<V> T;
    typedef FB<T> B;
    VP_LANES(V)
    {
        T a[V::Size], b[V::Size], r[V::Size];
        any<V>(a, "y");
        any<V>(b, "x");
        a[i] = unbits<T>(y);
        b[i] = unbits<T>(x);
        st(V(Vc::atan2(ld<V>(a), ld<V>(b))), r);
        const typename B::U w = bits(T(want)) | (y & B::sign), g = bits(r[i]);
        vp_check((g == w) | (want != 0 && (g == w + 1 || g + 1 == w)), msg);
    }
}
template <class V> void special_atan2_(typename FB<ET<V>>::U s)
{
    typedef ET<V> T;
    typedef FB<T> B;
    const typename B::U one = bits(T(1.5)), neg = B::sign;
    atan2_case<V>(s, 0, 0, "atan2(+-0, +0) is +-0");
    atan2_case<V>(s, one, 0, "atan2(+-0, x > 0) is +-0");
    atan2_case<V>(s, neg, Pi, "atan2(+-0, -0) is +-pi");
    atan2_case<V>(s, one | neg, Pi, "atan2(+-0, x < 0) is +-pi");
    atan2_case<V>(s | one, 0, Pi / 2, "atan2(+-y, +0) is +-pi/2");
    atan2_case<V>(s | one, neg, Pi / 2, "atan2(+-y, -0) is +-pi/2");
    atan2_case<V>(s | one, B::inf, 0, "atan2(+-y, inf) is +-0");
    atan2_case<V>(s | one, B::inf | neg, Pi, "atan2(+-y, -inf) is +-pi");
    atan2_case<V>(s | B::inf, one, Pi / 2, "atan2(+-inf, x) is +-pi/2");
    atan2_case<V>(s | B::inf, one | neg, Pi / 2, "atan2(+-inf, -x) is +-pi/2");
    atan2_case<V>(s | B::inf, B::inf, Pi / 4, "atan2(+-inf, inf) is +-pi/4");
    atan2_case<V>(s | B::inf, B::inf | neg, 3 * Pi / 4, "atan2(+-inf, -inf) is +-3pi/4");
}
template <class V> void special_atan2()
{
    special_atan2_<V>(0);
    special_atan2_<V>(FB<ET<V>>::sign);
}
template <class V> void nan_atan2()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], r[V::Size], e[V::Size];
    const V y = any<V>(a, "y"), x = any<V>(b, "x");
    st(V(Vc::atan2(y, x)), r);
    VP_LANES(V) e[i] = nan_(a[i]) | nan_(b[i]) ? unbits<T>(FB<T>::nan) : r[i];
    vp::same(r, e, V::Size, "atan2 of NaN is NaN");
}
#define L(V)                                                                                                                             \
    VP_H(lane_log, V) VP_H(lane_exp, V) VP_H(lane_arc, V) VP_H(lane_approx, V) VP_H(lane_atan2, V) VP_H(lane_trig_small, V)              \
        VP_H(lane_trig_medium, V) VP_H(lane_trig_large, V) VP_H(lane_trig_huge, V) VP_H(sincos_, V)
VP_FLOATS(L)
#if !defined(VP_N) && defined(Vc_IMPL_AVX)
extern "C" void H_abi_float() { abi_<float_v, sse_float_v>(); }
extern "C" void H_abi_double() { abi_<double_v, sse_double_v>(); }
extern "C" void H_abi_large_float() { abi_large<float_v, sse_float_v>(); }
extern "C" void H_abi_large_double() { abi_large<double_v, sse_double_v>(); }
#endif
#ifndef VP_N
// the scalar implementation, and with it the remainder of a SimdArray, is the C library's
#ifndef VP_CFG_Scalar
#define S(V)                                                                                                                             \
    VP_H(symmetric_trig, V) VP_H(symmetric_arc, V) VP_H(special_log, V) VP_H(negative_log, V) VP_H(power_log2, V) VP_H(special_arc, V)   \
        VP_H(range_asin, V) VP_H(special_trig, V) VP_H(special_atan2, V) VP_H(nan_atan2, V)
VP_FLOATS(S)
#define E(V) VP_H(special_exp, V) VP_H(range_exp, V)
E(float_v)
#if defined(Vc_IMPL_AVX)
E(sse_float_v)
#endif
#endif
#endif
