#include "vc.h"
// Conversions of SimdArray<T, VP_N>: to other entry types, other sizes (missing lanes zero), to and from Vector, of masks, of pieces.
#define VP_CAT_(a, b) a##b
template <class T, class F> inline typename std::enable_if<std::is_floating_point<F>::value && std::is_integral<T>::value, bool>::type fits(F x)
{
    const F lo = F(std::numeric_limits<T>::min()) - F(1), hi = F(2) * F(std::numeric_limits<T>::max() / 2 + 1);
    return (lo == F(std::numeric_limits<T>::min()) ? x >= lo : x > lo) && x < hi;
}
template <class T, class F> inline typename std::enable_if<!(std::is_floating_point<F>::value && std::is_integral<T>::value), bool>::type fits(F) { return true; }
// the lanes that are dropped may be converted as well
template <class To, class From> inline void convert(const ET<From> *a, std::size_t n, std::size_t off, ET<To> *e)
{
    for (std::size_t i = 0; i < n; ++i) vp_assume(fits<ET<To>>(a[i]));
    VP_LANES(To) e[i] = i + off < n ? static_cast<ET<To>>(a[i + off]) : ET<To>(0);
}
template <class To, class From> inline void ctor()
{
    ET<From> a[From::Size];
    const From v = any<From>(a, "a");
    ET<To> e[To::Size];
    convert<To, From>(a, From::Size, 0, e);
    expect(static_cast<To>(v), e, "static_cast<To>(From)");
}
template <class To, class From> inline void cast1()
{
    ET<From> a[From::Size];
    const From v = any<From>(a, "a");
    ET<To> e[To::Size];
    convert<To, From>(a, From::Size, 0, e);
    expect(To(Vc::simd_cast<To>(v)), e, "simd_cast<To>(x)");
}
template <class To, class From> inline void cast2()
{
    ET<From> a[2 * From::Size];
    const From v = any<From>(a, "a"), w = any<From>(a + From::Size, "b");
    ET<To> e[To::Size];
    convert<To, From>(a, 2 * From::Size, 0, e);
    expect(To(Vc::simd_cast<To>(v, w)), e, "simd_cast<To>(x, y)");
}
template <class To, class From> inline void cast3()
{
    ET<From> a[3 * From::Size];
    const From v = any<From>(a, "a"), w = any<From>(a + From::Size, "b"), x = any<From>(a + 2 * From::Size, "c");
    ET<To> e[To::Size];
    convert<To, From>(a, 3 * From::Size, 0, e);
    expect(To(Vc::simd_cast<To>(v, w, x)), e, "simd_cast<To>(x, y, z)");
}
template <class To, class From, int Off> inline void castoff()
{
    ET<From> a[From::Size];
    const From v = any<From>(a, "a");
    ET<To> e[To::Size];
    convert<To, From>(a, From::Size, Off * To::Size, e);
    expect(To(Vc::simd_cast<To, Off>(v)), e, "simd_cast<To, offset>(x)");
}
template <class To, class From> inline void mask1()
{
    bool a[From::Size], e[To::Size];
    vp::in(a, From::Size, "m");
    const typename From::Mask m(a);
    VP_LANES(To) e[i] = i < From::Size && a[i];
    expect_mask(typename To::Mask(Vc::simd_cast<typename To::Mask>(m)), e, "simd_cast<Mask>(m)");
}
template <class To, class From> inline void mask2()
{
    bool a[2 * From::Size], e[To::Size];
    vp::in(a, 2 * From::Size, "m");
    const typename From::Mask m(a), n(a + From::Size);
    VP_LANES(To) e[i] = i < 2 * From::Size && a[i];
    expect_mask(typename To::Mask(Vc::simd_cast<typename To::Mask>(m, n)), e, "simd_cast<Mask>(m, n)");
}
template <class To, class From, int Off> inline void maskoff()
{
    bool a[From::Size], e[To::Size];
    vp::in(a, From::Size, "m");
    const typename From::Mask m(a);
    VP_LANES(To) e[i] = i + Off * To::Size < From::Size && a[i + Off * To::Size];
    expect_mask(typename To::Mask(Vc::simd_cast<typename To::Mask, Off>(m)), e, "simd_cast<Mask, offset>(m)");
}
template <class To, class From> inline void mctor()
{
    bool a[From::Size];
    vp::in(a, From::Size, "m");
    const typename From::Mask m(a);
    expect_mask(typename To::Mask(m), a, "Mask(other mask)");
}
template <bool> struct If {
    template <class To, class From> static void one() { cast1<To, From>(); }
    template <class To, class From> static void two() { cast2<To, From>(); }
    template <class To, class From> static void off() { castoff<To, From, 1>(); }
    template <class To, class From> static void mask() { mask1<To, From>(); }
};
template <> struct If<false> {
    template <class To, class From> static void one() { vp_check(true, "n/a"); }
    template <class To, class From> static void two() { vp_check(true, "n/a"); }
    template <class To, class From> static void off() { vp_check(true, "n/a"); }
    template <class To, class From> static void mask() { vp_check(true, "n/a"); }
};
#define TYPES(X, F) X(F, double) X(F, float) X(F, int) X(F, uint) X(F, short) X(F, ushort)
#define ALLP(X) TYPES(X, double) TYPES(X, float) TYPES(X, int) TYPES(X, uint) TYPES(X, short) TYPES(X, ushort)
#define ARR(T, N) Vc::SimdArray<T, (N)>
#define FN(name, F, T, call) extern "C" void H_##name##_##F##_##T() { call; }
// double -> unsigned int is expensive to decide: few entries only
#define FD(name, F, T, call) extern "C" void H_##name##_##F##_##T() { Some<F, T>::run([] { call; }); }
template <class F, class T> struct Some { template <class G> static void run(G g) { g(); } };
#if VP_N > 4
template <> struct Some<double, uint> { template <class G> static void run(G) { vp_check(true, "skipped"); } };
#endif
#define SAME(F, T) FN(ctor, F, T, (ctor<ARR(T, VP_N), ARR(F, VP_N)>())) FN(mctor, F, T, (mctor<ARR(T, VP_N), ARR(F, VP_N)>()))
ALLP(SAME)
#define UP(F, T)                                                                                                     \
    FD(up, F, T, (cast1<ARR(T, VP_N + 1), ARR(F, VP_N)>()))                                                          \
    FD(dbl, F, T, (cast1<ARR(T, 2 * VP_N), ARR(F, VP_N)>()))                                                         \
    FD(down, F, T, (cast1<ARR(T, (VP_N + 1) / 2), ARR(F, VP_N)>()))                                                  \
    FD(two, F, T, (cast2<ARR(T, 2 * VP_N), ARR(F, VP_N)>()))                                                         \
    FD(twoup, F, T, (cast2<ARR(T, 2 * VP_N + 1), ARR(F, VP_N)>()))                                                   \
    FD(twodown, F, T, (cast2<ARR(T, VP_N + 1), ARR(F, VP_N)>()))                                                     \
    FD(three, F, T, (cast3<ARR(T, 3 * VP_N), ARR(F, VP_N)>()))                                                       \
    FD(off, F, T, (castoff<ARR(T, (VP_N + 1) / 2), ARR(F, VP_N), 1>()))                                              \
    FN(mup, F, T, (mask1<ARR(T, VP_N + 1), ARR(F, VP_N)>()))                                                         \
    FN(mdown, F, T, (mask1<ARR(T, (VP_N + 1) / 2), ARR(F, VP_N)>()))                                                 \
    FN(mtwo, F, T, (mask2<ARR(T, 2 * VP_N), ARR(F, VP_N)>()))                                                        \
    FN(moff, F, T, (maskoff<ARR(T, (VP_N + 1) / 2), ARR(F, VP_N), 1>()))
#ifdef VP_SIZES
ALLP(UP)
#endif
// pieces: vectors out of arrays and arrays out of vectors
#define VEC(F, T)                                                                                                    \
    FD(tovec, F, T, (cast1<T##_v, ARR(F, VP_N)>()))                                                                  \
    FD(tovec1, F, T, (If<(T##_v::Size < VP_N)>::off<T##_v, ARR(F, VP_N)>()))                                                            \
    FD(fromvec, F, T, (If<(F##_v::Size <= VP_N)>::one<ARR(T, VP_N), F##_v>()))                                                                \
    FD(fromvec2, F, T, (If<(2 * F##_v::Size <= VP_N)>::two<ARR(T, VP_N), F##_v>()))                                                               \
    FN(mtovec, F, T, (mask1<T##_v, ARR(F, VP_N)>()))                                                                 \
    FN(mfromvec, F, T, (If<(F##_v::Size <= VP_N)>::mask<ARR(T, VP_N), F##_v>()))
#ifdef VP_PIECES
ALLP(VEC)
#endif
