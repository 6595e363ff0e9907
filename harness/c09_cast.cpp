#include "vc.h"
// simd_cast: lane i of the concatenated arguments arrives in lane i converted like static_cast; lanes without a source are zero.
typedef Vc::Scalar::Vector<double> sc_double_v;
typedef Vc::Scalar::Vector<float> sc_float_v;
typedef Vc::Scalar::Vector<int> sc_int_v;
typedef Vc::Scalar::Vector<uint> sc_uint_v;
typedef Vc::Scalar::Vector<short> sc_short_v;
typedef Vc::Scalar::Vector<ushort> sc_ushort_v;
// static_cast from floating point is defined only if the truncated value fits
template <class T, class F> inline typename std::enable_if<std::is_floating_point<F>::value && std::is_integral<T>::value, bool>::type fits(F x)
{
    const F lo = F(std::numeric_limits<T>::min()) - F(1), hi = F(2) * F(std::numeric_limits<T>::max() / 2 + 1);
    return (lo == F(std::numeric_limits<T>::min()) ? x >= lo : x > lo) && x < hi;
}
template <class T, class F> inline typename std::enable_if<!(std::is_floating_point<F>::value && std::is_integral<T>::value), bool>::type fits(F) { return true; }
template <class To, class From, int Off = 0> struct Cast {
    template <std::size_t... J> static auto run(int, Vc::index_sequence<J...>)
        -> decltype(To(Vc::simd_cast<To>((void(J), std::declval<const From &>())...)), void())
    {
        enum { N = sizeof...(J) };
        ET<From> a[N][From::Size];
        const From v[N] = {any<From>(a[J], "a")...};
        ET<To> e[To::Size];
        for (std::size_t i = 0; i < To::Size; ++i) {
            e[i] = ET<To>(0);
            if (i < N * From::Size) {
                const ET<From> x = a[i / From::Size][i % From::Size];
                vp_assume(fits<ET<To>>(x));
                e[i] = static_cast<ET<To>>(x);
            }
        }
        // lanes that are dropped may still be converted
        for (std::size_t i = To::Size; i < N * From::Size; ++i) vp_assume(fits<ET<To>>(a[i / From::Size][i % From::Size]));
        expect(To(Vc::simd_cast<To>(v[J]...)), e, "simd_cast<To>(x...)");
    }
    template <std::size_t... J> static void run(long, Vc::index_sequence<J...>) { vp_check(true, "no such cast"); }
};
template <class To, class From, int Off> struct OffCast {
    template <class T = To> static auto run(int) -> decltype(T(Vc::simd_cast<T, Off>(std::declval<const From &>())), void())
    {
        ET<From> a[From::Size];
        const From v = any<From>(a, "a");
        ET<To> e[To::Size];
        for (std::size_t i = 0; i < From::Size; ++i) vp_assume(fits<ET<To>>(a[i]));
        VP_LANES(To) e[i] = i + Off * To::Size < From::Size ? static_cast<ET<To>>(a[i + Off * To::Size]) : ET<To>(0);
        expect(To(Vc::simd_cast<To, Off>(v)), e, "simd_cast<To, offset>(x)");
    }
    static void run(long) { vp_check(true, "no such cast"); }
};
template <bool> struct If {
    template <class C, class... A> static void run(A... a) { C::run(0, a...); }
};
template <> struct If<false> {
    template <class C, class... A> static void run(A...) { vp_check(true, "n/a"); }
};
#define P0(a, b) a##b
#define ONE(To, From)                                                                                                \
    extern "C" void H_1_##From##_##To() { Cast<To, From>::run(0, Vc::make_index_sequence<1>()); }
#define MANY(To, From, N)                                                                                            \
    extern "C" void H_##N##_##From##_##To()                                                                          \
    {                                                                                                                \
        If<(int(N) * int(From::Size) <= int(To::Size) || (N <= 8 && (N - 1) * From::Size < To::Size))>::run<Cast<To, From>>(Vc::make_index_sequence<N>()); \
    }
#define OFF(To, From, O)                                                                                             \
    extern "C" void H_off##O##_##From##_##To() { If<(From::Size > O * To::Size)>::run<OffCast<To, From, O>>(); }
#if defined VP_PART_OFF
#define PAIR(From, To) OFF(To, From, 1) OFF(To, From, 2) OFF(To, From, 3)
#elif defined VP_PART_SCALAR
#define PAIR(From, To) ONE(To, sc_##From) MANY(To, sc_##From, 2) MANY(To, sc_##From, 3) MANY(To, sc_##From, 4) MANY(To, sc_##From, 5) \
    MANY(To, sc_##From, 6) MANY(To, sc_##From, 7) MANY(To, sc_##From, 8) ONE(sc_##From, To) OFF(sc_##From, To, 1) OFF(sc_##From, To, 3)
#else
#define PAIR(From, To) ONE(To, From) MANY(To, From, 2) MANY(To, From, 3) MANY(To, From, 4) MANY(To, From, 8)
#endif
#define ROW6(From) PAIR(From, double_v) PAIR(From, float_v) PAIR(From, int_v) PAIR(From, uint_v) PAIR(From, short_v) PAIR(From, ushort_v)
#ifdef VP_PART_SCALAR
ROW6(double_v) ROW6(float_v) ROW6(int_v) ROW6(uint_v) ROW6(short_v) ROW6(ushort_v)
#else
#ifdef Vc_IMPL_AVX2
#define ROW(From) ROW6(From) PAIR(From, sse_double_v) PAIR(From, sse_float_v) PAIR(From, sse_int_v) PAIR(From, sse_uint_v) PAIR(From, sse_short_v) PAIR(From, sse_ushort_v)
#elif defined Vc_IMPL_AVX
#define ROW(From) ROW6(From) PAIR(From, sse_double_v) PAIR(From, sse_float_v)
#else
#define ROW(From) ROW6(From)
#endif
VP_ALL(ROW)
#endif
