#include "vc.h"
// mask casts, converting constructors, reinterpret_components_cast
template <class To, class From> struct MaskCast {
    template <std::size_t... J> static auto run(int, Vc::index_sequence<J...>)
        -> decltype(To(Vc::simd_cast<To>((void(J), std::declval<const From &>())...)), void())
    {
        enum { N = sizeof...(J) };
        bool a[N][From::Size], e[To::Size];
        for (int j = 0; j < N; ++j) vp::in(a[j], From::Size, "m");
        const From m[N] = {From(a[J])...};
        for (std::size_t i = 0; i < To::Size; ++i) e[i] = i < N * From::Size ? a[i / From::Size][i % From::Size] : false;
        expect_mask(To(Vc::simd_cast<To>(m[J]...)), e, "simd_cast<Mask>(m...)");
    }
    template <std::size_t... J> static void run(long, Vc::index_sequence<J...>) { vp_check(true, "no such cast"); }
};
template <class To, class From, int Off> struct MaskOff {
    template <class T = To> static auto run(int) -> decltype(T(Vc::simd_cast<T, Off>(std::declval<const From &>())), void())
    {
        bool a[From::Size], e[To::Size];
        const From m = [&] { vp::in(a, From::Size, "m"); return From(a); }();
        for (std::size_t i = 0; i < To::Size; ++i) e[i] = i + Off * To::Size < From::Size ? a[i + Off * To::Size] : false;
        expect_mask(To(Vc::simd_cast<To, Off>(m)), e, "simd_cast<Mask, offset>(m)");
    }
    static void run(long) { vp_check(true, "no such cast"); }
};
template <bool> struct If {
    template <class C, class... A> static void run(A... a) { C::run(0, a...); }
};
template <> struct If<false> {
    template <class C, class... A> static void run(A...) { vp_check(true, "n/a"); }
};
template <class T, class F> inline typename std::enable_if<std::is_floating_point<F>::value && std::is_integral<T>::value, bool>::type fits(F x)
{
    const F lo = F(std::numeric_limits<T>::min()) - F(1), hi = F(2) * F(std::numeric_limits<T>::max() / 2 + 1);
    return (lo == F(std::numeric_limits<T>::min()) ? x >= lo : x > lo) && x < hi;
}
template <class T, class F> inline typename std::enable_if<!(std::is_floating_point<F>::value && std::is_integral<T>::value), bool>::type fits(F) { return true; }
template <class To, class From> struct Ctor {
    static void run(int)
    {
        ET<From> a[From::Size];
        const From v = any<From>(a, "a");
        ET<To> e[To::Size];
        VP_LANES(To)
        {
            vp_assume(fits<ET<To>>(a[i]));
            e[i] = static_cast<ET<To>>(a[i]);
        }
        expect(To(v), e, "To(From)");
        const To t = static_cast<To>(v);
        expect(t, e, "static_cast<To>(From)");
    }
};
template <class To, class From> struct MaskCtor {
    static void run(int)
    {
        bool a[From::Size];
        const From m = [&] { vp::in(a, From::Size, "m"); return From(a); }();
        expect_mask(To(m), a, "Mask(other mask)");
    }
};
template <class To, class From> struct Reint {
    static void run(int)
    {
        ET<From> a[From::Size];
        const From v = any<From>(a, "a");
        ET<To> e[To::Size];
        std::memcpy(e, a, sizeof(a));
        const To r = Vc::reinterpret_components_cast<To>(v);
        ET<To> o[To::Size];
        st(r, o);
        vp_eq(o, e, To::Size, sizeof(ET<To>), 1 - std::is_integral<ET<To>>::value, "reinterpret_components_cast");
    }
};
template <class To, class From> constexpr bool same_abi()
{
    return std::is_same<typename To::abi, typename From::abi>::value || To::Size == From::Size;
}
#define MC(From, To, N)                                                                                              \
    extern "C" void H_mask##N##_##From##_##To()                                                                      \
    {                                                                                                                \
        If<(N == 1 || int(N - 1) * int(From::Size) < int(To::Size))>::run<MaskCast<To::Mask, From::Mask>>(Vc::make_index_sequence<N>()); \
    }
#define MO(From, To, O) extern "C" void H_moff##O##_##From##_##To() { If<(From::Size > O * To::Size)>::run<MaskOff<To::Mask, From::Mask, O>>(); }
#define PAIR(From, To)                                                                                               \
    MC(From, To, 1) MC(From, To, 2) MC(From, To, 3) MC(From, To, 4) MC(From, To, 8) MO(From, To, 1) MO(From, To, 2) MO(From, To, 3) \
    extern "C" void H_ctor_##From##_##To()                                                                           \
    {                                                                                                                \
        If<(From::Size == To::Size && std::is_constructible<To, From>::value)>::run<Ctor<To, From>>();               \
    }                                                                                                                \
    extern "C" void H_mctor_##From##_##To()                                                                          \
    {                                                                                                                \
        If<(From::Size == To::Size && std::is_constructible<To::Mask, From::Mask>::value)>::run<MaskCtor<To::Mask, From::Mask>>(); \
    }                                                                                                                \
    extern "C" void H_reint_##From##_##To()                                                                          \
    {                                                                                                                \
        If<(From::Size == To::Size && sizeof(ET<From>) == sizeof(ET<To>) && std::is_same<From::abi, To::abi>::value)>::run<Reint<To, From>>(); \
    }
#define ROW6(From) PAIR(From, double_v) PAIR(From, float_v) PAIR(From, int_v) PAIR(From, uint_v) PAIR(From, short_v) PAIR(From, ushort_v)
#ifdef Vc_IMPL_AVX2
#define ROW(From) ROW6(From) PAIR(From, sse_double_v) PAIR(From, sse_float_v) PAIR(From, sse_int_v) PAIR(From, sse_uint_v) PAIR(From, sse_short_v) PAIR(From, sse_ushort_v)
#elif defined Vc_IMPL_AVX
#define ROW(From) ROW6(From) PAIR(From, sse_double_v) PAIR(From, sse_float_v)
#else
#define ROW(From) ROW6(From)
#endif
VP_ALL(ROW)
#ifndef Vc_IMPL_Scalar
typedef Vc::Scalar::Vector<double> sc_double_v;
typedef Vc::Scalar::Vector<float> sc_float_v;
typedef Vc::Scalar::Vector<short> sc_short_v;
#define SROW(V) MC(sc_double_v, V, 1) MC(sc_float_v, V, 2) MC(sc_short_v, V, 4) MC(V, sc_double_v, 1) MC(V, sc_short_v, 1) MO(V, sc_float_v, 1)
VP_ALL(SROW)
#endif
