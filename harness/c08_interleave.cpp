#include "vc.h"
// Interleaved memory: member j of struct idx[i] is lane i of vector j; nothing outside the accessed structs is touched.
// Loads of 3, 5, 6 or 7 members may be wider than the struct (see known_findings.txt); those sizes get padding behind the array
// in the value harnesses (Pad: elements behind the array) and exact extents in the H_x* harnesses.
template <class T, std::size_t SS> struct S { T d[SS]; };
template <class V, std::size_t SS, std::size_t N> constexpr std::size_t pad()
{
    return (sizeof(ET<V>) == 8 ? 0 : sizeof(ET<V>) == 4 ? (N == 3 ? 4 : N == 7 ? 8 : N) : N == 3 ? 4 : N >= 5 ? 8 : N) > SS
               ? (sizeof(ET<V>) == 8 ? 0 : sizeof(ET<V>) == 4 ? (N == 3 ? 4 : N == 7 ? 8 : N) : N == 3 ? 4 : N >= 5 ? 8 : N) - SS
               : 0;
}
template <class V, std::size_t SS, std::size_t... J> inline void check_read(const std::array<V, sizeof...(J)> &r, const S<ET<V>, SS> *mem, const int *idx,
                                                                           const char *msg, Vc::index_sequence<J...>)
{
    for (std::size_t j = 0; j < sizeof...(J); ++j) {
        ET<V> e[V::Size];
        VP_LANES(V) e[i] = mem[idx[i]].d[j];
        expect(r[j], e, msg);
    }
}
template <class V, std::size_t SS, std::size_t Pad, bool Values = true, std::size_t... J> inline void gather_(Vc::index_sequence<J...> seq)
{
    typedef S<ET<V>, SS> St;
    typedef typename V::IndexType I;
    enum { K = 3 };
    St *mem = reinterpret_cast<St *>(vp::alloc<ET<V>>(K * SS + Pad, alignof(ET<V>)));
    vp::in(&mem[0].d[0], K * SS + Pad, "mem");
    int idx[I::Size];
    vp::in(idx, I::Size, "idx");
    for (std::size_t i = 0; i < I::Size; ++i) vp_assume(idx[i] >= 0 && idx[i] < K);
    typename I::EntryType ii[I::Size];
    for (std::size_t i = 0; i < I::Size; ++i) ii[i] = typename I::EntryType(idx[i]);
    const I iv(ii, Vc::Unaligned);
    const Vc::InterleavedMemoryWrapper<St, V> w(mem);
    std::array<V, sizeof...(J)> r;
    Vc::tie(r[J]...) = w[iv];
    if (!Values) {
        for (std::size_t j = 0; j < sizeof...(J); ++j) st(r[j], vp::alloc<ET<V>>(V::Size));
        vp_check(idx[0] < K, "accesses stay within the array (implicit obligation)");
        return;
    }
    check_read<V, SS>(r, mem, idx, "tie(...) = wrapper[indexes]", seq);
    if (SS == 3 || SS == 8) {
        r = w[iv];
        check_read<V, SS>(r, mem, idx, "array = wrapper[indexes]", seq);
    }
    Vc::tie(r[J]...) = w.gather(iv);
    check_read<V, SS>(r, mem, idx, "tie(...) = wrapper.gather(indexes)", seq);
}
template <class V, std::size_t SS, std::size_t Pad, bool Values = true, std::size_t... J> inline void sgather_(Vc::index_sequence<J...> seq)
{
    typedef S<ET<V>, SS> St;
    enum { K = V::Size + 1 };
    St *mem = reinterpret_cast<St *>(vp::alloc<ET<V>>(K * SS + Pad, alignof(ET<V>)));
    vp::in(&mem[0].d[0], K * SS + Pad, "mem");
    for (int first = 0; first < 2; ++first) {
        int idx[V::Size];
        VP_LANES(V) idx[i] = first + int(i);
        const Vc::InterleavedMemoryWrapper<St, V> w(mem);
        std::array<V, sizeof...(J)> r;
        Vc::tie(r[J]...) = w[first];
        for (std::size_t j = 0; !Values && j < sizeof...(J); ++j) st(r[j], vp::alloc<ET<V>>(V::Size));
        if (!Values) vp_check(first < 2, "accesses stay within the array (implicit obligation)");
        if (Values) check_read<V, SS>(r, mem, idx, "tie(...) = wrapper[first]", seq);
    }
}
template <class V, std::size_t SS, std::size_t... J> inline void scatter_(Vc::index_sequence<J...>)
{
    typedef S<ET<V>, SS> St;
    typedef typename V::IndexType I;
    enum { K = V::Size <= 4 ? V::Size + 1 : V::Size, N = sizeof...(J) };
    St *mem = vp::alloc<St>(K, alignof(ET<V>));
    St old[K];
    vp::in(&old[0].d[0], K * SS, "old");
    for (int k = 0; k < K; ++k) mem[k] = old[k];
    typename I::EntryType ii[I::Size];
    int idx[I::Size];
    if (V::Size <= 4) {   // any distinct indexes
        vp::in(idx, I::Size, "idx");
        for (std::size_t i = 0; i < I::Size; ++i) {
            vp_assume(idx[i] >= 0 && idx[i] < K);
            for (std::size_t k = 0; k < i; ++k) vp_assume(idx[i] != idx[k]);
        }
    } else {              // any permutation i -> i ^ x
        const int x = vp_int("x", 0, V::Size - 1);
        for (std::size_t i = 0; i < I::Size; ++i) idx[i] = int(i) ^ x;
    }
    for (std::size_t i = 0; i < I::Size; ++i) ii[i] = typename I::EntryType(idx[i]);
    const I iv(ii, Vc::Unaligned);
    ET<V> a[N][V::Size];
    std::array<V, N> v;
    for (std::size_t j = 0; j < N; ++j) v[j] = any<V>(a[j], "a");
    Vc::InterleavedMemoryWrapper<St, V> w(mem);
    w[iv] = Vc::tie(v[J]...);
    for (std::size_t i = 0; i < V::Size; ++i)
        for (std::size_t j = 0; j < N; ++j) old[idx[i]].d[j] = a[j][i];
    vp::same(&mem[0].d[0], &old[0].d[0], K * SS, "wrapper[indexes] = tie(...)");
}
template <class V, std::size_t SS, std::size_t... J> inline void sscatter_(Vc::index_sequence<J...>)
{
    typedef S<ET<V>, SS> St;
    enum { K = V::Size + 1, N = sizeof...(J) };
    for (int first = 0; first < 2; ++first) {
        St *mem = vp::alloc<St>(K, alignof(ET<V>));
        St old[K];
        vp::in(&old[0].d[0], K * SS, "old");
        for (int k = 0; k < K; ++k) mem[k] = old[k];
        ET<V> a[N][V::Size];
        std::array<V, N> v;
        for (std::size_t j = 0; j < N; ++j) v[j] = any<V>(a[j], "a");
        Vc::InterleavedMemoryWrapper<St, V> w(mem);
        w[first] = Vc::tie(v[J]...);
        for (std::size_t i = 0; i < V::Size; ++i)
            for (std::size_t j = 0; j < N; ++j) old[first + i].d[j] = a[j][i];
        vp::same(&mem[0].d[0], &old[0].d[0], K * SS, "wrapper[first] = tie(...)");
    }
}
#define ONE(V, SS, N)                                                                                                \
    extern "C" void H_gather_##V##_##SS##_##N() { gather_<V, SS, pad<V, SS, N>()>(Vc::make_index_sequence<N>()); }                    \
    extern "C" void H_sgather_##V##_##SS##_##N() { sgather_<V, SS, pad<V, SS, N>()>(Vc::make_index_sequence<N>()); }                  \
    extern "C" void H_scatter_##V##_##SS##_##N() { scatter_<V, SS>(Vc::make_index_sequence<N>()); }                  \
    extern "C" void H_sscatter_##V##_##SS##_##N() { sscatter_<V, SS>(Vc::make_index_sequence<N>()); }
#define EXACT(V, SS, N)                                                                                              \
    extern "C" void H_xgather_##V##_##SS##_##N() { gather_<V, SS, 0, false>(Vc::make_index_sequence<N>()); }                \
    extern "C" void H_xsgather_##V##_##SS##_##N() { sgather_<V, SS, 0, false>(Vc::make_index_sequence<N>()); }
#ifdef VP_MORE
#define SIZES(V) ONE(V, 4, 2) ONE(V, 5, 3) ONE(V, 5, 4) ONE(V, 6, 5) ONE(V, 7, 6) ONE(V, 8, 7) ONE(V, 8, 2) ONE(V, 8, 3)
#else
#define SIZES(V) ONE(V, 2, 2) ONE(V, 3, 2) ONE(V, 3, 3) ONE(V, 4, 3) ONE(V, 4, 4) ONE(V, 5, 5) ONE(V, 6, 6) ONE(V, 7, 7) ONE(V, 8, 8)
#endif
SIZES(double_v) SIZES(float_v) SIZES(int_v) SIZES(short_v) SIZES(ushort_v)
#ifdef VP_MORE
EXACT(short_v, 6, 5) EXACT(short_v, 7, 6) EXACT(ushort_v, 6, 5) EXACT(ushort_v, 7, 6)
#else
#define EXACTS(V) EXACT(V, 3, 3) EXACT(V, 7, 7)
#define EXACTS2(V) EXACTS(V) EXACT(V, 5, 5) EXACT(V, 6, 6)
EXACTS(float_v) EXACTS(int_v) EXACTS2(short_v) EXACTS2(ushort_v)
#ifdef Vc_IMPL_AVX
EXACTS(sse_float_v)
#endif
#endif
#ifdef Vc_IMPL_AVX
SIZES(sse_double_v) SIZES(sse_float_v)
#endif
