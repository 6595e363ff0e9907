#include "vc.h"
// Every permutation moves whole lanes to their documented positions and nothing else.
template <class V> ET<V> at(const ET<V> *a, const ET<V> *b, int i)   // a, shifted: lane i of the concatenation a | b (or b | a for negative i)
{
    const int n = V::Size;
    return i < 0 ? (i < -n ? ET<V>(0) : b[i + n]) : i < n ? a[i] : i < 2 * n ? b[i - n] : ET<V>(0);
}
template <class V> inline void shifted()
{
    ET<V> a[V::Size], b[V::Size], z[V::Size] = {}, e[V::Size];
    const V v = any<V>(a, "a"), w = any<V>(b, "b");
    const int n = V::Size;
#ifdef VP_N   // SimdArray branches on the distance
    for (int k = -2 * n - 1; k <= 2 * n + 1; ++k) {
#else
    const int k = vp_int("k", -2 * n - 1, 2 * n + 1);
    {
#endif
    VP_LANES(V) e[i] = at<V>(a, z, int(i) + k);
    expect(v.shifted(k), e, "shifted(n)");
    if (k >= -n && k <= n) {
        VP_LANES(V) e[i] = at<V>(a, b, int(i) + k);
        expect(v.shifted(k, w), e, "shifted(n, in)");
    }
    }
}
template <class V, int K> inline void shifted_const1(const V &v, const V &w, const ET<V> *a, const ET<V> *b)
{
    ET<V> z[V::Size] = {}, e[V::Size];
    VP_LANES(V) e[i] = at<V>(a, z, int(i) + K);
    expect(v.shifted(K), e, "shifted(constant)");
    VP_LANES(V) e[i] = at<V>(a, b, int(i) + K);
    expect(v.shifted(K, w), e, "shifted(constant, in)");
    VP_LANES(V) e[i] = a[(int(i) + K + 2 * int(V::Size)) % int(V::Size)];
    expect(v.rotated(K), e, "rotated(constant)");
}
template <class V, std::size_t... I> inline void shifted_const_(Vc::index_sequence<I...>)
{
    ET<V> a[V::Size], b[V::Size];
    const V v = any<V>(a, "a"), w = any<V>(b, "b");
    int unused[] = {(shifted_const1<V, int(I) - int(V::Size)>(v, w, a, b), 0)...};
    (void)unused;
}
template <class V> inline void shifted_const() { shifted_const_<V>(Vc::make_index_sequence<2 * V::Size + 1>()); }
template <class V> inline void rotated()
{
    ET<V> a[V::Size], e[V::Size];
    const V v = any<V>(a, "a");
    const int n = V::Size;
#ifdef VP_N
    for (int k = -2 * n - 1; k <= 2 * n + 1; ++k) {
#else
    const int k = vp_int("k", -2147483647 - 1, 2147483647);
    {
#endif
    const int r = (k % n + n) % n;
    VP_LANES(V) e[i] = a[(int(i) + r) % n];
    expect(v.rotated(k), e, "rotated(n)");
    }
}
template <class V> inline void order()
{
    ET<V> a[V::Size], b[V::Size], e[V::Size], f[V::Size];
    const V v = any<V>(a, "a"), w = any<V>(b, "b");
    VP_LANES(V) e[i] = a[V::Size - 1 - i];
    expect(v.reversed(), e, "reversed()");
    ET<V> all[2 * V::Size];
    VP_LANES(V) all[2 * i] = a[i], all[2 * i + 1] = b[i];
    VP_LANES(V) e[i] = all[i], f[i] = all[V::Size + i];
    expect(v.interleaveLow(w), e, "interleaveLow");
    expect(v.interleaveHigh(w), f, "interleaveHigh");
    const std::pair<V, V> r = Vc::interleave(v, w);
    expect(r.first, e, "interleave().first");
    expect(r.second, f, "interleave().second");
}
#define ALLF(V) VP_H(shifted, V) VP_H(shifted_const, V) VP_H(rotated, V) VP_H(order, V)
VP_ALL(ALLF)
#ifndef VP_N
// deinterleave(&a, &b, mem[, flags]): a gets the elements with even index, b those with odd index; 2 * Size elements are read
template <class V, class M, class F> inline void deint_(F f, unsigned long align)
{
    M *mem = vp::alloc<M>(2 * V::Size, align);
    vp::in(mem, 2 * V::Size, "mem");
    V a = V::Zero(), b = V::Zero();
    Vc::deinterleave(&a, &b, mem, f);
    ET<V> e[V::Size], g[V::Size];
    VP_LANES(V) e[i] = static_cast<ET<V>>(mem[2 * i]), g[i] = static_cast<ET<V>>(mem[2 * i + 1]);
    expect(a, e, "deinterleave: even");
    expect(b, g, "deinterleave: odd");
}
#define DEINT(V, M)                                                                                                  \
    extern "C" void H_deint_##V##_##M() { deint_<V, M>(Vc::Unaligned, alignof(M)); }                                 \
    extern "C" void H_deinta_##V##_##M() { deint_<V, M>(Vc::Aligned, 32); }
DEINT(float_v, float) DEINT(double_v, double) DEINT(int_v, int) DEINT(short_v, short) DEINT(ushort_v, ushort) DEINT(uint_v, uint)
DEINT(float_v, short) DEINT(float_v, ushort) DEINT(int_v, short) DEINT(uint_v, ushort)
#ifdef Vc_IMPL_AVX
DEINT(sse_float_v, float) DEINT(sse_double_v, double) DEINT(sse_float_v, short) DEINT(sse_float_v, ushort)
#endif
#ifdef Vc_IMPL_AVX
typedef sse_float_v tr_v;
#else
typedef float_v tr_v;
#endif
// transpose of a square block
template <class V, std::size_t N, std::size_t... J> inline void transpose_(Vc::index_sequence<J...>)
{
    ET<V> a[N][V::Size], e[N][V::Size];
    const V v[N] = {any<V>(a[J], "a")...};
    V r[N];
    Vc::tie(r[J]...) = Vc::transpose(v[J]...);
    for (std::size_t j = 0; j < N; ++j) {
        VP_LANES(V) e[j][i] = a[i][j];
        expect(r[j], e[j], "transpose");
    }
}
extern "C" void H_transpose() { transpose_<tr_v, tr_v::Size>(Vc::make_index_sequence<tr_v::Size>()); }
#ifndef Vc_IMPL_Scalar
// v[permutation]
template <class V> inline void permute()
{
    typedef typename V::IndexType I;
    ET<V> a[V::Size], e[V::Size];
    const V v = any<V>(a, "a");
    int p[V::Size];
    vp::in(p, V::Size, "p");
    VP_LANES(V) vp_assume(p[i] >= 0 && p[i] < int(V::Size));
    const I perm = I([&](std::size_t i) { return p[i]; });
    VP_LANES(V) e[i] = a[p[i]];
    expect(V(v[perm]), e, "v[permutation]");
}
VP_H(permute, float_v)
#if defined(Vc_IMPL_AVX)
extern "C" void H_permute_sse()
{
    ET<sse_float_v> a[4], e[4];
    const sse_float_v v = any<sse_float_v>(a, "a");
    int p[4];
    vp::in(p, 4, "p");
    for (int i = 0; i < 4; ++i) vp_assume(p[i] >= 0 && p[i] < 4), e[i] = a[p[i]];
    const Vc::SSE::int_v perm(p, Vc::Unaligned);
    expect(sse_float_v(v[perm]), e, "v[permutation]");
}
template <class V> inline void rev()
{
    ET<V> a[V::Size], e[V::Size];
    const V v = any<V>(a, "a");
    VP_LANES(V) e[i] = a[V::Size - 1 - i];
    expect(V(v[Vc::Permutation::Reversed]), e, "v[Reversed]");
}
VP_H(rev, float_v) VP_H(rev, double_v)
#ifdef Vc_IMPL_AVX2
VP_H(rev, int_v) VP_H(rev, uint_v) VP_H(rev, short_v) VP_H(rev, ushort_v)
#endif
#endif
template <class V, int K> inline void bc_()
{
    ET<V> a[V::Size], e[V::Size];
    const V v = any<V>(a, "a");
    VP_LANES(V) e[i] = a[K];
    expect(V(v.template broadcast<K>()), e, "broadcast<index>()");
}
template <class V, std::size_t... I> inline void bcs_(Vc::index_sequence<I...>)
{
    int unused[] = {(bc_<V, int(I)>(), 0)...};
    (void)unused;
}
template <class V> inline void bcast() { bcs_<V>(Vc::make_index_sequence<V::Size>()); }
VP_H(bcast, float_v)
#ifdef Vc_IMPL_AVX   // AVX double_v::broadcast<> does not compile
VP_H(bcast, sse_float_v) VP_H(bcast, sse_double_v)
#else
VP_H(bcast, double_v)
#endif
#endif
#endif
