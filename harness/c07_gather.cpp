#include "vc.h"
// Gathers read exactly the addressed elements, scatters write exactly the addressed slots; masked-off lanes touch no memory.
// The memory is an object of exactly K elements; active indexes range over it, inactive ones are arbitrary ints.
enum { K = 5 };
template <class I, std::size_t N> inline void index_values(I *idx, const bool *active)
{
    vp::in(idx, N, "idx");
    for (std::size_t i = 0; i < N; ++i) vp_assume(!active[i] || (idx[i] >= I(0) && idx[i] < I(K)));
}
template <class V, class M, class I> void gather_array()
{
    typedef ET<V> T;
    M *mem = vp::alloc<M>(K, alignof(M));
    vp::in(mem, K, "mem");
    I idx[V::Size];
    bool all[V::Size];
    VP_LANES(V) all[i] = true;
    index_values<I, V::Size>(idx, all);
    T e[V::Size];
    VP_LANES(V) e[i] = static_cast<T>(mem[idx[i]]);
    expect(V(mem, idx), e, "V(mem, int[])");
    V v = V::Zero();
    v.gather(mem, idx);
    expect(v, e, "v.gather(mem, int[])");
}
template <class V, class M, class I> void mgather_array()
{
    typedef ET<V> T;
    M *mem = vp::alloc<M>(K, alignof(M));
    vp::in(mem, K, "mem");
    I idx[V::Size];
    bool m[V::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    index_values<I, V::Size>(idx, m);
    T e[V::Size], a[V::Size];
    V v = any<V>(a, "a");
    VP_LANES(V) e[i] = m[i] ? static_cast<T>(mem[idx[i]]) : a[i];
    v.gather(mem, idx, k);
    expect(v, e, "v.gather(mem, int[], m)");
    VP_LANES(V) e[i] = m[i] ? e[i] : T(0);
    expect(V(mem, idx, k), e, "V(mem, int[], m)");
}
template <class V, class M, class IV> void gather_vec()
{
    typedef ET<V> T;
    typedef typename IV::EntryType I;
    M *mem = vp::alloc<M>(K, alignof(M));
    vp::in(mem, K, "mem");
    I idx[IV::Size];
    bool all[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) all[i] = i < V::Size;
    index_values<I, IV::Size>(idx, all);
    const IV iv(idx, Vc::Unaligned);
    T e[V::Size];
    VP_LANES(V) e[i] = static_cast<T>(mem[idx[i]]);
    expect(V(mem, iv), e, "V(mem, index vector)");
    V v = V::Zero();
    v.gather(mem, iv);
    expect(v, e, "v.gather(mem, index vector)");
}
template <class V, class M, class IV> void mgather_vec()
{
    typedef ET<V> T;
    typedef typename IV::EntryType I;
    M *mem = vp::alloc<M>(K, alignof(M));
    vp::in(mem, K, "mem");
    I idx[IV::Size];
    bool m[V::Size], act[IV::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size && m[i];
    index_values<I, IV::Size>(idx, act);
    const IV iv(idx, Vc::Unaligned);
    T e[V::Size], a[V::Size];
    V v = any<V>(a, "a");
    VP_LANES(V) e[i] = m[i] ? static_cast<T>(mem[idx[i]]) : a[i];
    v.gather(mem, iv, k);
    expect(v, e, "v.gather(mem, index vector, m)");
    VP_LANES(V) e[i] = m[i] ? e[i] : T(0);
    expect(V(mem, iv, k), e, "V(mem, index vector, m)");
}
// after a scatter a slot holds the value of an active lane that addresses it, or what it held before when there is none
template <class V, class M, class I>
inline void expect_slots(const M *mem, const M *old, const ET<V> *a, const I *idx, const bool *act, const char *msg)
{
    for (int s = 0; s < K; ++s) {
        bool hit = false, ok = false;
        VP_LANES(V)
        {
            const bool here = act[i] && idx[i] == I(s);
            const M x = static_cast<M>(a[i]);
            hit = hit | here;
            ok = ok | (here & (__builtin_memcmp(&x, mem + s, sizeof(M)) == 0));
        }
        ok = ok | (!hit & (__builtin_memcmp(old + s, mem + s, sizeof(M)) == 0));
        vp_check(ok, msg);
    }
}
template <class V, class M, class IV> void scatter_vec()
{
    typedef ET<V> T;
    typedef typename IV::EntryType I;
    M *mem = vp::alloc<M>(K, alignof(M));
    M old[K];
    vp::in(old, K, "old");
    for (int s = 0; s < K; ++s) mem[s] = old[s];
    I idx[IV::Size];
    bool m[V::Size], act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    index_values<I, IV::Size>(idx, act);
    const IV iv(idx, Vc::Unaligned);
    T a[V::Size];
    const V v = any<V>(a, "a");
    v.scatter(mem, iv);
    expect_slots<V>(mem, old, a, idx, act, "v.scatter(mem, index vector)");
    (void)m;
}
template <class V, class M, class IV> void mscatter_vec()
{
    typedef ET<V> T;
    typedef typename IV::EntryType I;
    M *mem = vp::alloc<M>(K, alignof(M));
    M old[K];
    vp::in(old, K, "old");
    for (int s = 0; s < K; ++s) mem[s] = old[s];
    I idx[IV::Size];
    bool m[V::Size], act[IV::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size && m[i];
    index_values<I, IV::Size>(idx, act);
    const IV iv(idx, Vc::Unaligned);
    T a[V::Size];
    const V v = any<V>(a, "a");
    v.scatter(mem, iv, k);
    expect_slots<V>(mem, old, a, idx, act, "v.scatter(mem, index vector, m)");
}
template <class V, class M, class I> void mscatter_array()
{
    typedef ET<V> T;
    M *mem = vp::alloc<M>(K, alignof(M));
    M old[K];
    vp::in(old, K, "old");
    for (int s = 0; s < K; ++s) mem[s] = old[s];
    I idx[V::Size];
    bool m[V::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    index_values<I, V::Size>(idx, m);
    T a[V::Size];
    const V v = any<V>(a, "a");
    v.scatter(mem, static_cast<const I *>(idx), k);
    expect_slots<V>(mem, old, a, idx, m, "v.scatter(mem, int[], m)");
}
// with VP_VARIANT: only what the selectable implementations of the masked forms change
#define MG(V, M) extern "C" void H_mgather_##V##_##M() { mgather_vec<V, M, V::IndexType>(); }
#define MS(V, M) extern "C" void H_mscatter_##V##_##M() { mscatter_vec<V, M, V::IndexType>(); }
#ifdef VP_N
#define GS(V, M)                                                                       \
    extern "C" void H_gather_##V##_##M() { gather_vec<V, M, V::IndexType>(); }         \
    extern "C" void H_mgather_##V##_##M() { mgather_vec<V, M, V::IndexType>(); }       \
    extern "C" void H_scatter_##V##_##M() { scatter_vec<V, M, V::IndexType>(); }       \
    extern "C" void H_mscatter_##V##_##M() { mscatter_vec<V, M, V::IndexType>(); }
#define GA(V, M, I)                                                                    \
    extern "C" void H_garr_##V##_##M##_##I() { gather_array<V, M, I>(); }              \
    extern "C" void H_mgarr_##V##_##M##_##I() { mgather_array<V, M, I>(); }            \
    extern "C" void H_msarr_##V##_##M##_##I() { mscatter_array<V, M, I>(); }
GS(arr_double, double) GS(arr_float, float) GS(arr_int, int) GS(arr_uint, uint) GS(arr_short, short) GS(arr_ushort, ushort)
GS(arr_float, short) GS(arr_double, float)
GA(arr_float, float, int) GA(arr_short, short, ushort) GA(arr_double, double, int) GA(arr_int, short, int)
#elif defined(VP_VARIANT)
MG(double_v, double) MG(float_v, float) MG(int_v, int) MG(uint_v, uint) MG(float_v, short)
#if !defined(Vc_IMPL_AVX2) || !defined(Vc_USE_POPCNT_BSF_GATHERS)   // the switch over 16 lanes is out of the solver's reach
MG(short_v, short) MG(ushort_v, ushort) MG(short_v, schar)
#endif
#ifdef Vc_IMPL_AVX
MG(sse_double_v, double) MG(sse_float_v, float)
#endif
#ifndef Vc_USE_SET_GATHERS   // the masked scatter does not compile with it
MS(double_v, double) MS(float_v, float) MS(int_v, int)
#if !defined(Vc_IMPL_AVX2)
MS(short_v, short)
#else
MS(sse_short_v, short)
#endif
#endif
#else
#define G(V, M)                                                                        \
    extern "C" void H_gather_##V##_##M() { gather_vec<V, M, V::IndexType>(); }         \
    extern "C" void H_mgather_##V##_##M() { mgather_vec<V, M, V::IndexType>(); }
#define GS(V, M)                                                                       \
    G(V, M)                                                                            \
    extern "C" void H_scatter_##V##_##M() { scatter_vec<V, M, V::IndexType>(); }       \
    extern "C" void H_mscatter_##V##_##M() { mscatter_vec<V, M, V::IndexType>(); }
#define GA(V, M, I)                                                                    \
    extern "C" void H_garr_##V##_##M##_##I() { gather_array<V, M, I>(); }              \
    extern "C" void H_mgarr_##V##_##M##_##I() { mgather_array<V, M, I>(); }            \
    extern "C" void H_msarr_##V##_##M##_##I() { mscatter_array<V, M, I>(); }
// index vectors other than IndexType
#define GV(V, M, IV)                                                                   \
    extern "C" void H_gvec_##V##_##IV() { gather_vec<V, M, IV>(); }                    \
    extern "C" void H_mgvec_##V##_##IV() { mgather_vec<V, M, IV>(); }                  \
    extern "C" void H_svec_##V##_##IV() { scatter_vec<V, M, IV>(); }                   \
    extern "C" void H_msvec_##V##_##IV() { mscatter_vec<V, M, IV>(); }
GS(double_v, double) GS(float_v, float) GS(int_v, int) GS(uint_v, uint) GS(short_v, short) GS(ushort_v, ushort)
G(double_v, float) G(double_v, int) G(float_v, double) GS(float_v, int) G(float_v, short) G(float_v, uchar) G(int_v, short) G(int_v, uchar) G(uint_v, ushort)
G(short_v, schar) G(short_v, uchar) G(ushort_v, uchar) G(ushort_v, schar) G(short_v, int)
#ifdef Vc_IMPL_AVX
GS(sse_double_v, double) GS(sse_float_v, float) G(sse_float_v, short)
#endif
#ifdef Vc_IMPL_AVX2
GS(sse_int_v, int) GS(sse_uint_v, uint) GS(sse_short_v, short) GS(sse_ushort_v, ushort) G(sse_short_v, schar)
#endif
GA(double_v, double, int) GA(float_v, float, ushort) GA(int_v, int, schar) GA(short_v, short, int) GA(ushort_v, ushort, uchar) GA(uint_v, uint, uint)
GA(float_v, float, int)
#if !defined(Vc_IMPL_AVX) || defined(Vc_IMPL_AVX2)  // AVX has 4 ints and 8 floats
GV(float_v, float, int_v) GV(float_v, float, uint_v)
#endif
GV(float_v, float, ushort_v) GV(double_v, double, short_v) GV(short_v, short, ushort_v)
GV(double_v, double, int_v) GV(int_v, int, ushort_v)
#endif
