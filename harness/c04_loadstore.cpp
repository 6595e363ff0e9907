#include "vc.h"
// Loads and stores: exact extent, exact conversion, alignment as documented, masked stores touch only selected lanes.
template <class V, class M, class F> void load_one(F flags, const char *msg)
{
    typedef ET<V> T;
    M *p = vp::alloc<M>(V::Size, F::IsUnaligned ? alignof(M) : V::MemoryAlignment);
    vp::in(p, V::Size, "mem");
    T e[V::Size];
    VP_LANES(V) e[i] = static_cast<T>(p[i]);
    expect(V(p, flags), e, msg);
    V v = V::Zero();
    v.load(p, flags);
    expect(v, e, msg);
}
template <class V, class M> void load()
{
    load_one<V, M>(Vc::Unaligned, "Unaligned load");
    load_one<V, M>(Vc::Aligned, "Aligned load");
    load_one<V, M>(Vc::Streaming, "Streaming load");
    load_one<V, M>(Vc::Streaming | Vc::Unaligned, "Streaming|Unaligned load");
    load_one<V, M>(Vc::Aligned | Vc::PrefetchDefault, "Aligned|Prefetch load");
}
template <class V> void loadDefault()
{
    typedef ET<V> T;
    T *p = vp::alloc<T>(V::Size, alignof(T));
    vp::in(p, V::Size, "mem");
    T e[V::Size];
    VP_LANES(V) e[i] = p[i];
    expect(V(p), e, "V(mem)");
    V v = V::Zero();
    v.load(p);
    expect(v, e, "load(mem)");
    const T *cp = p;
    v.load(cp);
    expect(v, e, "load(const mem)");
}
template <class V, class F> void store_one(F flags, const char *msg)
{
    typedef ET<V> T;
    T a[V::Size];
    const V x = any<V>(a, "a");
    T *p = vp::alloc<T>(V::Size, F::IsUnaligned ? alignof(T) : V::MemoryAlignment);
    vp::in(p, V::Size, "old");
    x.store(p, flags);
    vp::same(p, a, V::Size, msg);
    vp::same(a, a, V::Size, msg);
}
template <class V> void store()
{
    typedef ET<V> T;
    store_one<V>(Vc::Unaligned, "Unaligned store");
    store_one<V>(Vc::Aligned, "Aligned store");
    store_one<V>(Vc::Streaming, "Streaming store");
    store_one<V>(Vc::Streaming | Vc::Unaligned, "Streaming|Unaligned store");
    store_one<V>(Vc::Aligned | Vc::PrefetchDefault, "Aligned|Prefetch store");
    T a[V::Size];
    const V x = any<V>(a, "a");
    T *p = vp::alloc<T>(V::Size, alignof(T));
    x.store(p);
    vp::same(p, a, V::Size, "store(mem)");
}
template <class V, class F> void mstore_one(F flags, const char *msg)
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    bool m[V::Size];
    const V x = any<V>(a, "a");
    const typename V::Mask k = anymask<V>(m, "m");
    T *p = vp::alloc<T>(V::Size, F::IsUnaligned ? alignof(T) : V::MemoryAlignment);
    vp::in(p, V::Size, "old");
    VP_LANES(V) e[i] = m[i] ? a[i] : p[i];
    x.store(p, k, flags);
    vp::same(p, e, V::Size, msg);
}
template <class V> void mstore()
{
    mstore_one<V>(Vc::Unaligned, "Unaligned masked store");
    mstore_one<V>(Vc::Aligned, "Aligned masked store");
    mstore_one<V>(Vc::Streaming, "Streaming masked store");
    mstore_one<V>(Vc::Streaming | Vc::Unaligned, "Streaming|Unaligned masked store");
}
// AVX has masked stores that suppress faults: lanes that are not selected need not exist there, the object ends behind
// the last lane that may be selected.  (MASKMOVDQU, which serves the 128-bit vectors and
// streaming stores, may fault on unselected bytes, depending on the processor.)
template <class V> void mstore_extent()
{
    typedef ET<V> T;
    for (std::size_t n = 0; n < V::Size; ++n) {
        T a[V::Size], e[V::Size];
        bool m[V::Size];
        const V x = any<V>(a, "a");
        vp::in(m, V::Size, "m");
        for (std::size_t i = n; i < V::Size; ++i) m[i] = false;
        const typename V::Mask k(m);
        T *p = vp::alloc<T>(n + 1, alignof(T));   // one element more than lanes, so that there is an object
        vp::in(p, n + 1, "old");
        for (std::size_t i = 0; i < n; ++i) e[i] = m[i] ? a[i] : p[i];
        e[n] = p[n];
        x.store(p, k);
        vp::same(p, e, n + 1, "masked store of a prefix");
    }
}
#define D1(V) VP_H(loadDefault, V) VP_H(store, V) VP_H(mstore, V)
VP_ALL(D1)
#define D2(V) VP_H(mstore_extent, V)
#ifdef VP_N
#define LOAD(V, M) extern "C" void H_load_##V##_##M() { load<V, M>(); }
LOAD(arr_double, double) LOAD(arr_double, float) LOAD(arr_double, int) LOAD(arr_double, short)
LOAD(arr_float, float) LOAD(arr_float, int) LOAD(arr_float, short) LOAD(arr_float, uchar)
LOAD(arr_int, int) LOAD(arr_int, short) LOAD(arr_int, uchar) LOAD(arr_uint, uint) LOAD(arr_uint, ushort)
LOAD(arr_short, short) LOAD(arr_short, schar) LOAD(arr_ushort, ushort) LOAD(arr_ushort, uchar)
#else
#if defined(Vc_IMPL_AVX)
D2(double_v) D2(float_v)
#endif
#if defined(Vc_IMPL_AVX2)
D2(int_v) D2(uint_v)
#endif
#define LOAD(V, M) extern "C" void H_load_##V##_##M() { load<V, M>(); }
// the SSE double_v has no loads from 8-bit types
#define LD(V) LOAD(V, float) LOAD(V, int) LOAD(V, uint) LOAD(V, short) LOAD(V, ushort) LOAD(V, double)
#define LF(V) LD(V) LOAD(V, schar) LOAD(V, uchar)
LD(double_v) LF(float_v)
#ifdef Vc_IMPL_AVX
LD(sse_double_v) LF(sse_float_v)
#endif
#define LI(V) LOAD(V, int) LOAD(V, uint) LOAD(V, short) LOAD(V, ushort) LOAD(V, schar) LOAD(V, uchar)
#define LU(V) LOAD(V, uint) LOAD(V, ushort) LOAD(V, uchar)
#define LS(V) LOAD(V, short) LOAD(V, ushort) LOAD(V, schar) LOAD(V, uchar)
#define LUS(V) LOAD(V, ushort) LOAD(V, uchar)
LI(int_v) LU(uint_v) LS(short_v) LUS(ushort_v)
#ifdef Vc_IMPL_AVX2
LI(sse_int_v) LU(sse_uint_v) LS(sse_short_v) LUS(sse_ushort_v)
#endif
#endif
