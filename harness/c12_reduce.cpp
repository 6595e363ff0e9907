#include "vc.h"
// Horizontal reductions.  Minimum and maximum are characterised by an arbitrary threshold, integer sums and products are exact modulo
// 2^n, floating-point sums and products are determined for one arbitrary entry among neutral ones (every entry contributes exactly once)
// and for integral entries (every order of summation is exact).
template <class T> inline void not_nan(T) {}
inline void not_nan(float x) { vp_assume(x == x); }
inline void not_nan(double x) { vp_assume(x == x); }
template <class T> struct IsFp { enum { value = std::is_floating_point<T>::value }; };
template <class V> struct Reds
{
    typedef ET<V> T;
    static void check_min(const T *a, const bool *m, T r, const char *msg)
    {
        T probe;
        vp::in(&probe, 1, "probe");
        not_nan(probe);
        bool e = true;
        VP_LANES(V) e = e & (!m[i] | (probe < a[i]));
        bool g = probe < r;
        vp_eq(&g, &e, 1, 1, 0, msg);
    }
    static void check_max(const T *a, const bool *m, T r, const char *msg)
    {
        T probe;
        vp::in(&probe, 1, "probe");
        not_nan(probe);
        bool e = false;
        VP_LANES(V) e = e | (m[i] & (probe < a[i]));
        bool g = probe < r;
        vp_eq(&g, &e, 1, 1, 0, msg);
    }
};
template <class V> void minmax()
{
    typedef ET<V> T;
    T a[V::Size];
    const V v = any<V>(a, "a");
    bool all[V::Size];
    VP_LANES(V) { not_nan(a[i]); all[i] = true; }
    Reds<V>::check_min(a, all, v.min(), "min()");
    Reds<V>::check_max(a, all, v.max(), "max()");
}
template <class V> void mminmax()
{
    typedef ET<V> T;
    T a[V::Size];
    bool m[V::Size];
    const V v = any<V>(a, "a");
    const typename V::Mask k = anymask<V>(m, "m");
    bool some = false;
    VP_LANES(V) { not_nan(a[i]); some = some | m[i]; }
    vp_assume(some);
    Reds<V>::check_min(a, m, v.min(k), "min(mask)");
    Reds<V>::check_max(a, m, v.max(k), "max(mask)");
}
#ifdef VP_N
// SimdArray reductions distinguish masks that leave a part of the array empty: every mask up to 8 entries, else every
// interval of entries, taken one after the other
template <class V, class F> inline void each_mask(F f)
{
    bool m[V::Size];
    const int n = V::Size;
    if (n <= 8) {
        for (int b = 1; b < (1 << n); ++b) {
            VP_LANES(V) m[i] = (b >> i) & 1;
            f(m);
        }
    } else {
        for (int b = 0; b < n; ++b) for (int e = b + 1; e <= n; ++e) {
            VP_LANES(V) m[i] = int(i) >= b && int(i) < e;
            f(m);
        }
    }
}
#endif
template <class V> void isum()
{
    typedef ET<V> T;
    T a[V::Size];
    bool m[V::Size];
    const V v = any<V>(a, "a");
    const typename V::Mask k = anymask<V>(m, "m");
    T s = 0, t = 0, ps[V::Size];
    VP_LANES(V) { s = T(s + a[i]); t = T(t + (m[i] ? a[i] : T(0))); ps[i] = s; }
    vp::same(T(v.sum()), s, "sum()");
#ifdef VP_N
    each_mask<V>([&](const bool *m) {
        T t = 0;
        VP_LANES(V) if (m[i]) t = T(t + a[i]);
        vp::same(T(v.sum(typename V::Mask(m))), t, "sum(mask)");
    });
    (void)k, (void)t;
#else
    vp::same(T(v.sum(k)), t, "sum(mask)");
#endif
    expect(v.partialSum(), ps, "partialSum()");
}
template <class V> void iproduct()
{
    typedef ET<V> T;
    T a[V::Size];
    bool m[V::Size];
    const V v = any<V>(a, "a");
    const typename V::Mask k = anymask<V>(m, "m");
    T s = 1, t = 1;
    VP_LANES(V) { s = T(unsigned(s) * unsigned(a[i])); t = T(unsigned(t) * unsigned(m[i] ? a[i] : T(1))); }
    vp::same(T(v.product()), s, "product()");
#ifdef VP_N
    each_mask<V>([&](const bool *m) {
        T t = 1;
        VP_LANES(V) if (m[i]) t = T(unsigned(t) * unsigned(a[i]));
        vp::same(T(v.product(typename V::Mask(m))), t, "product(mask)");
    });
    (void)k, (void)t;
#else
    vp::same(T(v.product(k)), t, "product(mask)");
#endif
}
template <class V> void fone()
{
    typedef ET<V> T;
    T x;
    vp::in(&x, 1, "x");
    not_nan(x);
    bool m[V::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    for (std::size_t p = 0; p < V::Size; ++p) {
        T a[V::Size], e[V::Size];
        VP_LANES(V) { a[i] = i == p ? x : T(0); e[i] = i < p ? T(0) : x; }
        const V v = ld<V>(a);
        const T s = v.sum(), t = v.sum(k), et = m[p] ? x : T(0);
        vp_eq(&s, &x, 1, sizeof(T), 2, "sum() of one entry among zeros");
        vp_eq(&t, &et, 1, sizeof(T), 2, "sum(mask) of one entry among zeros");
        expect_value(v.partialSum(), e, "partialSum() of one entry among zeros");
        VP_LANES(V) a[i] = i == p ? x : T(1);
        const V w = ld<V>(a);
        const T q = w.product(), r = w.product(k), er = m[p] ? x : T(1);
        vp_eq(&q, &x, 1, sizeof(T), 2, "product() of one entry among ones");
        vp_eq(&r, &er, 1, sizeof(T), 2, "product(mask) of one entry among ones");
    }
}
template <class V> void fint()
{
    typedef ET<V> T;
    T a[V::Size], ps[V::Size];
    int s = 0;
    VP_LANES(V) {
        const int x = vp_int("n", -16000, 16000);
        a[i] = T(x);
        s += x;
        ps[i] = T(s);
    }
    bool m[V::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    int t = 0;
    VP_LANES(V) t += m[i] ? int(a[i]) : 0;
    const V v = ld<V>(a);
    const T r = v.sum(), e = T(s), rm = v.sum(k), em = T(t);
    vp_eq(&r, &e, 1, sizeof(T), 2, "sum() of integral entries");
#ifdef VP_N
    each_mask<V>([&](const bool *m) {
        int t = 0;
        VP_LANES(V) t += m[i] ? int(a[i]) : 0;
        const T rm = v.sum(typename V::Mask(m)), em = T(t);
        vp_eq(&rm, &em, 1, sizeof(T), 2, "sum(mask) of integral entries");
    });
    (void)rm, (void)em;
#else
    vp_eq(&rm, &em, 1, sizeof(T), 2, "sum(mask) of integral entries");
#endif
    expect_value(v.partialSum(), ps, "partialSum() of integral entries");
}
#define X(V) VP_H(minmax, V) VP_H(mminmax, V)
VP_ALL(X)
#undef X
#define X(V) VP_H(isum, V) VP_H(iproduct, V)
VP_INTS(X)
#undef X
#define X(V) VP_H(fone, V) VP_H(fint, V)
VP_FLOATS(X)
#undef X
#ifdef Vc_IMPL_AVX
// minIndex()/maxIndex() exist for AVX vectors: the extreme value in all lanes and the index of a lane that holds it
template <class V> void index()
{
    typedef ET<V> T;
    T a[V::Size];
    bool all[V::Size];
    const V v = any<V>(a, "a");
    VP_LANES(V) { not_nan(a[i]); all[i] = true; }
    const auto n = v.minIndex();
    const auto x = v.maxIndex();
    T lo[V::Size], hi[V::Size];
    st(V(n.first), lo);
    st(V(x.first), hi);
    for (std::size_t j = 0; j < V::Size; ++j) {
        vp_check(n.second != int(j) || a[j] == lo[0], "minIndex(): the entry at the index is the minimum");
        vp_check(x.second != int(j) || a[j] == hi[0], "maxIndex(): the entry at the index is the maximum");
    }
    vp_check(n.second >= 0 && n.second < int(V::Size), "minIndex(): index in range");
    vp_check(x.second >= 0 && x.second < int(V::Size), "maxIndex(): index in range");
    Reds<V>::check_min(a, all, lo[0], "minIndex(): value");
    Reds<V>::check_max(a, all, hi[0], "maxIndex(): value");
}
#define X(V) VP_H(index, V)
X(double_v) X(float_v)
#ifdef Vc_IMPL_AVX2
X(int_v) X(uint_v)
#endif
#undef X
#endif
