#include "vc.h"
// sorted(): ascending order and the same multiset of values. For every threshold t the result has exactly its first
// #{i: a[i] <= t} entries <= t; this is equivalent to both.
template <class T> inline void not_nan(T) {}
inline void not_nan(float x) { vp_assume(x == x); }
inline void not_nan(double x) { vp_assume(x == x); }
template <class T> inline void threshold(const T *a, const T *r, std::size_t n, const char *msg)
{
    T probe;
    vp::in(&probe, 1, "probe");
    not_nan(probe);
    unsigned k = 0;
    bool bit[64];
    // ones first: a unary counter, merged without branches
    for (std::size_t i = 0; i < n; ++i) bit[i] = false;
    for (std::size_t i = 0; i < n; ++i) {
        const bool le = !(probe < a[i]);
        for (std::size_t j = i; j > 0; --j) bit[j] = bit[j] | (bit[j - 1] & le);
        bit[0] = bit[0] | le;
    }
    (void)k;
    bool got[64];
    for (std::size_t i = 0; i < n; ++i) got[i] = !(probe < r[i]);
    vp_eq(got, bit, n, 1, 0, msg);
}
template <class V> inline void sorted()
{
    ET<V> a[V::Size], r[V::Size];
    const V v = any<V>(a, "a");
    VP_LANES(V) not_nan(a[i]);
    V w = v;
    st(w.sorted(), r);
    threshold(a, r, V::Size, "sorted(): ascending permutation of the entries");
}
#define X(V) VP_H(sorted, V)
VP_ALL(X)
#undef X
