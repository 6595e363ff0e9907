#include "vc.h"
#include <Vc/IO>
#include <Vc/iterators>
#include <Vc/Memory>
#include <vector>
#include <array>
#include <Vc/common/makeContainer.h>
// Iteration over the entries of vectors and masks, over the selected entries of a mask and over the vectors of an array
#ifdef VP_N
#define VP_IT(X) VP_ALL(X)
#else
#define VP_IT(X) X(double_v) X(float_v) X(int_v) X(uint_v) X(short_v) X(ushort_v)
#endif
template <class V> void vector_iterators()
{
    typedef ET<V> T;
    const int n = int(V::Size);
    T a[V::Size], e[V::Size];
    V v = any<V>(a, "a");
    const V cv = v;
    T r[V::Size];
    int c = 0;
    for (auto it = begin(cv); it != end(cv); ++it) r[c++ % n] = *it;
    vp::same(c, n, "begin(const v) to end(const v): number of entries");
    vp::same(r, a, V::Size, "begin(const v) to end(const v)");
    c = 0;
    for (auto it = Vc::cbegin(v); it != Vc::cend(v); it++) r[c++ % n] = *it;
    vp::same(c, n, "cbegin(v) to cend(v): number of entries");
    vp::same(r, a, V::Size, "cbegin(v) to cend(v)");
    c = 0;
    for (auto it = begin(v); it != end(v); ++it) r[c++ % n] = *it;
    vp::same(c, n, "begin(v) to end(v): number of entries");
    vp::same(r, a, V::Size, "begin(v) to end(v)");
    c = 0;
    for (T x : v) r[c++ % n] = x;
    vp::same(c, n, "for (x : v): number of entries");
    vp::same(r, a, V::Size, "for (x : v)");
    c = n;
    for (auto it = end(v); it != begin(v);) r[--c] = *--it;
    vp::same(r, a, V::Size, "end(v) back to begin(v)");
    c = n;
    for (auto it = end(cv); it != begin(cv);) {
        it--;
        r[--c] = *it;
    }
    vp::same(r, a, V::Size, "end(const v) back to begin(const v)");
    // random access
    const int k = vp_int("k", 0, n - 1), l = vp_int("l", 0, n - 1);
    const auto b = begin(v);
    vp::same(T(*(b + k)), a[k], "*(begin(v) + k)");
    vp::same(T(*(k + b)), a[k], "*(k + begin(v))");
    vp::same(T(b[k]), a[k], "begin(v)[k]");
    vp::same(T((b + k)[0]), a[0], "(begin(v) + k)[i] is entry i");
    vp::same(T(*(end(v) - (n - k))), a[k], "*(end(v) - k)");
    vp::same(T(*(begin(cv) + k)), a[k], "*(begin(const v) + k)");
    vp::same(T(begin(cv)[k]), a[k], "begin(const v)[k]");
    auto i1 = b, i2 = b;
    i1 += k;
    i2 += n;
    i2 -= n - l;
    vp::same(int(i1 - i2), k - l, "difference of iterators");
    vp::same(int(end(v) - begin(v)), n, "end(v) - begin(v)");
    vp::same(i1 == i2, k == l, "i1 == i2");
    vp::same(i1 != i2, k != l, "i1 != i2");
    vp::same(i1 < i2, k < l, "i1 < i2");
    vp::same(i1 <= i2, k <= l, "i1 <= i2");
    vp::same(i1 > i2, k > l, "i1 > i2");
    vp::same(i1 >= i2, k >= l, "i1 >= i2");
    vp::same(int(i1++ - b), k, "it++");
    vp::same(int(i1 - b), k + 1, "it++ moves the iterator");
    vp::same(int(i1-- - b), k + 1, "it--");
    vp::same(int(i1 - b), k, "it-- moves the iterator");
    vp::same(int(++i1 - b), k + 1, "++it");
    vp::same(int(--i1 - b), k, "--it");
    T w;
    vp::in(&w, 1, "w");
    const auto &ca = a;
    vp::same(*i1 == w, ca[k] == w, "*it == w");
    vp::same(*i1 != w, ca[k] != w, "*it != w");
    vp::same(*i1 < w, ca[k] < w, "*it < w");
    vp::same(w == *i1, ca[k] == w, "w == *it");
    vp::same(w >= b[k], w >= ca[k], "w >= it[k]");
    vp::same(*i1 == b[l], ca[k] == ca[l], "*it == it[l]");
    vp::same(*i1 != v[l], ca[k] != ca[l], "*it != v[l]");
    vp::same(bool(*i1), bool(ca[k]), "bool(*it)");
    expect(v, a, "iteration leaves the vector alone");
    // writing
    T x[2];
    vp::in(x, 2, "x");
    VP_LANES(V) e[i] = a[i];
    *i1 = x[0];
    e[k] = x[0];
    expect(v, e, "*it = x");
    begin(v)[l] = x[1];
    e[l] = x[1];
    expect(v, e, "begin(v)[l] = x");
    c = 0;
    for (auto it = begin(v); it != end(v); ++it) *it = a[n - 1 - c++];
    VP_LANES(V) e[i] = a[n - 1 - i];
    expect(v, e, "*it = x over all entries");
}
#define X(V) VP_H(vector_iterators, V)
VP_IT(X)
#undef X
template <class V> void mask_iterators()
{
    typedef typename V::Mask M;
    const int n = int(V::Size);
    bool m[V::Size], r[V::Size], e[V::Size];
    M k = anymask<V>(m, "m");
    const M ck = k;
    int c = 0;
    for (auto it = begin(ck); it != end(ck); ++it) r[c++ % n] = *it;
    vp::same(c, n, "begin(const m) to end(const m): number of entries");
    vp_eq(r, m, n, 1, 0, "begin(const m) to end(const m)");
    c = 0;
    for (auto it = Vc::cbegin(k); it != Vc::cend(k); ++it) r[c++ % n] = *it;
    vp_eq(r, m, n, 1, 0, "cbegin(m) to cend(m)");
    c = 0;
    for (bool x : k) r[c++ % n] = x;
    vp::same(c, n, "for (x : m): number of entries");
    vp_eq(r, m, n, 1, 0, "for (x : m)");
    const int l = vp_int("l", 0, n - 1);
    vp::same(bool(*(begin(k) + l)), m[l], "*(begin(m) + l)");
    vp::same(bool(begin(ck)[l]), m[l], "begin(const m)[l]");
    bool x;
    vp_in_bool(&x, 1, "x");
    vp::same(*(begin(k) + l) == x, m[l] == x, "*it == x");
    vp::same(*(begin(ck) + l) != x, m[l] != x, "*const_it != x");
    *(begin(k) + l) = x;
    VP_LANES(V) e[i] = m[i];
    e[l] = x;
    expect_mask(k, e, "*it = x");
}
#define X(V) VP_H(mask_iterators, V)
VP_IT(X)
#undef X
// for (i : where(m)) visits the selected entries once and in order
template <class V> void where_iterators()
{
    bool m[V::Size], seen[V::Size];
    const typename V::Mask k = anymask<V>(m, "m");
    VP_LANES(V) seen[i] = false;
    int last = -1;
    for (std::size_t i : where(k)) {
        vp_check(int(i) > last && i < V::Size, "for (i : where(m)): ascending entry numbers");
        last = int(i);
        if (i < V::Size) seen[i] = true;
    }
    vp_eq(seen, m, V::Size, 1, 0, "for (i : where(m)) visits exactly the selected entries");
}
#define X(V) VP_H(where_iterators, V)
VP_IT(X)
#undef X
#ifndef VP_N
// vectors of a plain array
template <class V> void array_iterators()
{
    typedef ET<V> T;
    enum { C = 3, N = C * V::Size };
    T *p = vp::alloc<T>(N, V::MemoryAlignment), a[N], r[N];
    vp::in(a, N, "a");
    for (int i = 0; i < N; ++i) p[i] = a[i];
    auto it = Vc::makeIterator<V>(p, Vc::Aligned);
    for (int c = 0; c < C; ++c, ++it) st(V(*it), r + c * V::Size);
    vp::same(r, a, N, "*makeIterator<V>(T *)++");
    auto w = Vc::makeIterator<V>(p, Vc::Aligned);
    T b[N];
    vp::in(b, N, "b");
    for (int c = 0; c < C; ++c) *w++ = ld<V>(b + c * V::Size);
    vp::same(p, b, N, "*makeIterator<V>(T *)++ = v");
    w -= C;
    w[1] += V::One();
    for (int i = 0; i < N; ++i) r[i] = i / int(V::Size) == 1 ? T(b[i] + T(1)) : b[i];
    vp::same(p, r, N, "makeIterator<V>(T *)[1] += 1");
}
#define X(V) VP_H(array_iterators, V)
VP_IT(X)
#undef X
// makeContainer: the values in order, padded with zeros to whole vectors
template <class V, std::size_t N, std::size_t... I> void container(Vc::index_sequence<I...>)
{
    typedef ET<V> T;
    enum { C = (N + V::Size - 1) / V::Size, P = C * V::Size };
    T a[N], e[P + 1], r[P + 1];
    vp::in(a, N, "a");
    for (std::size_t i = 0; i < P; ++i) e[i] = i < N ? a[i] : T(0);
    const auto c = Vc::makeContainer<std::vector<V, Vc::Allocator<V>>>({a[I]...});
    vp::same(c.size(), std::size_t(C), "makeContainer<std::vector<V>>: number of vectors");
    for (std::size_t i = 0; i < C; ++i) st(c[i], r + i * V::Size);
    vp::same(r, e, P, "makeContainer<std::vector<V>>: values");
    const auto d = Vc::makeContainer<std::array<V, N>>({a[I]...});
    vp::same(d.size(), std::size_t(C), "makeContainer<std::array<V, n>>: number of vectors");
    for (std::size_t i = 0; i < C; ++i) st(d[i], r + i * V::Size);
    vp::same(r, e, P, "makeContainer<std::array<V, n>>: values");
}
template <class V> void containers()
{
    container<V, 1>(Vc::make_index_sequence<1>());
    container<V, V::Size>(Vc::make_index_sequence<V::Size>());
    container<V, V::Size + 1>(Vc::make_index_sequence<V::Size + 1>());
    container<V, 2 * V::Size - 1>(Vc::make_index_sequence<2 * V::Size - 1>());
    container<V, 2 * V::Size>(Vc::make_index_sequence<2 * V::Size>());
}
#define X(V) VP_H(containers, V)
VP_IT(X)
#undef X
template <class V> void empty_container()
{
    const auto c = Vc::makeContainer<std::vector<V, Vc::Allocator<V>>>(std::initializer_list<ET<V>>());
    vp::same(c.size(), std::size_t(0), "makeContainer<std::vector<V>>({}): number of vectors");
}
#define X(V) VP_H(empty_container, V)
VP_IT(X)
#undef X
#endif
