#include "vc.h"
#include <utility>
// Access to single entries, constants, and the functions that visit the entries one by one.
template <class V> inline int any_lane(const char *name = "lane") { return vp_int(name, 0, int(V::Size) - 1); }
template <class V> void read_()
{
    typedef ET<V> T;
    T a[V::Size], r[V::Size];
    const V x = any<V>(a, "x");
    V y = x;
    const int k = any_lane<V>();
    const T u = x[std::size_t(k)];
    vp::same(u, a[k], "const v[i]");
    const T w = y[std::size_t(k)];
    vp::same(w, a[k], "v[i]");
    VP_LANES(V) r[i] = x[i];
    vp::same(r, a, V::Size, "const v[0], v[1], ...");
    VP_LANES(V) r[i] = y[i];
    vp::same(r, a, V::Size, "v[0], v[1], ...");
}
template <class V> void write_()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size], b;
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    const int k = any_lane<V>();
    V y = x;
    y[std::size_t(k)] = b;
    VP_LANES(V) e[i] = int(i) == k ? b : a[i];
    expect(y, e, "v[i] = b");
    VP_LANES(V)
    {
        y = x;
        y[i] = b;
        for (std::size_t j = 0; j < V::Size; ++j) e[j] = j == i ? b : a[j];
        expect(y, e, "v[n] = b");
    }
    // writing all entries in turn, reading in between
    V z = V::Zero();
    VP_LANES(V) z[i] = x[V::Size - 1 - i];
    VP_LANES(V) e[i] = a[V::Size - 1 - i];
    expect(z, e, "v[i] = w[j] for all i");
}
template <class V> void compare_()
{
    typedef ET<V> T;
    T a[V::Size], w;
    V x = any<V>(a, "x");
    vp::in(&w, 1, "w");
    const int k = any_lane<V>(), l = any_lane<V>("lane2");
    vp::same(x[k] == w, a[k] == w, "v[k] == w");
    vp::same(x[k] != w, a[k] != w, "v[k] != w");
    vp::same(x[k] < w, a[k] < w, "v[k] < w");
    vp::same(x[k] <= w, a[k] <= w, "v[k] <= w");
    vp::same(w > x[k], w > a[k], "w > v[k]");
    vp::same(w >= x[k], w >= a[k], "w >= v[k]");
    vp::same(x[k] == x[l], a[k] == a[l], "v[k] == v[l]");
    vp::same(x[k] != x[l], a[k] != a[l], "v[k] != v[l]");
    vp::same(bool(x[k]), bool(a[k]), "bool(v[k])");
    expect(x, a, "comparing entries leaves the vector alone");
}
template <class V, class F> inline void compound(const V &x, const ET<V> *a, int k, F f, ET<V> r, const char *msg)
{
    ET<V> e[V::Size];
    V y = x;
    f(y);
    VP_LANES(V) e[i] = int(i) == k ? r : a[i];
    expect(y, e, msg);
}
template <class V> void compound_()
{
    typedef ET<V> T;
    T a[V::Size], b;
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    const int k = any_lane<V>();
    const std::size_t n = k;
    compound(x, a, k, [&](V &v) { v[n] += b; }, T(a[k] + b), "v[i] += b");
    compound(x, a, k, [&](V &v) { v[n] -= b; }, T(a[k] - b), "v[i] -= b");
    compound(x, a, k, [&](V &v) { ++v[n]; }, T(a[k] + T(1)), "++v[i]");
    compound(x, a, k, [&](V &v) { --v[n]; }, T(a[k] - T(1)), "--v[i]");
    T r;
    compound(x, a, k, [&](V &v) { r = v[n]++; }, T(a[k] + T(1)), "v[i]++");
    vp::same(r, a[k], "value of v[i]++");
    compound(x, a, k, [&](V &v) { r = v[n]--; }, T(a[k] - T(1)), "v[i]--");
    vp::same(r, a[k], "value of v[i]--");
}
template <class V> void compound_mul()
{
    typedef ET<V> T;
    T a[V::Size], b;
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    const int k = int(V::Size) - 1;
    const std::size_t n = k;
    compound(x, a, k, [&](V &v) { v[n] *= b; }, T(a[k] * b), "v[i] *= b");
    compound(x, a, 0, [&](V &v) { v[0] *= b; }, T(a[0] * b), "v[0] *= b");
}
template <class V> void compound_bits()
{
    typedef ET<V> T;
    T a[V::Size], b;
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    const int k = any_lane<V>(), s = vp_int("shift", 0, sizeof(T) * 8 - 1);
    const std::size_t n = k;
    compound(x, a, k, [&](V &v) { v[n] &= b; }, T(a[k] & b), "v[i] &= b");
    compound(x, a, k, [&](V &v) { v[n] |= b; }, T(a[k] | b), "v[i] |= b");
    compound(x, a, k, [&](V &v) { v[n] ^= b; }, T(a[k] ^ b), "v[i] ^= b");
    compound(x, a, k, [&](V &v) { v[n] <<= s; }, T(a[k] << s), "v[i] <<= s");
    compound(x, a, k, [&](V &v) { v[n] >>= s; }, T(a[k] >> s), "v[i] >>= s");
}
template <class V> void swap_()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size], t;
    const V x = any<V>(a, "x");
    const V w = any<V>(b, "w");
    vp::in(&t, 1, "t");
    const int k = any_lane<V>(), l = any_lane<V>("other_lane");
    V y = x, z = w;
    swap(y[std::size_t(k)], z[std::size_t(l)]);
    VP_LANES(V) e[i] = int(i) == k ? b[l] : a[i];
    expect(y, e, "swap(v[i], w[j]): v");
    VP_LANES(V) e[i] = int(i) == l ? a[k] : b[i];
    expect(z, e, "swap(v[i], w[j]): w");
    y = x;
    T u = t;
    swap(y[std::size_t(k)], u);
    VP_LANES(V) e[i] = int(i) == k ? t : a[i];
    expect(y, e, "swap(v[i], t): v");
    vp::same(u, a[k], "swap(v[i], t): t");
    y = x;
    u = t;
    swap(u, y[std::size_t(k)]);
    expect(y, e, "swap(t, v[i]): v");
    vp::same(u, a[k], "swap(t, v[i]): t");
    y = x;
    swap(y[std::size_t(k)], y[std::size_t(l)]);
    VP_LANES(V) e[i] = int(i) == k ? a[l] : int(i) == l ? a[k] : a[i];
    expect(y, e, "swap(v[i], v[j])");
}
template <class V> void constants()
{
    typedef ET<V> T;
    T e[V::Size], b, a[V::Size];
    const V x = any<V>(a, "x");
    VP_LANES(V) e[i] = T(0);
    expect(V(), e, "V()");
    expect(V::Zero(), e, "V::Zero()");
    expect(V(Vc::Zero), e, "V(Vc::Zero)");
    V y = x;
    y.setZero();
    expect(y, e, "setZero()");
    VP_LANES(V) e[i] = T(1);
    expect(V::One(), e, "V::One()");
    expect(V(Vc::One), e, "V(Vc::One)");
    VP_LANES(V) e[i] = T(i);
    expect(V::IndexesFromZero(), e, "V::IndexesFromZero()");
    expect(V(Vc::IndexesFromZero), e, "V(Vc::IndexesFromZero)");
    vp::in(&b, 1, "b");
    VP_LANES(V) e[i] = b;
    expect(V(b), e, "V(scalar)");
    V z = x;
    z = b;
    expect(z, e, "v = scalar");
    vp::same(std::size_t(V::size()), std::size_t(V::Size), "V::size()");
#ifdef VP_N
    vp::same(int(V::size()), VP_N, "V::size() of a SimdArray");
#endif
}
template <class T> struct Visit
{
    T a[64];
    std::size_t at[64];
    int n = 0;
};
template <class V> void generate_()
{
    typedef ET<V> T;
    T a[V::Size];
    vp::in(a, V::Size, "a");
    // the generator sees 0, 1, ..., Size-1 and its results end up in that order
    expect(V::generate([&](std::size_t i) { return a[i]; }), a, "V::generate(g)");
    expect(V([&](std::size_t i) { return a[i]; }), a, "V(g)");
}
template <class T> inline T xor_bits(T a, T b)
{
    unsigned char x[sizeof(T)], y[sizeof(T)];
    __builtin_memcpy(x, &a, sizeof(T));
    __builtin_memcpy(y, &b, sizeof(T));
    for (unsigned i = 0; i < sizeof(T); ++i) x[i] ^= y[i];
    __builtin_memcpy(&a, x, sizeof(T));
    return a;
}
template <class V> void apply_()
{
    typedef ET<V> T;
    T a[V::Size], b, e[V::Size];
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    VP_LANES(V) e[i] = xor_bits<T>(a[i], b);
    expect(x.apply([&](T v) { return xor_bits<T>(v, b); }), e, "v.apply(f)");
}
template <class V> void apply_masked()
{
    typedef ET<V> T;
    T a[V::Size], b, e[V::Size];
    bool m[V::Size];
    const V x = any<V>(a, "x");
    vp::in(&b, 1, "b");
    const typename V::Mask k = anymask<V>(m, "m");
    // the loop over the selected entries updates the vector in place: wider vectors have at
    // most two selected entries here (all numbers of entries: apply_count, call_masked)
    int selected = 0;
    VP_LANES(V) selected += m[i];
    if (V::Size > 4) vp_assume(selected <= 2);
    VP_LANES(V) e[i] = m[i] ? xor_bits<T>(a[i], b) : a[i];
    expect(x.apply([&](T v) { return xor_bits<T>(v, b); }, k), e, "v.apply(f, mask)");
}
template <class V> void apply_count()
{
    typedef ET<V> T;
    bool m[V::Size];
    const V x = V::Zero();
    const typename V::Mask k = anymask<V>(m, "m");
    int n = 0, en = 0;
    x.apply([&](T v) { ++n; return v; }, k);
    VP_LANES(V) en += m[i];
    vp::same(n, en, "v.apply(f, mask) calls f once per selected entry");
}
#ifndef VP_N
template <class V> void call_()
{
    typedef ET<V> T;
    T a[V::Size], r[V::Size];
    const V x = any<V>(a, "x");
    std::size_t n = 0;
    x.call([&](T v) {
        if (n < V::Size) r[n] = v;
        ++n;
    });
    vp::same(n, std::size_t(V::Size), "v.call(f) calls f Size times");
    vp::same(r, a, V::Size, "v.call(f) passes the entries in order");
}
template <class V> void call_masked()
{
    typedef ET<V> T;
    T a[V::Size], r[V::Size] = {};
    bool m[V::Size];
    const V x = any<V>(a, "x");
    const typename V::Mask k = anymask<V>(m, "m");
    std::size_t n = 0, j = 0;
    x.call([&](T v) {
        if (n < V::Size) r[n] = v;
        ++n;
    }, k);
    T e[V::Size] = {};
    VP_LANES(V) if (m[i]) e[j++] = a[i];
    vp::same(n, j, "v.call(f, mask) calls f once per selected entry");
    vp::same(r, e, V::Size, "v.call(f, mask) passes the selected entries in order");
}
// fill takes functions, not functors
template <class T> struct Fill
{
    static T values[64];
    static unsigned n;
    static T f() { return values[n++]; }
    static T g(int i) { return values[i]; }
};
template <class T> T Fill<T>::values[64];
template <class T> unsigned Fill<T>::n;
template <class V> void fill_()
{
    typedef ET<V> T;
    T a[V::Size];
    V x = any<V>(a, "x");
    vp::in(Fill<T>::values, V::Size, "values");
    Fill<T>::n = 0;
    x.fill(Fill<T>::f);
    expect(x, Fill<T>::values, "v.fill(f)");
    x = ld<V>(a);
    x.fill(Fill<T>::g);
    expect(x, Fill<T>::values, "v.fill(g)");
}
#define X(V) VP_H(call_, V) VP_H(fill_, V)
VP_ALL(X)
#undef X
#define X(V) VP_H(call_masked, V)
VP_FLOATS(X) VP_H(call_masked, int_v) VP_H(call_masked, uint_v)
#undef X
#endif
#define X(V) VP_H(read_, V) VP_H(write_, V) VP_H(compare_, V) VP_H(compound_, V) VP_H(compound_mul, V) VP_H(swap_, V) VP_H(constants, V) VP_H(generate_, V) VP_H(apply_, V) VP_H(apply_masked, V) VP_H(apply_count, V)
VP_ALL(X)
#undef X
#define X(V) VP_H(compound_bits, V)
VP_INTS(X)
#undef X
