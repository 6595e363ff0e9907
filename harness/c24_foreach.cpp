// simd_for_each, simd_for_each_n: every element of the range, once, in order, for every length
#include "vc.h"
#include <iterator>
#include <tuple>
#include <utility>
#include <vector>
// what a call with a vector of any width and a call with a scalar value mean
template <class T> struct Seen
{
    enum { Max = 2 * Vc::Vector<T>::Size + 2 };
    T a[Max];
    std::size_t n = 0;
    template <class V> void see(const V &v)
    {
        for (std::size_t i = 0; i < V::size() && n < Max; ++i) a[n++] = v[i];
    }
};
template <class T, class It> inline void immutable(T *p, It first, std::size_t len, bool counted, const char *msg)
{
    Seen<T> s;
    if (counted)
        Vc::simd_for_each_n(first, len, [&](auto v) { s.see(v); });
    else
        Vc::simd_for_each(first, first + len, [&](auto v) { s.see(v); });
    vp::same(s.n, len, msg);
    vp::same(s.a, p, len, msg);
}
template <class T, class It> inline void mutable_(T *p, It first, std::size_t len, bool counted, const T *before, const char *msg)
{
    Seen<T> s;
    T e[Seen<T>::Max];
    for (std::size_t i = 0; i < len; ++i) e[i] = T(before[i] + before[i]);
    auto f = [&](auto &v) {
        s.see(v);
        v = v + v;
    };
    if (counted)
        Vc::simd_for_each_n(first, len, f);
    else
        Vc::simd_for_each(first, first + len, f);
    vp::same(s.n, len, msg);
    vp::same(s.a, before, len, msg);
    vp::same(p, e, len, msg);
}
// the function object itself is copied and returned
struct Count
{
    std::size_t n = 0;
    template <class V> void operator()(V v) { n += V::size(); }
};
template <class V> void for_each()
{
    typedef ET<V> T;
    for (std::size_t len = 0; len <= 2 * Vc::Vector<T>::Size + 1; ++len) {
        T *p = vp::alloc<T>(len), b[Seen<T>::Max];
        vp::in(p, len, "a");
        for (std::size_t i = 0; i < len; ++i) b[i] = p[i];
        immutable<T, const T *>(b, p, len, false, "simd_for_each(first, last, f)");
        mutable_<T, T *>(p, p, len, false, b, "simd_for_each(first, last, f): f changes its argument");
        vp::same(Vc::simd_for_each((const T *)p, (const T *)p + len, Count()).n, len, "simd_for_each returns the function object");
    }
}
template <class V> void for_each_n()
{
    typedef ET<V> T;
    for (std::size_t len = 0; len <= 2 * Vc::Vector<T>::Size + 1; ++len) {
        T *p = vp::alloc<T>(len), b[Seen<T>::Max];
        vp::in(p, len, "a");
        for (std::size_t i = 0; i < len; ++i) b[i] = p[i];
        immutable<T, const T *>(b, p, len, true, "simd_for_each_n(first, n, f)");
        mutable_<T, T *>(p, p, len, true, b, "simd_for_each_n(first, n, f): f changes its argument");
        vp::same(Vc::simd_for_each_n((const T *)p, len, Count()).n, len, "simd_for_each_n returns the function object");
    }
}
// iterators of std::vector
template <class V> void for_each_vector()
{
    typedef ET<V> T;
    typedef typename std::vector<T>::iterator It;
    const std::size_t len = Vc::Vector<T>::Size + 1 + Vc::Vector<T>::Size / 2;
    T *p = vp::alloc<T>(len), b[Seen<T>::Max];
    vp::in(p, len, "a");
    for (std::size_t i = 0; i < len; ++i) b[i] = p[i];
    immutable<T, It>(b, It(p), len, false, "simd_for_each(v.begin(), v.end(), f)");
    immutable<T, It>(b, It(p), len, true, "simd_for_each_n(v.begin(), n, f)");
    mutable_<T, It>(p, It(p), len, false, b, "simd_for_each(v.begin(), v.end(), f): f changes its argument");
    for (std::size_t i = 0; i < len; ++i) b[i] = p[i];
    mutable_<T, It>(p, It(p), len, true, b, "simd_for_each_n(v.begin(), n, f): f changes its argument");
}
// structures
template <class T> struct Pair
{
    T x, y;
    Vc_SIMDIZE_INTERFACE((x, y));
};
struct XY
{
    template <class P> static auto x(P &p) -> decltype((p.x)) { return p.x; }
    template <class P> static auto y(P &p) -> decltype((p.y)) { return p.y; }
};
struct FirstSecond
{
    template <class P> static auto x(P &p) -> decltype((p.first)) { return p.first; }
    template <class P> static auto y(P &p) -> decltype((p.second)) { return p.second; }
};
struct Get
{
    template <class P> static auto x(P &p) -> decltype((std::get<0>(p))) { return std::get<0>(p); }
    template <class P> static auto y(P &p) -> decltype((std::get<1>(p))) { return std::get<1>(p); }
};
template <class P, class A, class T, class U> inline void structs(bool counted, const char *msg)
{
    enum { Size = Vc::simdize<P>::Size };
    for (std::size_t len = 0; len <= 2 * Size + 1; len += (len % Size == 1 ? Size - 1 : 1)) {
        P *p = static_cast<P *>(vp_alloc(len * sizeof(P), alignof(P)));
        T x[2 * Size + 1], sx[2 * Size + 1];
        U y[2 * Size + 1], sy[2 * Size + 1];
        vp::in(x, len, "x");
        vp::in(y, len, "y");
        for (std::size_t i = 0; i < len; ++i) A::x(p[i]) = x[i], A::y(p[i]) = y[i];
        std::size_t n = 0;
        auto look = [&](auto v) {
            for (std::size_t i = 0; i < decltype(v)::Size && n <= 2 * Size; ++i, ++n) sx[n] = A::x(v)[i], sy[n] = A::y(v)[i];
        };
        if (counted)
            Vc::simd_for_each_n((const P *)p, len, look);
        else
            Vc::simd_for_each((const P *)p, (const P *)p + len, look);
        vp::same(n, len, msg);
        vp::same(sx, x, len, msg);
        vp::same(sy, y, len, msg);
        auto change = [&](auto &v) { A::x(v) = A::x(v) + A::x(v); };
        if (counted)
            Vc::simd_for_each_n(p, len, change);
        else
            Vc::simd_for_each(p, p + len, change);
        for (std::size_t i = 0; i < len; ++i) {
            sx[i] = A::x(p[i]);
            sy[i] = A::y(p[i]);
            x[i] = T(x[i] + x[i]);
        }
        vp::same(sx, x, len, msg);
        vp::same(sy, y, len, msg);
    }
}
template <class V> void for_each_pair() { structs<std::pair<ET<V>, ET<V>>, FirstSecond, ET<V>, ET<V>>(false, "simd_for_each over std::pair"); }
template <class V> void for_each_tuple() { structs<std::tuple<ET<V>, ET<V>>, Get, ET<V>, ET<V>>(false, "simd_for_each over std::tuple"); }
template <class V> void for_each_struct() { structs<Pair<ET<V>>, XY, ET<V>, ET<V>>(false, "simd_for_each over a structure"); }
template <class V> void for_each_n_struct() { structs<Pair<ET<V>>, XY, ET<V>, ET<V>>(true, "simd_for_each_n over a structure"); }
template <class V> void for_each_n_tuple() { structs<std::tuple<ET<V>, ET<V>>, Get, ET<V>, ET<V>>(true, "simd_for_each_n over std::tuple"); }
#define X(V)                                                                                                                       \
    VP_H(for_each, V) VP_H(for_each_n, V) VP_H(for_each_vector, V) VP_H(for_each_pair, V) VP_H(for_each_tuple, V)              \
    VP_H(for_each_struct, V) VP_H(for_each_n_struct, V) VP_H(for_each_n_tuple, V)
X(double_v) X(float_v) X(int_v) X(uint_v) X(short_v) X(ushort_v)
#undef X
