// simdize<S>: entry i of the vectorized structure is a structure S; simdized iterators address Size consecutive elements
#include "vc.h"
#include <array>
#include <iterator>
#include <tuple>
#include <utility>
#include <vector>
template <class T> struct Pair
{
    T x, y;
    Pair() = default;
    Pair(T a, T b) : x(a), y(b) {}
    Vc_SIMDIZE_INTERFACE((x, y));
};
template <class T> struct Quad
{
    T a, b, c, d;
    Vc_SIMDIZE_INTERFACE((a, b, c, d));
};
// access to the members without Vc's help
template <std::size_t I, class P> auto get(std::integral_constant<std::size_t, I>, P &p) -> decltype((std::get<I>(p))) { return std::get<I>(p); }
template <class P> auto get(std::integral_constant<std::size_t, 0>, P &p) -> decltype((p.x)) { return p.x; }
template <class P> auto get(std::integral_constant<std::size_t, 1>, P &p) -> decltype((p.y)) { return p.y; }
template <class P> auto get(std::integral_constant<std::size_t, 0>, P &p) -> decltype((p.a)) { return p.a; }
template <class P> auto get(std::integral_constant<std::size_t, 1>, P &p) -> decltype((p.b)) { return p.b; }
template <class P> auto get(std::integral_constant<std::size_t, 2>, P &p) -> decltype((p.c)) { return p.c; }
template <class P> auto get(std::integral_constant<std::size_t, 3>, P &p) -> decltype((p.d)) { return p.d; }
template <class S> struct Members : std::tuple_size<S> {};
template <class T> struct Members<Pair<T>> : std::integral_constant<std::size_t, 2> {};
template <class T> struct Members<Quad<T>> : std::integral_constant<std::size_t, 4> {};
template <class F, std::size_t... I> inline void each(F f, Vc::index_sequence<I...>)
{
    int unused[] = {(f(std::integral_constant<std::size_t, I>()), 0)...};
    (void)unused;
}
template <class S> using Seq = Vc::make_index_sequence<Members<S>::value>;
template <class A> struct Plain { typedef typename std::remove_cv<typename std::remove_reference<A>::type>::type type; };
template <class S, std::size_t N> inline void any_structs(S (&s)[N], const char *name)
{
    for (std::size_t i = 0; i < N; ++i) each([&](auto j) { vp::in(&get(j, s[i]), 1, name); }, Seq<S>());
}
template <class V, class S, std::size_t N> inline void set(V &v, const S (&s)[N])
{
    each(
        [&](auto j) {
            typedef typename Plain<decltype(get(j, v))>::type M;
            typename M::EntryType a[N];
            for (std::size_t i = 0; i < N; ++i) a[i] = get(j, s[i]);
            get(j, v) = M(a, Vc::Unaligned);
        },
        Seq<S>());
}
template <class V, class S, std::size_t N> inline void expect_structs(const V &v, const S (&s)[N], const char *msg)
{
    each(
        [&](auto j) {
            typedef typename Plain<decltype(get(j, v))>::type M;
            typename M::EntryType a[N];
            for (std::size_t i = 0; i < N; ++i) a[i] = get(j, s[i]);
            static_assert(M::Size == N, "width of the members");
            expect<M>(get(j, v), a, msg);
        },
        Seq<S>());
}
template <class S> inline void expect_struct(const S &x, const S &y, const char *msg)
{
    each([&](auto j) { vp::same(get(j, x), get(j, y), msg); }, Seq<S>());
}
template <class S> inline S any_struct(const char *name)
{
    S s[1];
    any_structs(s, name);
    return s[0];
}
template <class S, class V> inline void entries_()
{
    const std::size_t N = V::Size;
    S a[N], t;
    any_structs(a, "a");
    const S x = any_struct<S>("x");
    V v;
    set(v, a);
    for (std::size_t i = 0; i < N; ++i) {
        expect_struct(extract(v, i), a[i], "extract(v, i)");
        const S s = decorate(v)[i];
        expect_struct(s, a[i], "decorate(v)[i]");
        const V &c = v;
        expect_struct<S>(decorate(c)[i], a[i], "decorate(v)[i] of a constant");
        V w = v;
        t = a[i];
        assign(w, i, x);
        a[i] = x;
        expect_structs(w, a, "assign(v, i, s)");
        w = v;
        decorate(w)[i] = x;
        expect_structs(w, a, "decorate(v)[i] = s");
        w = v;
        S y = x;
        swap(w, i, y);
        expect_structs(w, a, "swap(v, i, s): v");
        expect_struct(y, t, "swap(v, i, s): s");
        w = v;
        y = x;
        swap(decorate(w)[i], y);
        expect_structs(w, a, "swap(decorate(v)[i], s): v");
        expect_struct(y, t, "swap(decorate(v)[i], s): s");
        w = v;
        y = x;
        swap(y, decorate(w)[i]);
        expect_structs(w, a, "swap(s, decorate(v)[i]): v");
        expect_struct(y, t, "swap(s, decorate(v)[i]): s");
        a[i] = t;
    }
    expect_structs(v, a, "v is unchanged");
    const V b(x);
    for (std::size_t i = 0; i < N; ++i) a[i] = x;
    expect_structs(b, a, "V(s)");
    std::size_t next = 0;
    bool order = true;
    any_structs(a, "g");
    const V g([&](std::size_t i) {
        order = order && i == next++;
        return a[i];
    });
    expect_structs(g, a, "V(generator)");
    vp_check(order && next == N, "V(generator): order of the calls");
}
template <class S, class V> inline void swaps_()
{
    const std::size_t N = V::Size;
    S a[N], b[N];
    any_structs(a, "a");
    any_structs(b, "b");
    V v, w;
    set(v, a);
    set(w, b);
    for (std::size_t i = 0; i < N; ++i) {
        const std::size_t j = (3 * i + 1) % N;
        swap(v, i, w, j);
        std::swap(a[i], b[j]);
        expect_structs(v, a, "swap(v, i, w, j)");
        expect_structs(w, b, "swap(v, i, w, j)");
        swap(v, i, v, j);
        std::swap(a[i], a[j]);
        expect_structs(v, a, "swap(v, i, v, j)");
        swap(decorate(v)[j], decorate(w)[i]);
        std::swap(a[j], b[i]);
        expect_structs(v, a, "swap(decorate(v)[i], decorate(w)[j])");
        expect_structs(w, b, "swap(decorate(v)[i], decorate(w)[j])");
    }
}
template <class S, class V> inline void shifted_()
{
    const int N = V::Size;
    S a[N], e[N];
    any_structs(a, "a");
    V v;
    set(v, a);
    for (int n = -N; n <= N; ++n) {
        for (int i = 0; i < N; ++i) {
            e[i] = S();
            each([&](auto j) { get(j, e[i]) = 0; }, Seq<S>());
            if (i + n >= 0 && i + n < N) e[i] = a[i + n];
        }
        expect_structs(shifted(v, n), e, "shifted(v, n)");
    }
}
template <class S, class V> inline void where_()
{
    const std::size_t N = V::Size;
    S a[N], b[N], e[N];
    any_structs(a, "a");
    any_structs(b, "b");
    V v, w;
    set(v, a);
    set(w, b);
    typedef typename Plain<decltype(get(std::integral_constant<std::size_t, 0>(), v))>::type First;
    bool m[N];
    const typename First::Mask mask = anymask<First>(m, "m");
    V r = v;
    where(mask) | r = w;
    for (std::size_t i = 0; i < N; ++i) e[i] = m[i] ? b[i] : a[i];
    expect_structs(r, e, "where(mask) | v = w");
    where(mask)(r) = v;
    expect_structs(r, a, "where(mask)(v) = w");
    where(!mask) | r += w;
    for (std::size_t i = 0; i < N; ++i) {
        e[i] = a[i];
        if (!m[i]) each([&](auto j) { get(j, e[i]) += get(j, b[i]); }, Seq<S>());
    }
    expect_structs(r, e, "where(mask) | v += w");
    r = v;
    where(mask) | r -= w;
    for (std::size_t i = 0; i < N; ++i) {
        e[i] = a[i];
        if (m[i]) each([&](auto j) { get(j, e[i]) -= get(j, b[i]); }, Seq<S>());
    }
    expect_structs(r, e, "where(mask) | v -= w");
}
template <class S, class V> inline void memory_()
{
    const std::size_t N = V::Size;
    S *p = static_cast<S *>(vp_alloc(N * sizeof(S), alignof(S))), a[N], b[N], r[N];
    any_structs(a, "a");
    any_structs(b, "b");
    for (std::size_t i = 0; i < N; ++i) p[i] = a[i];
    V v, w;
    set(w, b);
    load_interleaved(v, (const S *)p);
    expect_structs(v, a, "load_interleaved(v, p)");
    store_interleaved(w, p);
    for (std::size_t i = 0; i < N; ++i) expect_struct(p[i], b[i], "store_interleaved(v, p)");
    decorate(w).load((const S *)p);
    expect_structs(w, b, "decorate(v).load(p)");
    decorate(v).store(p);
    for (std::size_t i = 0; i < N; ++i) expect_struct(p[i], a[i], "decorate(v).store(p)");
}
// iterators: a bidirectional one whose elements are not adjacent, and random access ones
template <class S> struct Gap
{
    typedef std::bidirectional_iterator_tag iterator_category;
    typedef S value_type;
    typedef std::ptrdiff_t difference_type;
    typedef S *pointer;
    typedef S &reference;
    S *p;
    S &operator*() const { return *p; }
    S *operator->() const { return p; }
    Gap &operator++() { p += 2; return *this; }
    Gap &operator--() { p -= 2; return *this; }
    Gap operator++(int) { Gap r = *this; p += 2; return r; }
    Gap operator--(int) { Gap r = *this; p -= 2; return r; }
    bool operator==(const Gap &r) const { return p == r.p; }
    bool operator!=(const Gap &r) const { return p != r.p; }
};
template <class T> struct Model        // vectors and structures alike
{
    template <class V, class S, std::size_t N> static void values(const V &v, const S (&s)[N], const char *msg) { expect_structs(v, s, msg); }
    template <class V, class S, std::size_t N> static void assign(V &v, const S (&s)[N]) { set(v, s); }
    static void any(T *s, std::size_t n, const char *name)
    {
        for (std::size_t i = 0; i < n; ++i) s[i] = any_struct<T>(name);
    }
    static void one(const T &a, const T &b, const char *msg) { expect_struct(a, b, msg); }
};
template <class T> struct Arith
{
    template <class V, std::size_t N> static void values(const V &v, const T (&s)[N], const char *msg) { expect<Vc::Vector<T>>(v, s, msg); }
    template <class V, std::size_t N> static void assign(V &v, const T (&s)[N]) { v = V(s, Vc::Unaligned); }
    static void any(T *s, std::size_t n, const char *name) { vp::in(s, n, name); }
    static void one(const T &a, const T &b, const char *msg) { vp::same(a, b, msg); }
};
template <> struct Model<double> : Arith<double> {};
template <> struct Model<float> : Arith<float> {};
template <> struct Model<int> : Arith<int> {};
template <> struct Model<uint> : Arith<uint> {};
template <> struct Model<short> : Arith<short> {};
template <> struct Model<ushort> : Arith<ushort> {};
// Stride: distance of the elements; three blocks, all accesses within exact extents
template <class S, class Scalar, std::size_t Stride> inline void iterate(Scalar begin, S *p)
{
    typedef Model<S> M;
    typedef Vc::simdize<Scalar> It;
    typedef typename It::value_type V;
    const std::size_t N = It::Size;
    S a[3 * N], b[N], block[N];
    M::any(a, 3 * N, "a");
    M::any(b, N, "b");
    for (std::size_t i = 0; i < 3 * N; ++i) p[i * Stride] = a[i];
    V w;
    M::assign(w, b);
    It it = begin;
    std::size_t k = 0;
    for (; k < 3; ++k, ++it) {
        for (std::size_t i = 0; i < N; ++i) block[i] = a[k * N + i];
        const It c = it;
        M::values(*it, block, "*it");
        M::values(*c, block, "*it of a constant");
    }
    --it;
    vp_check(&*static_cast<const Scalar &>(it) == p + 2 * N * Stride, "--it");
    vp_check(it-- != it && &*static_cast<const Scalar &>(it) == p + N * Stride, "it--");
    vp_check(it++ != it && it != It(begin), "it++");
    --it;
    *it = w;
    for (std::size_t i = 0; i < 3 * N; ++i) M::one(p[i * Stride], i < N || i >= 2 * N ? a[i] : b[i - N], "*it = v");
    --it;
    vp_check(it == It(begin), "iterators compare equal");
    *it.operator->().operator->() = w;
    for (std::size_t i = 0; i < 3 * N; ++i) M::one(p[i * Stride], i >= 2 * N ? a[i] : b[i % N], "it->: changes are written back");
}
// it[n] = v; the assignment is kept apart, so that what it[n] refers to has to live long enough
template <class R, class V> __attribute__((noinline)) void assign_to(R &&r, const V &v) { r = v; }
template <class S, class Scalar> inline void write_at(Scalar begin, S *p)
{
    typedef Model<S> M;
    typedef Vc::simdize<Scalar> It;
    typedef typename It::value_type V;
    const std::size_t N = It::Size;
    S a[3 * N], b[N];
    M::any(a, 3 * N, "a");
    M::any(b, N, "b");
    for (std::size_t i = 0; i < 3 * N; ++i) p[i] = a[i];
    V w;
    M::assign(w, b);
    It it = begin;
    assign_to(it[1], w);
    for (std::size_t i = 0; i < 3 * N; ++i) M::one(p[i], i < N || i >= 2 * N ? a[i] : b[i - N], "it[n] = v");
}
template <class S, class Scalar> inline void random_access(Scalar begin, const S *p)
{
    typedef Vc::simdize<Scalar> It;
    enum : std::ptrdiff_t { N = It::Size };
    It it = begin;
    it += 2;
    vp_check(&*static_cast<const Scalar &>(it) == p + 2 * N, "it += n");
    it -= 1;
    vp_check(&*static_cast<const Scalar &>(it) == p + N, "it -= n");
    vp_check(&*static_cast<const Scalar &>(it + 1) == p + 2 * N, "it + n");
    vp_check(&*static_cast<const Scalar &>(it - 1) == p, "it - n");
    S block[3][N];
    for (std::ptrdiff_t i = 0; i < 3 * N; ++i) block[i / N][i % N] = p[i];
    const It c = it;
    Model<S>::values(it[1], block[2], "it[n]");
    Model<S>::values(it[-1], block[0], "it[n]");
    Model<S>::values(c[1], block[2], "it[n] of a constant");
    vp_check(it - It(begin) == 1 && It(begin) - it == -1 && (it + 1) - It(begin) == 2, "it - it2");
    for (std::ptrdiff_t i = 0; i <= 2 * N; ++i)
        for (std::ptrdiff_t j = 0; j <= 2 * N; j += N) {
            vp_check((It(begin + i) < It(begin + j)) == (i + N <= j), "it < it2");
            vp_check((It(begin + i) > It(begin + j)) == (i >= j + N), "it > it2");
        }
}
template <class S> inline void iterators_()
{
    const std::size_t N = Vc::simdize<S>::Size;
    S *p = static_cast<S *>(vp_alloc(3 * N * sizeof(S), alignof(S)));
    typedef typename std::vector<S>::iterator It;
    iterate<S, It, 1>(It(p), p);
    random_access<S, It>(It(p), p);
    write_at<S, It>(It(p), p);
    write_at<S, S *>(p, p);
    iterate<S, S *, 1>(p, p);
    random_access<S, const S *>(p, p);
    S *q = static_cast<S *>(vp_alloc((6 * N - 1) * sizeof(S), alignof(S)));
    Gap<S> g = {q};
    iterate<S, Gap<S>, 2>(g, q);
}
template <class V> void pair() { entries_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>>>(); }
template <class V> void pair_swap() { swaps_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>>>(); }
template <class V> void pair_shifted() { shifted_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>>>(); }
template <class V> void pair_where() { where_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>>>(); }
template <class V> void pair_memory() { memory_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>>>(); }
template <class V> void pair_iterators() { iterators_<Pair<ET<V>>>(); }
template <class V> void iterators() { iterators_<ET<V>>(); }
template <class V> void quad() { entries_<Quad<ET<V>>, Vc::simdize<Quad<ET<V>>>>(); }
template <class V> void quad_memory() { memory_<Quad<ET<V>>, Vc::simdize<Quad<ET<V>>>>(); }
template <class V> void array3() { entries_<std::array<ET<V>, 3>, Vc::simdize<std::array<ET<V>, 3>>>(); }
template <class V> void array3_shifted() { shifted_<std::array<ET<V>, 3>, Vc::simdize<std::array<ET<V>, 3>>>(); }
template <class V> void tuple_memory() { memory_<std::tuple<ET<V>, ET<V>>, Vc::simdize<std::tuple<ET<V>, ET<V>>>>(); }
template <class V> void pair5() { entries_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>, 5>>(); }
template <class V> void pair5_swap() { swaps_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>, 5>>(); }
template <class V> void pair5_where() { where_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>, 5>>(); }
template <class V> void pair5_shifted() { shifted_<Pair<ET<V>>, Vc::simdize<Pair<ET<V>>, 5>>(); }
#define X(V)                                                                                                                       \
    VP_H(pair, V) VP_H(pair_swap, V) VP_H(pair_shifted, V) VP_H(pair_where, V) VP_H(pair_memory, V) VP_H(pair_iterators, V)   \
    VP_H(iterators, V) VP_H(quad, V) VP_H(quad_memory, V) VP_H(array3, V) VP_H(array3_shifted, V) VP_H(tuple_memory, V)        \
    VP_H(pair5, V) VP_H(pair5_swap, V) VP_H(pair5_where, V) VP_H(pair5_shifted, V)
X(double_v) X(float_v) X(int_v) X(uint_v) X(short_v) X(ushort_v)
#undef X
#define X(name, ...)                                                                       \
    extern "C" void H_mixed_##name() { entries_<__VA_ARGS__, Vc::simdize<__VA_ARGS__>>(); } \
    extern "C" void H_mixed_swap_##name() { swaps_<__VA_ARGS__, Vc::simdize<__VA_ARGS__>>(); } \
    extern "C" void H_mixed_shifted_##name() { shifted_<__VA_ARGS__, Vc::simdize<__VA_ARGS__>>(); } \
    extern "C" void H_mixed_where_##name() { where_<__VA_ARGS__, Vc::simdize<__VA_ARGS__>>(); }
X(fdi, std::tuple<float, double, int>)
X(sf, std::tuple<short, float>)
X(dus, std::tuple<double, ushort, uint>)
X(ps, std::pair<uint, double>)
