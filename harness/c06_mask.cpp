#include "vc.h"
// Masks behave as arrays of Size independent bools.
template <class V> void ops()
{
    typedef typename V::Mask M;
    bool a[V::Size], b[V::Size], e[V::Size];
    const M x = anymask<V>(a, "a"), y = anymask<V>(b, "b");
    expect_mask(x, a, "M(bool*)");
    VP_LANES(V) e[i] = a[i] && b[i];
    expect_mask(x & y, e, "a & b");
    expect_mask(x && y, e, "a && b");
    M z = x;
    z &= y;
    expect_mask(z, e, "a &= b");
    VP_LANES(V) e[i] = a[i] || b[i];
    expect_mask(x | y, e, "a | b");
    expect_mask(x || y, e, "a || b");
    z = x;
    z |= y;
    expect_mask(z, e, "a |= b");
    VP_LANES(V) e[i] = a[i] != b[i];
    expect_mask(x ^ y, e, "a ^ b");
    z = x;
    z ^= y;
    expect_mask(z, e, "a ^= b");
    VP_LANES(V) e[i] = !a[i];
    expect_mask(!x, e, "!a");
    bool same = true;
    VP_LANES(V) same = same & (a[i] == b[i]);
    vp_check((x == y) == same, "a == b");
    vp_check((x != y) == !same, "a != b");
    VP_LANES(V) e[i] = true;
#ifndef VP_N
    expect_mask(M::One(), e, "One()");
#endif
    expect_mask(M(true), e, "M(true)");
    expect_mask(M(Vc::One), e, "M(Vc::One)");
    VP_LANES(V) e[i] = false;
#ifndef VP_N
    expect_mask(M::Zero(), e, "Zero()");
#endif
    expect_mask(M(false), e, "M(false)");
    expect_mask(M(Vc::Zero), e, "M(Vc::Zero)");
}
template <class V> void reduce()
{
    typedef typename V::Mask M;
    bool a[V::Size];
    const M x = anymask<V>(a, "a");
    int n = 0, bits = 0;
    VP_LANES(V)
    {
        n += a[i];
        bits |= int(a[i]) << i;
    }
    const int N = V::Size;
    vp_check(x.count() == n, "count()");
    vp_check(x.toInt() == bits, "toInt()");
    vp_check(x.isFull() == (n == N), "isFull()");
    vp_check(x.isEmpty() == (n == 0), "isEmpty()");
    vp_check(x.isNotEmpty() == (n != 0), "isNotEmpty()");
    vp_check(x.isMix() == (n != 0 && n != N), "isMix()");
    vp_check(Vc::all_of(x) == (n == N), "all_of");
    vp_check(Vc::any_of(x) == (n != 0), "any_of");
    vp_check(Vc::none_of(x) == (n == 0), "none_of");
    vp_check(Vc::some_of(x) == (n != 0 && n != N), "some_of");
}
template <class V> void first()
{
    typedef typename V::Mask M;
    bool a[V::Size];
    const M x = anymask<V>(a, "a");
    bool some = false;
    VP_LANES(V) some |= a[i];
    vp_assume(some);
    int f = 0;
    while (!a[f]) ++f;
    vp_check(x.firstOne() == f, "firstOne()");
}
// set bits are visited in ascending order
template <class V> void iterate()
{
    typedef typename V::Mask M;
    bool a[V::Size], seen[V::Size];
    const M x = anymask<V>(a, "a");
    VP_LANES(V) seen[i] = false;
    int last = -1;
    for (size_t i : Vc::where(x)) {
        vp_check(int(i) > last && i < V::Size, "where(mask) visits lanes in ascending order");
        last = int(i);
        seen[i] = true;
    }
    vp_eq(seen, a, V::Size, 1, 0, "where(mask) visits exactly the set lanes");
}
template <class V> void access()
{
    typedef typename V::Mask M;
    bool a[V::Size], e[V::Size], nb[1];
    M x = anymask<V>(a, "a");
    vp::in(nb, 1, "v");
    for (int k = 0; k < int(V::Size); ++k) {
        M y = x;
        y[k] = nb[0];
        VP_LANES(V) e[i] = int(i) == k ? nb[0] : a[i];
        expect_mask(y, e, "m[k] = v");
        vp_check(bool(y[k]) == nb[0], "m[k] after m[k] = v");
        int bits = 0;
        VP_LANES(V) bits |= int(e[i]) << i;
        vp_check(y.toInt() == bits, "toInt() after m[k] = v");
        vp_check(y.isFull() == (bits == (1 << V::Size) - 1), "isFull() after m[k] = v");
        vp_check(y.isEmpty() == (bits == 0), "isEmpty() after m[k] = v");
    }
    const M g = M::generate([&](int i) { return a[i]; });
    expect_mask(g, a, "generate");
    vp_check(g == x, "generate == load");
}
template <class V> void memory()
{
    typedef typename V::Mask M;
    // load and store touch exactly Size bools
    bool *src = static_cast<bool *>(vp_alloc(V::Size, M::MemoryAlignment));
    vp::in(src, V::Size, "a");
    bool *dst = static_cast<bool *>(vp_alloc(V::Size, M::MemoryAlignment));
    M x;
    x.load(src);
    expect_mask(x, src, "load");
    x.store(dst);
    vp_eq(dst, src, V::Size, 1, 0, "store");
    M y(src, Vc::Aligned);
    VP_LANES(V) dst[i] = false;
    y.store(dst, Vc::Aligned);
    vp_eq(dst, src, V::Size, 1, 0, "store (Aligned)");
    M z(src, Vc::Unaligned);
    z.store(dst, Vc::Unaligned);
    vp_eq(dst, src, V::Size, 1, 0, "store (Unaligned)");
}
template <class V> void shifted()
{
    typedef typename V::Mask M;
    bool a[V::Size], e[V::Size];
    const M x = anymask<V>(a, "a");
    for (int n = -int(V::Size); n <= int(V::Size); ++n) {
        VP_LANES(V)
        {
            const int j = int(i) + n;
            e[i] = j >= 0 && j < int(V::Size) ? a[j] : false;
        }
        expect_mask(x.shifted(n), e, "shifted(n)");
    }
}
#define D(V) VP_H(ops, V) VP_H(reduce, V) VP_H(first, V) VP_H(iterate, V) VP_H(access, V) VP_H(memory, V) VP_H(shifted, V)
VP_ALL(D)
