#include "vc.h"
// Masked writes change exactly the selected lanes.
#define OP(OPNAME)                                                            \
    VP_LANES(V) e[i] = m[i] ? T(a[i] OPNAME b[i]) : a[i];                     \
    {                                                                         \
        V z = x;                                                              \
        z(k) OPNAME##= y;                                                     \
        expect(z, e, "v(m) " #OPNAME "= b");                                  \
        z = x;                                                                \
        where(k) | z OPNAME##= y;                                             \
        expect(z, e, "where(m)|v " #OPNAME "= b");                            \
    }                                                                         \
    VP_LANES(V) e[i] = m[i] ? T(a[i] OPNAME b[0]) : a[i];                     \
    {                                                                         \
        V z = x;                                                              \
        z(k) OPNAME##= b[0];                                                  \
        expect(z, e, "v(m) " #OPNAME "= scalar");                             \
        z = x;                                                                \
        where(k) | z OPNAME##= b[0];                                          \
        expect(z, e, "where(m)|v " #OPNAME "= scalar");                       \
    }
#define SETUP                                                                 \
    typedef ET<V> T;                                                          \
    T a[V::Size], b[V::Size], e[V::Size];                                     \
    bool m[V::Size];                                                          \
    const V x = any<V>(a, "a"), y = any<V>(b, "b");                           \
    const typename V::Mask k = anymask<V>(m, "m");
using Vc::where;
template <class V> void assign()
{
    SETUP
    VP_LANES(V) e[i] = m[i] ? b[i] : a[i];
    V z = x;
    z(k) = y;
    expect(z, e, "v(m) = b");
    z = x;
    where(k) | z = y;
    expect(z, e, "where(m)|v = b");
    z = x;
    where(k)(z) = y;
    expect(z, e, "where(m)(v) = b");
    z = x;
    z.assign(y, k);
    expect(z, e, "assign(b, m)");
    expect(Vc::iif(k, y, x), e, "iif(m, b, a)");
    z = x;
    Vc::conditional_assign<Vc::Operator::Assign>(z, k, y);
    expect(z, e, "conditional_assign<Assign>");
    VP_LANES(V) e[i] = m[i] ? b[0] : a[i];
    z = x;
    z(k) = b[0];
    expect(z, e, "v(m) = scalar");
    z = x;
    where(k) | z = b[0];
    expect(z, e, "where(m)|v = scalar");
    VP_LANES(V) e[i] = m[i] ? T(0) : a[i];
    z = x;
    z.setZero(k);
    expect(z, e, "setZero(m)");
    VP_LANES(V) e[i] = m[i] ? a[i] : T(0);
    z = x;
    z.setZeroInverted(k);
    expect(z, e, "setZeroInverted(m)");
    VP_LANES(V) e[i] = T(0);
    z = x;
    z.setZero();
    expect(z, e, "setZero()");
    const bool c = b[0] == T(1);
    expect(Vc::iif(c, y, x), c ? b : a, "iif(bool, b, a)");
    // a mask expression given inline
    VP_LANES(V) e[i] = a[i] < b[i] ? b[i] : a[i];
    z = x;
    where(z < y) | z = y;
    expect(z, e, "where(v < b)|v = b");
}
template <class V> void self()
{
    // the right-hand side may be the vector that is written
    SETUP
    VP_LANES(V) e[i] = m[i] ? T(a[i] + a[i]) : a[i];
    V z = x;
    z(k) += z;
    expect(z, e, "v(m) += v");
    z = x;
    where(k) | z += z;
    expect(z, e, "where(m)|v += v");
    (void)b;
    (void)y;
}
template <class V> void addsub() { SETUP OP(+) OP(-) }
template <class V> void mul() { SETUP OP(*) }
template <class V> void div()
{
    SETUP
    if (std::is_integral<T>::value)
        VP_LANES(V) vp_assume(b[i] != T(0) && !(std::is_signed<T>::value && a[i] == std::numeric_limits<T>::min() && b[i] == T(-1)));
    if (std::is_integral<T>::value)
        VP_LANES(V) vp_assume(!(std::is_signed<T>::value && a[i] == std::numeric_limits<T>::min() && b[0] == T(-1)));
    OP(/)
}
template <class V> void mod()
{
    SETUP
    VP_LANES(V) vp_assume(b[i] != T(0) && !(std::is_signed<T>::value && a[i] == std::numeric_limits<T>::min() && b[i] == T(-1)));
    VP_LANES(V) vp_assume(!(std::is_signed<T>::value && a[i] == std::numeric_limits<T>::min() && b[0] == T(-1)));
    OP(%)
}
template <class V> void bits() { SETUP OP(&) OP(|) OP(^) }
template <class V> void shift()
{
    SETUP
    VP_LANES(V) vp_assume(b[i] >= T(0) && b[i] < T(sizeof(T) * 8));
    V z = x;
#ifndef VP_N
    VP_LANES(V) e[i] = m[i] ? T(a[i] << b[i]) : a[i];
    z(k) <<= y;
    expect(z, e, "v(m) <<= b");
    z = x;
    where(k) | z <<= y;
    expect(z, e, "where(m)|v <<= b");
    VP_LANES(V) e[i] = m[i] ? T(a[i] >> b[i]) : a[i];
    z = x;
    z(k) >>= y;
    expect(z, e, "v(m) >>= b");
    z = x;
    where(k) | z >>= y;
    expect(z, e, "where(m)|v >>= b");
#endif
    const int s = int(b[0]);
    VP_LANES(V) e[i] = m[i] ? T(a[i] << s) : a[i];
    z = x;
    z(k) <<= s;
    expect(z, e, "v(m) <<= int");
    VP_LANES(V) e[i] = m[i] ? T(a[i] >> s) : a[i];
    z = x;
    where(k) | z >>= s;
    expect(z, e, "where(m)|v >>= int");
}
template <class V> void incdec()
{
    SETUP
    (void)b;
    (void)y;
    VP_LANES(V) e[i] = m[i] ? T(a[i] + T(1)) : a[i];
    V z = x;
    V r = ++z(k);
    expect(z, e, "++v(m)");
    expect(r, e, "result of ++v(m)");
    z = x;
    r = z(k)++;
    expect(z, e, "v(m)++");
    expect(r, a, "result of v(m)++");
    z = x;
    ++where(k)(z);
    expect(z, e, "++where(m)(v)");
    z = x;
    where(k)(z)++;
    expect(z, e, "where(m)(v)++");
    VP_LANES(V) e[i] = m[i] ? T(a[i] - T(1)) : a[i];
    z = x;
    r = --z(k);
    expect(z, e, "--v(m)");
    expect(r, e, "result of --v(m)");
    z = x;
    r = z(k)--;
    expect(z, e, "v(m)--");
    expect(r, a, "result of v(m)--");
    z = x;
    --where(k)(z);
    expect(z, e, "--where(m)(v)");
    z = x;
    where(k)(z)--;
    expect(z, e, "where(m)(v)--");
}
template <class V> void qnan()
{
    SETUP
    (void)b;
    (void)y;
    V z = x;
    z.setQnan(k);
    T r[V::Size];
    st(z, r);
    VP_LANES(V)
    {
        vp_check(!m[i] || r[i] != r[i], "setQnan(m): selected lane");
        const T keep = m[i] ? T(0) : r[i], old = m[i] ? T(0) : a[i];
        vp::same(keep, old, "setQnan(m): other lane");
    }
    z.setQnan();
    st(z, r);
    VP_LANES(V) vp_check(r[i] != r[i], "setQnan()");
    (void)e;
}
// where() with a bool selects a plain assignment
template <class V> void wherebool()
{
    typedef ET<V> T;
    T a, b;
    vp::in(&a, 1, "a");
    vp::in(&b, 1, "b");
    T z = a;
    const bool c = a < b;
    where(c) | z = b;
    vp::same(z, c ? b : a, "where(bool)|scalar = b");
    z = a;
    where(c) | z += b;
    vp::same(z, T(c ? a + b : a), "where(bool)|scalar += b");
    z = a;
    where(c)(z)++;
    vp::same(z, T(c ? a + T(1) : a), "where(bool)(scalar)++");
}
// every compound operator through conditional_assign
template <class V> void cassign()
{
    SETUP
    V z = x;
    VP_LANES(V) e[i] = m[i] ? T(a[i] + b[i]) : a[i];
    Vc::conditional_assign<Vc::Operator::PlusAssign>(z, k, y);
    expect(z, e, "conditional_assign<PlusAssign>");
    z = x;
    VP_LANES(V) e[i] = m[i] ? T(a[i] - b[i]) : a[i];
    Vc::conditional_assign<Vc::Operator::MinusAssign>(z, k, y);
    expect(z, e, "conditional_assign<MinusAssign>");
    z = x;
    VP_LANES(V) e[i] = m[i] ? T(a[i] + T(1)) : a[i];
    V r = Vc::conditional_assign<Vc::Operator::PreIncrement>(z, k);
    expect(z, e, "conditional_assign<PreIncrement>");
    expect(r, e, "conditional_assign<PreIncrement> result");
    z = x;
    r = Vc::conditional_assign<Vc::Operator::PostIncrement>(z, k);
    expect(z, e, "conditional_assign<PostIncrement>");
    expect(r, a, "conditional_assign<PostIncrement> result");
    z = x;
    VP_LANES(V) e[i] = m[i] ? T(a[i] - T(1)) : a[i];
    r = Vc::conditional_assign<Vc::Operator::PreDecrement>(z, k);
    expect(z, e, "conditional_assign<PreDecrement>");
    expect(r, e, "conditional_assign<PreDecrement> result");
    z = x;
    r = Vc::conditional_assign<Vc::Operator::PostDecrement>(z, k);
    expect(z, e, "conditional_assign<PostDecrement>");
    expect(r, a, "conditional_assign<PostDecrement> result");
}
#define D(V) VP_H(assign, V) VP_H(self, V) VP_H(addsub, V) VP_H(mul, V) VP_H(div, V) VP_H(incdec, V) VP_H(wherebool, V) VP_H(cassign, V)
VP_ALL(D)
#define DI(V) VP_H(mod, V) VP_H(bits, V) VP_H(shift, V)
VP_INTS(DI)
#define DF(V) VP_H(qnan, V)
VP_FLOATS(DF)
