#include "vc.h"
// Integer bit operations, shifts and remainder.
#define BINOP(OP)                                                            \
    {                                                                        \
        VP_LANES(V) e[i] = T(a[i] OP b[i]);                                  \
        expect(x OP y, e, "a " #OP " b");                                    \
        V z = x;                                                             \
        z OP##= y;                                                          \
        expect(z, e, "a " #OP "= b");                                        \
        VP_LANES(V) e[i] = T(a[i] OP b[0]);                                  \
        expect(x OP b[0], e, "a " #OP " scalar");                            \
    }
template <class V> void bits()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    BINOP(&)
    BINOP(|)
    BINOP(^)
    VP_LANES(V) e[i] = T(~a[i]);
    expect(~x, e, "~a");
}
template <class V> void shift_scalar()
{
    typedef ET<V> T;
    T a[V::Size], e[V::Size];
    const V x = any<V>(a, "a");
    const int s = vp_int("s", 0, sizeof(T) * 8 - 1);
    VP_LANES(V) e[i] = T(a[i] << s);
    expect(x << s, e, "a << s");
    V z = x;
    z <<= s;
    expect(z, e, "a <<= s");
    VP_LANES(V) e[i] = T(a[i] >> s);
    expect(x >> s, e, "a >> s");
    z = x;
    z >>= s;
    expect(z, e, "a >>= s");
}
template <class V> void shift_vector()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) vp_assume(b[i] >= T(0) && b[i] < T(sizeof(T) * 8));
    VP_LANES(V) e[i] = T(a[i] << b[i]);
#ifndef VP_N   // only the compound form exists for SimdArray
    expect(x << y, e, "a << b");
#endif
    V z = x;
    z <<= y;
    expect(z, e, "a <<= b");
    VP_LANES(V) e[i] = T(a[i] >> b[i]);
#ifndef VP_N
    expect(x >> y, e, "a >> b");
#endif
    z = x;
    z >>= y;
    expect(z, e, "a >>= b");
}
template <class T> inline bool div_defined(T a, T b)
{
    return b != T(0) && !(std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == T(-1));
}
template <class V> void mod()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) vp_assume(div_defined(a[i], b[i]));
    VP_LANES(V) e[i] = T(a[i] % b[i]);
    expect(x % y, e, "a % b");
    V z = x;
    z %= y;
    expect(z, e, "a %= b");
    VP_LANES(V) vp_assume(div_defined(a[i], b[0]));
    VP_LANES(V) e[i] = T(a[i] % b[0]);
    expect(x % b[0], e, "a % scalar");
}
#define D(V) VP_H(bits, V) VP_H(shift_scalar, V) VP_H(shift_vector, V) VP_H(mod, V)
VP_INTS(D)
