#include "vc.h"
// Element-wise arithmetic: each lane is the scalar result on that lane's operands.
template <class V> void add()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) e[i] = T(a[i] + b[i]);
    expect(x + y, e, "a + b");
    V z = x;
    z += y;
    expect(z, e, "a += b");
    VP_LANES(V) e[i] = T(a[i] + b[0]);
    expect(x + b[0], e, "a + scalar");
    VP_LANES(V) e[i] = T(b[0] + a[i]);
    expect(b[0] + x, e, "scalar + a");
#ifndef VP_N   // SimdArray has no ++ and --
    VP_LANES(V) e[i] = T(a[i] + T(1));
    z = x;
    expect(++z, e, "++a");
    expect(z, e, "a after ++a");
    z = x;
    V old = z++;
    expect(z, e, "a after a++");
    expect(old, a, "value of a++");
#endif
}
template <class V> void sub()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) e[i] = T(a[i] - b[i]);
    expect(x - y, e, "a - b");
    V z = x;
    z -= y;
    expect(z, e, "a -= b");
    VP_LANES(V) e[i] = T(a[i] - b[0]);
    expect(x - b[0], e, "a - scalar");
    VP_LANES(V) e[i] = T(b[0] - a[i]);
    expect(b[0] - x, e, "scalar - a");
#ifndef VP_N
    VP_LANES(V) e[i] = T(a[i] - T(1));
    z = x;
    expect(--z, e, "--a");
    z = x;
    V old = z--;
    expect(z, e, "a after a--");
    expect(old, a, "value of a--");
#endif
    VP_LANES(V) e[i] = T(-a[i]);
    expect(-x, e, "-a");
    expect(+x, a, "+a");
}
template <class V> void mul()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) e[i] = T(a[i] * b[i]);
    expect(x * y, e, "a * b");
    V z = x;
    z *= y;
    expect(z, e, "a *= b");
    VP_LANES(V) e[i] = T(a[i] * b[0]);
    expect(x * b[0], e, "a * scalar");
    VP_LANES(V) e[i] = T(b[0] * a[i]);
    expect(b[0] * x, e, "scalar * a");
}

template <class T> inline bool div_defined(T a, T b)
{
    return std::is_floating_point<T>::value ||
           (b != T(0) && !(std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == T(-1)));
}
template <class V> void div()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size], e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) vp_assume(div_defined(a[i], b[i]));
    VP_LANES(V) e[i] = T(a[i] / b[i]);
    expect(x / y, e, "a / b");
    V z = x;
    z /= y;
    expect(z, e, "a /= b");
    VP_LANES(V) vp_assume(div_defined(a[i], b[0]));
    VP_LANES(V) e[i] = T(a[i] / b[0]);
    expect(x / b[0], e, "a / scalar");
    VP_LANES(V) vp_assume(div_defined(b[0], a[i]));
    VP_LANES(V) e[i] = T(b[0] / a[i]);
    expect(b[0] / x, e, "scalar / a");
}
#define D(V) VP_H(add, V) VP_H(sub, V) VP_H(mul, V) VP_H(div, V)
VP_ALL(D)
