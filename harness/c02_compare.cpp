#include "vc.h"
// Comparisons: mask lane i is the scalar comparison of lane i (IEEE semantics for NaN and signed zero).
#define CMP(name, OP)                                                        \
    template <class V> void name()                                           \
    {                                                                        \
        typedef ET<V> T;                                                     \
        T a[V::Size], b[V::Size];                                            \
        bool e[V::Size];                                                     \
        const V x = any<V>(a, "a"), y = any<V>(b, "b");                      \
        VP_LANES(V) e[i] = a[i] OP b[i];                                     \
        const typename V::Mask m = x OP y;                                   \
        expect_mask(m, e, "a " #OP " b");                                    \
        int bits = 0;                                                        \
        VP_LANES(V) bits |= int(e[i]) << i;                                  \
        vp_check(m.toInt() == bits, "toInt(a " #OP " b)");                   \
        VP_LANES(V) e[i] = a[i] OP b[0];                                     \
        expect_mask(x OP b[0], e, "a " #OP " scalar");                       \
        VP_LANES(V) e[i] = b[0] OP a[i];                                     \
        expect_mask(b[0] OP x, e, "scalar " #OP " a");                       \
    }
CMP(eq, ==)
CMP(ne, !=)
CMP(lt, <)
CMP(le, <=)
CMP(gt, >)
CMP(ge, >=)
// a vector in a boolean context: lane is true iff it is not zero
template <class V> void logic()
{
    typedef ET<V> T;
    T a[V::Size], b[V::Size];
    bool e[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    VP_LANES(V) e[i] = !a[i];
    expect_mask(!x, e, "!a");
#ifndef VP_N
    VP_LANES(V) e[i] = a[i] && b[i];
    expect_mask(x && y, e, "a && b");
    VP_LANES(V) e[i] = a[i] || b[i];
    expect_mask(x || y, e, "a || b");
#endif
}
#define D(V) VP_H(eq, V) VP_H(ne, V) VP_H(lt, V) VP_H(le, V) VP_H(gt, V) VP_H(ge, V) VP_H(logic, V)
VP_ALL(D)
// mixed operand types follow the usual conversions: signed against unsigned compares unsigned, integer against float as float
template <class V, class W, class C> void mixed_cmp(const char *)
{
    ET<V> a[V::Size];
    ET<W> b[W::Size];
    static_assert(int(V::Size) == int(W::Size), "");
    bool e[V::Size];
    const V x = any<V>(a, "a");
    const W y = any<W>(b, "b");
    VP_LANES(V) e[i] = C(a[i]) < C(b[i]);
    expect_mask(x < y, e, "a < b");
    VP_LANES(V) e[i] = C(a[i]) == C(b[i]);
    expect_mask(x == y, e, "a == b");
    VP_LANES(V) e[i] = C(a[i]) >= C(b[i]);
    expect_mask(x >= y, e, "a >= b");
}
#ifdef VP_N
#define int_v arr_int
#define uint_v arr_uint
#define short_v arr_short
#define ushort_v arr_ushort
#endif
extern "C" void H_mixed_int_uint() { mixed_cmp<int_v, uint_v, unsigned>(""); }
extern "C" void H_mixed_short_ushort() { mixed_cmp<short_v, ushort_v, ushort>(""); }
extern "C" void H_mixed_uint_int() { mixed_cmp<uint_v, int_v, unsigned>(""); }
