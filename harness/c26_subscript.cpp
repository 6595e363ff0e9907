#include "vc.h"
#include <vector>
// container[indexes]: gathers from and scatters to containers, members of structures and nested arrays.
enum { K = 4 };
#ifdef VP_N
#define VP_SUB(X) VP_ALL(X)
#else
#define VP_SUB(X) X(double_v) X(float_v) X(int_v) X(uint_v) X(short_v) X(ushort_v)
#endif
template <class I> inline void indexes(I *idx, std::size_t n, const bool *active, int k = K, const char *name = "idx")
{
    vp::in(idx, n, name);
    for (std::size_t i = 0; i < n; ++i) vp_assume(!active[i] || (idx[i] >= I(0) && idx[i] < I(k)));
}
template <class I> inline void indexes(I *idx, std::size_t n, int k = K, const char *name = "idx")
{
    vp::in(idx, n, name);
    for (std::size_t i = 0; i < n; ++i) vp_assume(idx[i] >= I(0) && idx[i] < I(k));
}
// after a scatter a slot holds the value of a selected lane that addresses it, or what it held before when there is none
template <class V, class M, class I>
inline void slot(const M &now, const M &old, const ET<V> *a, const I *idx, const bool *act, int s, const char *msg)
{
    bool hit = false, ok = false;
    VP_LANES(V)
    {
        const bool here = act[i] && idx[i] == I(s);
        const M x = static_cast<M>(a[i]);
        hit = hit | here;
        ok = ok | (here & (__builtin_memcmp(&x, &now, sizeof(M)) == 0));
    }
    ok = ok | (!hit & (__builtin_memcmp(&old, &now, sizeof(M)) == 0));
    vp_check(ok, msg);
}
template <class V> struct Sel {
    bool all[V::Size], m[V::Size];
    typename V::Mask k;
    Sel() : k(anymask<V>(m, "m")) { VP_LANES(V) all[i] = true; }
};
// every form of gather
#define GATHERS(expr_, ref_, msg_)                                                                                     \
    {                                                                                                                  \
        ET<V> e_[V::Size], a_[V::Size];                                                                                \
        VP_LANES(V) e_[i] = ref_;                                                                                      \
        const V x_ = expr_;                                                                                            \
        expect(x_, e_, "V x = " msg_);                                                                                 \
        V y_ = V::Zero();                                                                                              \
        y_ = expr_;                                                                                                    \
        expect(y_, e_, "x = " msg_);                                                                                   \
        (void)a_;                                                                                                      \
    }
#define MGATHERS(expr_, ref_, msg_)                                                                                    \
    {                                                                                                                  \
        ET<V> e_[V::Size], a_[V::Size];                                                                                \
        const V o_ = any<V>(a_, "a");                                                                                  \
        VP_LANES(V) e_[i] = sel.m[i] ? ref_ : a_[i];                                                                   \
        V x_ = o_;                                                                                                     \
        where(sel.k) | x_ = expr_;                                                                                     \
        expect(x_, e_, "where(m) | x = " msg_);                                                                        \
        V y_ = o_;                                                                                                     \
        y_(sel.k) = expr_;                                                                                             \
        expect(y_, e_, "x(m) = " msg_);                                                                                \
        V z_ = o_;                                                                                                     \
        where(sel.k)(z_) = expr_;                                                                                      \
        expect(z_, e_, "where(m)(x) = " msg_);                                                                         \
    }
template <class V> using AR = Vc::array<ET<V>, K>;
template <class V> inline AR<V> &array_in()
{
    AR<V> *p = vp::alloc<AR<V>>(1, alignof(AR<V>));
    vp::in(reinterpret_cast<ET<V> *>(p), K, "mem");
    return *p;
}
template <class V> struct HasMask { enum { value = 1 }; };
// ---- the elements of a container
template <class V> void container()
{
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    AR<V> &c = array_in<V>();
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    const AR<V> &cc = c;
    GATHERS(c[iv], cc[idx[i]], "array[index vector]")
    GATHERS(cc[iv], cc[idx[i]], "const array[index vector]")
}
#define X(V) VP_H(container, V)
VP_SUB(X)
#undef X
template <class V> void mcontainer()
{
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    AR<V> &c = array_in<V>();
    Sel<V> sel;
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size && sel.m[i];
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    MGATHERS(c[iv], c[idx[i]], "array[index vector]")
}
#define X(V) VP_H(mcontainer, V)
VP_SUB(X)
#undef X
template <class V> void scatters()
{
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef ET<V> T;
    AR<V> &c = array_in<V>();
    T old[K];
    for (int s = 0; s < K; ++s) old[s] = c[s];
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    T a[V::Size];
    const V v = any<V>(a, "a");
    c[iv] = v;
    for (int s = 0; s < K; ++s) slot<V, T>(c[s], old[s], a, idx, act, s, "array[index vector] = v");
}
#define X(V) VP_H(scatters, V)
VP_SUB(X)
#undef X
template <class V> void mscatters()
{
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef ET<V> T;
    AR<V> &c = array_in<V>();
    T old[K];
    for (int s = 0; s < K; ++s) old[s] = c[s];
    Sel<V> sel;
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size && sel.m[i];
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    T a[V::Size];
    const V v = any<V>(a, "a");
    where(sel.k) | c[iv] = v;
    for (int s = 0; s < K; ++s) slot<V, T>(c[s], old[s], a, idx, act, s, "where(m) | array[index vector] = v");
    for (int s = 0; s < K; ++s) c[s] = old[s];
    where(sel.k, c[iv]) = v;
    for (int s = 0; s < K; ++s) slot<V, T>(c[s], old[s], a, idx, act, s, "where(m, array[index vector]) = v");
}
#define X(V) VP_H(mscatters, V)
VP_SUB(X)
#undef X
// ---- other containers of indexes
template <class V, class I> void index_array()
{
    AR<V> &c = array_in<V>();
    I idx[V::Size];
    indexes(idx, V::Size);
    const I(&ci)[V::Size] = idx;
    GATHERS(c[ci], c[idx[i]], "array[I[]]")
    std::array<I, V::Size> sa;
    Vc::array<I, V::Size> va;
    VP_LANES(V) sa[i] = va[i] = idx[i];
    GATHERS(c[sa], c[idx[i]], "array[std::array]")
    GATHERS(c[va], c[idx[i]], "array[Vc::array]")
}
#define X(V)                                                                                                           \
    extern "C" void H_indexarray_int_##V() { index_array<V, int>(); }                                                  \
    extern "C" void H_indexarray_ushort_##V() { index_array<V, unsigned short>(); }                                    \
    extern "C" void H_indexarray_schar_##V() { index_array<V, signed char>(); }
VP_SUB(X)
#undef X
template <class V, class I> void index_vector()
{
    typedef ET<V> T;
    typedef Vc::SimdArray<I, V::Size> IV;
    AR<V> &c = array_in<V>();
    I idx[V::Size];
    indexes(idx, V::Size);
    const IV iv(idx, Vc::Unaligned);
    GATHERS(c[iv], c[idx[i]], "array[SimdArray]")
    T a[V::Size], old[K];
    bool act[V::Size];
    VP_LANES(V) act[i] = true;
    for (int s = 0; s < K; ++s) old[s] = c[s];
    const V v = any<V>(a, "a");
    c[iv] = v;
    for (int s = 0; s < K; ++s) slot<V, T>(c[s], old[s], a, idx, act, s, "array[SimdArray] = v");
}
#define X(V)                                                                                                           \
    extern "C" void H_indexvec_int_##V() { index_vector<V, int>(); }                                                   \
    extern "C" void H_indexvec_ushort_##V() { index_vector<V, unsigned short>(); }                                     \
    extern "C" void H_indexvec_short_##V() { index_vector<V, short>(); }
VP_SUB(X)
#undef X
// ---- members of structures
template <class T> struct In {
    short u;
    T x;
    T y;
};
template <class T> struct Sc {
    T a;
    char pad0;
    In<T> in;
    T arr[3];
    T b;
};
template <class T> inline Sc<T> *structs()
{
    Sc<T> *p = vp::alloc<Sc<T>>(K, alignof(Sc<T>));
    for (int s = 0; s < K; ++s) {
        vp::in(&p[s].a, 1, "a");
        vp::in(&p[s].in.x, 2, "in");
        vp::in(p[s].arr, 3, "arr");
        vp::in(&p[s].b, 1, "b");
    }
    return p;
}
template <class V> void members()
{
    typedef ET<V> T;
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef Vc::array<Sc<T>, K> C;
    C &c = *reinterpret_cast<C *>(structs<T>());
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    const C &cc = c;
    GATHERS(c[iv][&Sc<T>::a], c[idx[i]].a, "array[index vector][&S::a]")
    GATHERS(cc[iv][&Sc<T>::b], c[idx[i]].b, "const array[index vector][&S::b]")
    GATHERS(c[iv][&Sc<T>::in][&In<T>::x], c[idx[i]].in.x, "array[index vector][&S::in][&In::x]")
    GATHERS(c[iv][&Sc<T>::in][&In<T>::y], c[idx[i]].in.y, "array[index vector][&S::in][&In::y]")
    GATHERS(c[iv][&Sc<T>::arr][1], c[idx[i]].arr[1], "array[index vector][&S::arr][1]")
}
#define X(V) VP_H(members, V)
VP_SUB(X)
#undef X
template <class V> void mmembers()
{
    typedef ET<V> T;
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef Vc::array<Sc<T>, K> C;
    C &c = *reinterpret_cast<C *>(structs<T>());
    Sel<V> sel;
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size && sel.m[i];
    vp::in(idx, IV::Size, "idx");
    // the index of an unselected lane is not used for an access, but it may be scaled
    for (std::size_t i = 0; i < IV::Size; ++i)
        vp_assume(act[i] ? (idx[i] >= 0 && idx[i] < I(K)) : (idx[i] >= I(-256) && idx[i] < I(256)));
    const IV iv(idx, Vc::Unaligned);
    MGATHERS(c[iv][&Sc<T>::a], c[idx[i]].a, "array[index vector][&S::a]")
    MGATHERS(c[iv][&Sc<T>::in][&In<T>::y], c[idx[i]].in.y, "array[index vector][&S::in][&In::y]")
}
#define X(V) VP_H(mmembers, V)
VP_SUB(X)
#undef X
template <class V> void smembers()
{
    typedef ET<V> T;
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef Vc::array<Sc<T>, K> C;
    C &c = *reinterpret_cast<C *>(structs<T>());
    T olda[K], oldx[K], oldy[K], oldb[K], oldr[K][3];
    for (int s = 0; s < K; ++s) {
        olda[s] = c[s].a;
        oldx[s] = c[s].in.x;
        oldy[s] = c[s].in.y;
        oldb[s] = c[s].b;
        for (int j = 0; j < 3; ++j) oldr[s][j] = c[s].arr[j];
    }
    Sel<V> sel;
    I idx[IV::Size];
    bool act[IV::Size], macc[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) {
        act[i] = i < V::Size;
        macc[i] = i < V::Size && sel.m[i];
    }
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    T a[V::Size];
    const V v = any<V>(a, "v");
    c[iv][&Sc<T>::b] = v;
    c[iv][&Sc<T>::in][&In<T>::x] = v;
    where(sel.k) | c[iv][&Sc<T>::a] = v;
    c[iv][&Sc<T>::arr][2] = v;
    for (int s = 0; s < K; ++s) {
        slot<V, T>(c[s].b, oldb[s], a, idx, act, s, "array[index vector][&S::b] = v");
        slot<V, T>(c[s].in.x, oldx[s], a, idx, act, s, "array[index vector][&S::in][&In::x] = v");
        slot<V, T>(c[s].a, olda[s], a, idx, macc, s, "where(m) | array[index vector][&S::a] = v");
        slot<V, T>(c[s].arr[2], oldr[s][2], a, idx, act, s, "array[index vector][&S::arr][2] = v");
        vp::same(c[s].in.y, oldy[s], "a scatter to members leaves the other members alone");
        vp::same(c[s].arr, oldr[s], 2, "a scatter to members leaves the other members alone");
    }
}
#define X(V) VP_H(smembers, V)
VP_SUB(X)
#undef X
// ---- nested arrays
enum { L = 3 };
template <class V> void nested()
{
    typedef ET<V> T;
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    typedef Vc::array<Vc::array<T, L>, K> C;
    T *p = vp::alloc<T>(K * L, alignof(C));
    vp::in(p, K * L, "mem");
    C &c = *reinterpret_cast<C *>(p);
    T old[K * L];
    for (int s = 0; s < K * L; ++s) old[s] = p[s];
    I idx[IV::Size], id2[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    indexes(idx, IV::Size, act);
    indexes(id2, IV::Size, act, L, "idx2");
    const IV iv(idx, Vc::Unaligned), iv2(id2, Vc::Unaligned);
    GATHERS(c[iv][2], c[idx[i]][2], "array[index vector][2]")
    GATHERS(c[iv][iv2], c[idx[i]][id2[i]], "array[index vector][index vector]")
    GATHERS(c[1][iv2], c[1][id2[i]], "array[1][index vector]")
    T a[V::Size];
    const V v = any<V>(a, "a");
    c[iv][iv2] = v;
    I lin[V::Size];
    VP_LANES(V) lin[i] = idx[i] * L + id2[i];
    for (int s = 0; s < K * L; ++s) slot<V, T>(p[s], old[s], a, lin, act, s, "array[index vector][index vector] = v");
}
#define X(V) VP_H(nested, V)
VP_SUB(X)
#undef X
// ---- Vc::vector, Vc::span and initializer lists
template <class V> void allocated()
{
    typedef ET<V> T;
    typedef typename V::IndexType IV;
    typedef typename IV::EntryType I;
    T x[K];
    vp::in(x, K, "mem");
    Vc::vector<T> c(K);
    for (int s = 0; s < K; ++s) c[s] = x[s];
    I idx[IV::Size];
    bool act[IV::Size];
    for (std::size_t i = 0; i < IV::Size; ++i) act[i] = i < V::Size;
    indexes(idx, IV::Size, act);
    const IV iv(idx, Vc::Unaligned);
    const Vc::vector<T> &cc = c;
    GATHERS(c[iv], x[idx[i]], "Vc::vector[index vector]")
    GATHERS(cc[iv], x[idx[i]], "const Vc::vector[index vector]")
    int i2[V::Size];
    VP_LANES(V) i2[i] = int(idx[i]);
    const std::vector<int> il(i2, i2 + V::Size);
    GATHERS(c[il], x[idx[i]], "Vc::vector[std::vector<int>]")
    T a[V::Size];
    const V v = any<V>(a, "a");
    c[iv] = v;
    for (int s = 0; s < K; ++s) slot<V, T>(c[s], x[s], a, idx, act, s, "Vc::vector[index vector] = v");
}
#define X(V) VP_H(allocated, V)
VP_SUB(X)
#undef X
#if defined(VP_N) && VP_N == 4
template <class V> void initlist()
{
    AR<V> &c = array_in<V>();
    int idx[4];
    indexes(idx, 4);
    const std::initializer_list<int> il = {idx[0], idx[1], idx[2], idx[3]};
    GATHERS(c[il], c[idx[i]], "array[initializer_list]")
    short ids[4];
    for (int i = 0; i < 4; ++i) ids[i] = short(idx[i]);
    const std::initializer_list<short> is = {ids[0], ids[1], ids[2], ids[3]};
    GATHERS(c[is], c[idx[i]], "array[initializer_list<short>]")
}
#define X(V) VP_H(initlist, V)
VP_SUB(X)
#undef X
#endif
// ---- indexes of a small type are scaled without overflow
template <class T> struct Big {
    T a;
    T pad[1022];
    T b;
};
enum { First = 120 };   // 120 * 1024 exceeds the range of the small types
// only the elements First, First + 1 and First + 2 of the array exist
template <class T> inline Vc::array<Big<T>, First + 3> &bigs()
{
    Big<T> *p = vp::alloc<Big<T>>(3, alignof(Big<T>));
    for (int s = 0; s < 3; ++s) {
        vp::in(&p[s].a, 1, "a");
        vp::in(&p[s].b, 1, "b");
    }
    return *reinterpret_cast<Vc::array<Big<T>, First + 3> *>(p - First);
}
template <class I> inline void big_indexes(I *idx, std::size_t n)
{
    vp::in(idx, n, "idx");
    for (std::size_t i = 0; i < n; ++i) vp_assume(idx[i] >= I(First) && idx[i] < I(First + 3));
}
template <class V, class I> void promoted()
{
    typedef ET<V> T;
    auto &c = bigs<T>();
    I idx[V::Size];
    big_indexes(idx, V::Size);
    const I(&ci)[V::Size] = idx;
    GATHERS(c[ci][&Big<T>::b], c[idx[i]].b, "array[I[]][&S::b]")
    std::array<I, V::Size> sa;
    Vc::array<I, V::Size> va;
    VP_LANES(V) sa[i] = va[i] = idx[i];
    GATHERS(c[sa][&Big<T>::b], c[idx[i]].b, "array[std::array][&S::b]")
    GATHERS(c[va][&Big<T>::a], c[idx[i]].a, "array[Vc::array][&S::a]")
}
template <class V, class I> void promoted_stdvec()
{
    typedef ET<V> T;
    auto &c = bigs<T>();
    I idx[V::Size];
    big_indexes(idx, V::Size);
    const std::vector<I> sv(idx, idx + V::Size);
    GATHERS(c[sv][&Big<T>::b], c[idx[i]].b, "array[std::vector][&S::b]")
}
template <class V, class I> void promoted_vec()
{
    typedef ET<V> T;
    auto &c = bigs<T>();
    I idx[V::Size];
    big_indexes(idx, V::Size);
    const Vc::SimdArray<I, V::Size> iv(idx, Vc::Unaligned);
    GATHERS(c[iv][&Big<T>::b], c[idx[i]].b, "array[SimdArray][&S::b]")
}
#define X(V)                                                                                                           \
    extern "C" void H_promoted_schar_##V() { promoted<V, signed char>(); }                                             \
    extern "C" void H_promoted_uchar_##V() { promoted<V, unsigned char>(); }                                           \
    extern "C" void H_promoted_short_##V() { promoted<V, short>(); }                                                   \
    extern "C" void H_promoted_ushort_##V() { promoted<V, unsigned short>(); }                                         \
    extern "C" void H_promotedstd_uchar_##V() { promoted_stdvec<V, unsigned char>(); }                                  \
    extern "C" void H_promotedstd_short_##V() { promoted_stdvec<V, short>(); }                                         \
    extern "C" void H_promotedstd_ushort_##V() { promoted_stdvec<V, unsigned short>(); }                               \
    extern "C" void H_promotedvec_short_##V() { promoted_vec<V, short>(); }                                            \
    extern "C" void H_promotedvec_ushort_##V() { promoted_vec<V, unsigned short>(); }
VP_SUB(X)
#undef X
