// The dynamic Memory<V> gets its memory from here: an object of exactly the requested size and alignment.
#include <cstdlib>
#include <cstring>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
static int vp_live;
inline int vp_posix_memalign(void **p, unsigned long align, unsigned long n)
{
    vp_check(align >= sizeof(void *) && (align & (align - 1)) == 0, "posix_memalign: alignment is a power of two and a multiple of sizeof(void*)");
    ++vp_live;
    *p = vp_alloc(n, align);
    return 0;
}
namespace std
{
inline void vp_free(void *p) { vp_live -= p != nullptr; }
}
#define posix_memalign vp_posix_memalign
#define free vp_free
#include "vc.h"
#undef free
// Memory<V, N>, Memory<V, R, C> and Memory<V>: arrays of N entries with vectors on top
template <class T> inline bool eq(T a, T b) { return a == b; }
template <class V, std::size_t N> struct Sizes
{
    static constexpr std::size_t Vectors = (N + V::Size - 1) / V::Size, Padded = Vectors * V::Size;
};
// m gets arbitrary entries a[], its padding zeros
template <class V, std::size_t N, class M> inline void fill(M &m, ET<V> *a, const char *name)
{
    vp::in(a, N, name);
    for (std::size_t i = 0; i < N; ++i) m[i] = a[i];
    for (std::size_t i = N; i < Sizes<V, N>::Padded; ++i) a[i] = 0;
}
template <class V, std::size_t N, class M> inline void entries(const M &m, const ET<V> *e, const char *msg)
{
    ET<V> r[N];
    for (std::size_t i = 0; i < N; ++i) r[i] = m[i];
    vp::same(r, e, N, msg);
}
template <class V, std::size_t N, class M> inline void access(M &m) noexcept
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded, C = Sizes<V, N>::Vectors;
    T a[P], e[P], t[V::Size];
    const M &c = m;
    vp::same(std::size_t(m.entriesCount()), N, "entriesCount()");
    vp::same(std::size_t(m.vectorsCount()), C, "vectorsCount()");
    fill<V, N>(m, a, "a");
    const int k = vp_int("entry", 0, N - 1);
    vp::same(T(m[std::size_t(k)]), a[k], "m[i]");
    vp::same(T(c[std::size_t(k)]), a[k], "const m[i]");
    vp::same(T(m.scalar(k)), a[k], "m.scalar(i)");
    vp::same(T(c.scalar(k)), a[k], "const m.scalar(i)");
    vp::same(T(m.entries()[k]), a[k], "m.entries()[i]");
    vp::same(T(c.entries()[k]), a[k], "const m.entries()[i]");
    vp::same(T(static_cast<T *>(m)[k]), a[k], "m converted to a pointer");
    vp::same(T(static_cast<const T *>(c)[k]), a[k], "const m converted to a pointer");
    for (std::size_t i = 0; i < C; ++i) {
        expect(V(m.vector(i)), a + i * V::Size, "m.vector(i), padded with zeros");
        expect(V(c.vector(i)), a + i * V::Size, "const m.vector(i)");
        expect(V(m.vector(i, Vc::Streaming)), a + i * V::Size, "m.vector(i, Streaming)");
        VP_LANES(V) t[i] = 0;
    }
    expect(V(m.firstVector()), a, "m.firstVector()");
    expect(V(c.firstVector()), a, "const m.firstVector()");
    expect(V(m.lastVector()), a + P - V::Size, "m.lastVector()");
    expect(V(c.lastVector()), a + P - V::Size, "const m.lastVector()");
    const int u = vp_int("start", 0, P - V::Size);
    expect(V(m.vectorAt(u)), a + u, "m.vectorAt(i)");
    expect(V(c.vectorAt(u)), a + u, "const m.vectorAt(i)");
    if (C > 1) {
        const int s = vp_int("shift", 0, V::Size);
        expect(V(m.vector(0, s)), a + s, "m.vector(i, shift)");
        expect(V(c.vector(C - 1, s - int(V::Size))), a + P - 2 * V::Size + s, "const m.vector(i, -shift)");
    }
    // scalar writes
    T b;
    vp::in(&b, 1, "b");
    m[std::size_t(k)] = b;
    a[k] = b;
    entries<V, N>(m, a, "m[i] = b");
    m.scalar(N - 1) = b;
    a[N - 1] = b;
    entries<V, N>(m, a, "m.scalar(i) = b");
    // vector writes
    for (std::size_t i = 0; i < C; ++i) {
        T x[V::Size];
        const V v = any<V>(x, "x");
        m.vector(i) = v;
        for (std::size_t j = 0; j < V::Size; ++j) a[i * V::Size + j] = x[j];
        entries<V, P>(m, a, "m.vector(i) = v");
    }
    T x[V::Size];
    const V v = any<V>(x, "y");
    m.vectorAt(u) = v;
    VP_LANES(V) a[u + i] = x[i];
    entries<V, P>(m, a, "m.vectorAt(i) = v");
    m.lastVector() = b;
    VP_LANES(V) a[P - V::Size + i] = b;
    entries<V, P>(m, a, "m.lastVector() = scalar");
    m.firstVector() += v;
    VP_LANES(V) a[i] = T(a[i] + x[i]);
    entries<V, P>(m, a, "m.firstVector() += v");
    m.vector(C - 1)[V::Size - 1] = x[0];
    a[P - 1] = x[0];
    entries<V, P>(m, a, "m.vector(i)[j] = x");
    m.setZero();
    VP_LANES(V) t[i] = 0;
    for (std::size_t i = 0; i < P; ++i) e[i] = 0;
    entries<V, P>(m, e, "m.setZero()");
}
template <class V, std::size_t N> void access_fixed()
{
    Vc::Memory<V, N> m;
    access<V, N>(m);
}
template <class V, std::size_t N> void access_nopad()
{
    // without initialization of the padding: only memory of its own is touched
    Vc::Memory<V, N, 0u, false> m;
    ET<V> a[N];
    vp::in(a, N, "a");
    m = a;
    entries<V, N>(m, a, "m = pointer");
}
template <class V, std::size_t N> void access_dynamic()
{
    {
        Vc::Memory<V> m(N);
        access<V, N>(m);
    }
    vp::same(vp_live, 0, "Memory<V> frees what it allocates");
}
// iterators
template <class V, std::size_t N, class M> inline void iterate(M &m) noexcept
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded, C = Sizes<V, N>::Vectors;
    T a[P];
    fill<V, N>(m, a, "a");
    std::size_t n = 0;
    for (auto &x : m) expect(V(x), a + V::Size * (n++ % C), "for (auto &v : m)");
    vp::same(n, C, "for (auto &v : m): number of vectors");
    n = 0;
    for (auto it = m.begin(Vc::Unaligned); it != m.end(Vc::Unaligned); it++) expect(V(*it), a + V::Size * (n++ % C), "begin(Unaligned) to end(Unaligned)");
    vp::same(n, C, "begin(Unaligned) to end(Unaligned): number of vectors");
    auto it = m.begin(), e = m.end();
    vp::same(std::size_t(e - it), C, "end() - begin()");
    vp_check(it < e && it <= e && !(it > e) && !(it >= e) && it == m.begin() && e > it && e >= it && !(it == e), "comparison of iterators");
    vp_check(it <= it && it >= it && !(it < it) && !(it > it) && !(it != it), "comparison of an iterator with itself");
    expect(V(it[C - 1]), a + P - V::Size, "it[i]");
    expect(V(*--e), a + P - V::Size, "*--it");
    expect(V(*(m.end() - 1)), a + P - V::Size, "*(end() - 1)");
    expect(V(*(m.begin() + (C - 1))), a + P - V::Size, "*(begin() + n)");
    it += C;
    vp_check(it == m.end(), "it += n");
    it -= C;
    vp_check(it == m.begin(), "it -= n");
    vp_check(it++ == m.begin() && it == m.begin() + 1, "it++");
    vp_check(it-- == m.begin() + 1 && it == m.begin(), "it--");
    vp_check(++it == m.begin() + 1, "++it");
    // sub-ranges include both ends
    for (std::size_t f = 0; f < C; ++f) {
        std::size_t l = C - 1, k = f;
        for (auto &x : m.range(f, l)) expect(V(x), a + V::Size * (k++ % C), "m.range(first, last)");
        vp::same(k, C, "m.range(first, last): number of vectors");
    }
    // writing through the iterator
    T b;
    vp::in(&b, 1, "b");
    for (auto &x : m) x = V(b);
    for (std::size_t i = 0; i < P; ++i) a[i] = b;
    entries<V, P>(m, a, "for (auto &v : m) v = b");
    for (auto &x : m) x -= V(b);
    for (std::size_t i = 0; i < P; ++i) a[i] = T(b - b);
    entries<V, P>(m, a, "for (auto &v : m) v -= b");
}
template <class V, std::size_t N> void iterate_fixed()
{
    Vc::Memory<V, N> m;
    iterate<V, N>(m);
}
template <class V, std::size_t N> void iterate_dynamic()
{
    Vc::Memory<V> m(N);
    iterate<V, N>(m);
}
// copies and assignments
template <class V, std::size_t N> void copy()
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded, C = Sizes<V, N>::Vectors;
    T a[P], b[P], p[N];
    {
        Vc::Memory<V, N> m, m2;
        fill<V, N>(m, a, "a");
        const Vc::Memory<V, N> c(m);
        entries<V, P>(c, a, "Memory(memory)");
        m2 = m;
        entries<V, P>(m2, a, "memory = memory");
        const Vc::Memory<V, P> c2(m);   // same number of vectors
        entries<V, P>(c2, a, "Memory(memory of other size)");
        Vc::Memory<V, P> c3;
        c3 = m;
        entries<V, P>(c3, a, "memory = memory of other size");
        Vc::Memory<V> d(m), d2(N);
        entries<V, P>(d, a, "dynamic Memory(memory)");
        vp::same(std::size_t(d.entriesCount()), N, "dynamic Memory(memory).entriesCount()");
        vp::same(std::size_t(d.vectorsCount()), C, "dynamic Memory(memory).vectorsCount()");
        d2 = m;
        entries<V, P>(d2, a, "dynamic memory = memory");
        const Vc::Memory<V> d3(d);
        entries<V, P>(d3, a, "dynamic Memory(dynamic memory)");
        fill<V, N>(m2, b, "b");
        d2 = m2;
        std::swap(d, d2);
        entries<V, P>(d, b, "swap(m, m2): m");
        entries<V, P>(d2, a, "swap(m, m2): m2");
        d = d2;
        entries<V, P>(d, a, "dynamic memory = dynamic memory");
        vp::in(p, N, "p");
        for (std::size_t i = 0; i < N; ++i) a[i] = b[i] = p[i];
        m = p;
        entries<V, P>(m, a, "memory = pointer");
        d = p;
        entries<V, P>(d, a, "dynamic memory = pointer");
        T x[V::Size];
        const V v = any<V>(x, "x");
        m = v;
        for (std::size_t i = 0; i < P; ++i) a[i] = x[i % V::Size];
        entries<V, P>(m, a, "memory = vector");
    }
    vp::same(vp_live, 0, "Memory<V> frees what it allocates");
}
template <class V> void copy_sizes()
{
    copy<V, 1>();
    copy<V, V::Size>();
    copy<V, V::Size + 1>();
    copy<V, 3 * V::Size>();
    copy<V, 4 * V::Size>();
    copy<V, 4 * V::Size + 1>();
    copy<V, 7 * V::Size>();
}
template <class V> void swap_sizes()
{
    typedef ET<V> T;
    constexpr std::size_t P = 2 * V::Size;
    T a[V::Size], b[P];
    {
        Vc::Memory<V> m(1), m2(V::Size + 1);
        fill<V, 1>(m, a, "a");
        fill<V, V::Size + 1>(m2, b, "b");
        m.swap(m2);
        vp::same(std::size_t(m.entriesCount()), V::Size + 1, "m.swap(m2): entriesCount()");
        vp::same(std::size_t(m.vectorsCount()), std::size_t(V::Size == 1 ? 2 : 2), "m.swap(m2): vectorsCount()");
        vp::same(std::size_t(m2.entriesCount()), std::size_t(1), "m.swap(m2): m2.entriesCount()");
        vp::same(std::size_t(m2.vectorsCount()), std::size_t(1), "m.swap(m2): m2.vectorsCount()");
        entries<V, P>(m, b, "m.swap(m2): m");
        entries<V, V::Size>(m2, a, "m.swap(m2): m2");
    }
    vp::same(vp_live, 0, "Memory<V> frees what it allocates");
}
template <class V> void raw()
{
    typedef ET<V> T;
    constexpr std::size_t P = 2 * V::Size;
    T *p = vp::alloc<T>(P, V::MemoryAlignment), a[P];
    vp::in(a, P, "a");
    for (std::size_t i = 0; i < P; ++i) p[i] = a[i];
    Vc::Memory<V, P, 0u, false> &m = Vc::Memory<V, P, 0u, false>::fromRawData(p);
    entries<V, P>(m, a, "fromRawData(p)");
    T x[V::Size];
    m.vector(1) = any<V>(x, "x");
    VP_LANES(V) a[V::Size + i] = x[i];
    vp::same(p, a, P, "fromRawData(p).vector(1) = x");
}
template <class V> void init_list()
{
    typedef ET<V> T;
    T a[2 * V::Size + 4] = {};
    vp::in(a, 5, "a");
    Vc::Memory<V, 5> m = {a[0], a[1], a[2], a[3], a[4]};
    entries<V, Sizes<V, 5>::Padded>(m, a, "Memory{...}");
    T b[2 * V::Size + 1] = {};
    b[0] = a[0];
    Vc::Memory<V, 1> m1 = {a[0]};
    entries<V, Sizes<V, 1>::Padded>(m1, b, "Memory{x}");
}
// operators on the whole memory
template <class V, std::size_t N> void operate()
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded;
    T a[P], b[P], e[P], s;
    Vc::Memory<V, N> x, y, z;
    fill<V, N>(x, a, "a");
    fill<V, N>(y, b, "b");
    vp::in(&s, 1, "s");
    z = x;
    z += y;
    for (std::size_t i = 0; i < N; ++i) e[i] = T(a[i] + b[i]);
    entries<V, N>(z, e, "m += m2");
    z = x;
    z -= y;
    for (std::size_t i = 0; i < N; ++i) e[i] = T(a[i] - b[i]);
    entries<V, N>(z, e, "m -= m2");
    z = x;
    z += s;
    for (std::size_t i = 0; i < N; ++i) e[i] = T(a[i] + s);
    entries<V, N>(z, e, "m += s");
    z = x;
    z -= s;
    for (std::size_t i = 0; i < N; ++i) e[i] = T(a[i] - s);
    entries<V, N>(z, e, "m -= s");
}
template <class V> void operate_all()
{
    operate<V, V::Size>();
    operate<V, 3 * V::Size - (V::Size > 1)>();
}
template <class V> void multiply()
{
    typedef ET<V> T;
    constexpr std::size_t P = 2 * V::Size;
    T a[P], b[P], e[P], s;
    Vc::Memory<V, P> x, y, z;
    fill<V, P>(x, a, "a");
    fill<V, P>(y, b, "b");
    vp::in(&s, 1, "s");
    z = x;
    z *= y;
    for (std::size_t i = 0; i < P; ++i) e[i] = T(a[i] * b[i]);
    entries<V, P>(z, e, "m *= m2");
    z = x;
    z *= s;
    for (std::size_t i = 0; i < P; ++i) e[i] = T(a[i] * s);
    entries<V, P>(z, e, "m *= s");
}
template <class V> void divide()
{
    typedef ET<V> T;
    constexpr std::size_t P = 2 * V::Size;
    T a[P], b[P], e[P], s;
    Vc::Memory<V, P> x, y, z;
    fill<V, P>(x, a, "a");
    fill<V, P>(y, b, "b");
    vp::in(&s, 1, "s");
    z = x;
    z /= y;
    for (std::size_t i = 0; i < P; ++i) e[i] = T(a[i] / b[i]);
    entries<V, P>(z, e, "m /= m2");
    z = x;
    z /= s;
    for (std::size_t i = 0; i < P; ++i) e[i] = T(a[i] / s);
    entries<V, P>(z, e, "m /= s");
}
template <class V, std::size_t N> inline void compare_(const char *eq, const char *ne, const char *le, const char *ge)
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded;
    T a[P], b[P];
    Vc::Memory<V, N> x, y;
    fill<V, N>(x, a, "a");
    fill<V, N>(y, b, "b");
    bool e = true, l = true, g = true;
    for (std::size_t i = 0; i < N; ++i) {
        e &= a[i] == b[i];
        l &= a[i] <= b[i];
        g &= a[i] >= b[i];
    }
    vp::same(x == y, e, eq);
    vp::same(x != y, !e, ne);
    vp::same(x <= y, l, le);
    vp::same(x >= y, g, ge);
}
template <class V, std::size_t N> inline void less_(const char *lt, const char *gt)
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded;
    T a[P], b[P];
    Vc::Memory<V, N> x, y;
    fill<V, N>(x, a, "a");
    fill<V, N>(y, b, "b");
    bool l = true, g = true;
    for (std::size_t i = 0; i < N; ++i) {
        l &= a[i] < b[i];
        g &= a[i] > b[i];
    }
    vp::same(x < y, l, lt);
    vp::same(x > y, g, gt);
}
template <class V> void compare()
{
    compare_<V, 2 * V::Size>("m == m2", "m != m2", "m <= m2", "m >= m2");
    compare_<V, V::Size + 1>("m == m2 (with padding)", "m != m2 (with padding)", "m <= m2 (with padding)", "m >= m2 (with padding)");
}
template <class V> void less()
{
    less_<V, 2 * V::Size>("m < m2", "m > m2");
    less_<V, V::Size + 1>("m < m2 (with padding)", "m > m2 (with padding)");
}
// gathers
template <class V, class I> inline void gather_one(const char *msg)
{
    typedef ET<V> T;
    constexpr std::size_t N = V::Size + 1, P = Sizes<V, N>::Padded;
    T a[P], e[V::Size];
    Vc::Memory<V, N> m;
    fill<V, N>(m, a, "a");
    I idx[V::Size];
    vp::in(idx, V::Size, "idx");
    VP_LANES(V) vp_assume(idx[i] < N);
    VP_LANES(V) e[i] = a[idx[i]];
    expect(m.gather(idx), e, msg);
}
template <class V> void gather()
{
    gather_one<V, uchar>("m.gather(unsigned char*)");
    gather_one<V, ushort>("m.gather(unsigned short*)");
    gather_one<V, uint>("m.gather(unsigned int*)");
}
// two dimensions: every row is a one-dimensional memory with its own padding
template <class V, std::size_t R, std::size_t N> inline void two_(const char *)
{
    typedef ET<V> T;
    constexpr std::size_t P = Sizes<V, N>::Padded, C = Sizes<V, N>::Vectors;
    T a[R][P], b[R][P];
    Vc::Memory<V, R, N> m;
    const Vc::Memory<V, R, N> &c = m;
    vp::same(std::size_t(m.rowsCount()), R, "2D rowsCount()");
    vp::same(std::size_t(m.rowCount()), R, "2D rowCount()");
    vp::same(std::size_t(m.entriesCount()), R * N, "2D entriesCount()");
    vp::same(std::size_t(m.vectorsCount()), R * C, "2D vectorsCount()");
    for (std::size_t r = 0; r < R; ++r) {
        vp::in(a[r], N, "a");
        for (std::size_t i = 0; i < N; ++i) m[r][i] = a[r][i];
        for (std::size_t i = N; i < P; ++i) a[r][i] = 0;
    }
    const int k = vp_int("row", 0, R - 1), l = vp_int("entry", 0, N - 1);
    vp::same(T(m[std::size_t(k)][std::size_t(l)]), a[k][l], "2D m[i][j]");
    vp::same(T(c[std::size_t(k)][std::size_t(l)]), a[k][l], "2D const m[i][j]");
    vp::same(T(m.scalar(k, l)), a[k][l], "2D m.scalar(i, j)");
    vp::same(T(c.scalar(k, l)), a[k][l], "2D const m.scalar(i, j)");
    vp::same(T(m.entries(k)[l]), a[k][l], "2D m.entries(i)[j]");
    for (std::size_t r = 0; r < R; ++r)
        for (std::size_t i = 0; i < C; ++i) {
            expect(V(m[r].vector(i)), &a[r][i * V::Size], "2D m[i].vector(j)");
            expect(V(m.vector(r * C + i)), &a[r][i * V::Size], "2D m.vector(i)");
            expect(V(c.vector(r * C + i)), &a[r][i * V::Size], "2D const m.vector(i)");
        }
    expect(V(m.lastVector()), &a[R - 1][P - V::Size], "2D m.lastVector()");
    std::size_t n = 0;
    for (auto &x : m) {
        expect(V(x), &a[n / C % R][n % C * V::Size], "2D for (auto &v : m)");
        ++n;
    }
    vp::same(n, R * C, "2D for (auto &v : m): number of vectors");
    T x[V::Size];
    const V v = any<V>(x, "x");
    Vc::Memory<V, R, N> m2(m), m3;
    m3 = m;
    m.vector(C * R - 1) = v;
    m[0].vector(0) = v;
    for (std::size_t r = 0; r < R; ++r) {
        entries<V, P>(m2[r], a[r], "2D Memory(memory)");
        entries<V, P>(m3[r], a[r], "2D memory = memory");
        for (std::size_t i = 0; i < P; ++i) b[r][i] = a[r][i];
    }
    VP_LANES(V) b[R - 1][P - V::Size + i] = x[i];
    VP_LANES(V) b[0][i] = x[i];
    for (std::size_t r = 0; r < R; ++r) entries<V, P>(m[r], b[r], "2D m.vector(i) = v");
    m2 = v;
    for (std::size_t r = 0; r < R; ++r) {
        for (std::size_t i = 0; i < P; ++i) b[r][i] = x[i % V::Size];
        entries<V, P>(m2[r], b[r], "2D memory = vector");
    }
    m3 += m2;
    for (std::size_t r = 0; r < R; ++r) {
        for (std::size_t i = 0; i < P; ++i) b[r][i] = T(a[r][i] + b[r][i]);
        entries<V, P>(m3[r], b[r], "2D m += m2");
    }
    m.setZero();
    for (std::size_t r = 0; r < R; ++r) {
        for (std::size_t i = 0; i < P; ++i) b[r][i] = 0;
        entries<V, P>(m[r], b[r], "2D m.setZero()");
    }
}
template <class V> void two()
{
    two_<V, 2, V::Size + 1>("");
    two_<V, 3, V::Size>("");
}
template <class V> void two_tall() { two_<V, 5, 3>(""); }
template <class V> void fixed1() { access_fixed<V, 1>(); }
template <class V> void fixed2() { access_fixed<V, V::Size + 1>(); }
template <class V> void fixed3() { access_fixed<V, 3 * V::Size>(); }
template <class V> void nopad() { access_nopad<V, V::Size + 1>(); }
template <class V> void dynamic1() { access_dynamic<V, 1>(); }
template <class V> void dynamic2() { access_dynamic<V, 2 * V::Size>(); }
template <class V> void dynamic3() { access_dynamic<V, 2 * V::Size + 1>(); }
template <class V> void dynamic0()
{
    {
        Vc::Memory<V> m(0);
        vp::same(std::size_t(m.entriesCount()), std::size_t(0), "Memory(0).entriesCount()");
        vp::same(std::size_t(m.vectorsCount()), std::size_t(0), "Memory(0).vectorsCount()");
        Vc::Memory<V> m2(m);
        m2.setZero();
    }
    vp::same(vp_live, 0, "Memory<V> frees what it allocates");
}
template <class V> void iterate1()
{
    iterate_fixed<V, V::Size + 1>();
    iterate_fixed<V, 1>();
}
template <class V> void iterate2() { iterate_dynamic<V, 3 * V::Size>(); }
#define X(V)                                                                                                                        \
    VP_H(fixed1, V) VP_H(fixed2, V) VP_H(fixed3, V) VP_H(nopad, V) VP_H(dynamic0, V) VP_H(dynamic1, V) VP_H(dynamic2, V) VP_H(dynamic3, V)          \
        VP_H(iterate1, V) VP_H(iterate2, V) VP_H(copy_sizes, V) VP_H(swap_sizes, V) VP_H(raw, V) VP_H(init_list, V) VP_H(operate_all, V) \
            VP_H(multiply, V) VP_H(compare, V) VP_H(less, V) VP_H(gather, V) VP_H(two, V) VP_H(two_tall, V)
VP_ALL(X)
#undef X
#define X(V) VP_H(divide, V)
VP_FLOATS(X)
#undef X
