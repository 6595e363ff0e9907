// Memory allocation: size, alignment, and release of what was allocated.
// The system's allocation functions are replaced by functions that record what they are asked for.
#include <cstdlib>
#include <cstring>
#include <stdlib.h>
#include <string.h>
#include <new>
#include "vp.h"
static unsigned long vp_size, vp_align;     // the last request
static void *vp_block, *vp_freed;           // the last block returned, the last block released
static int vp_requests, vp_releases, vp_fail, vp_exact;
extern "C" int vp_armed;                  // record the use of operator new and delete
int vp_armed;
inline int vp_posix_memalign(void **p, unsigned long align, unsigned long n) noexcept
{
    vp_check(align >= sizeof(void *) && (align & (align - 1)) == 0, "posix_memalign: alignment is a power of two and a multiple of sizeof(void*)");
    ++vp_requests;
    vp_size = n;
    vp_align = align;
    if (vp_fail) return 12;
    *p = vp_block = vp_exact ? vp_alloc(n, align) : vp_alloc(64, 4096);
    return 0;
}
namespace std
{
inline void vp_free(void *p) noexcept
{
    if (!p) return;
    ++vp_releases;
    vp_freed = p;
}
}
#define posix_memalign vp_posix_memalign
#define free vp_free
#include "vc.h"
#undef free
#include <vector>
// every block has an arbitrary address with the alignment operator new guarantees, 16 bytes
__attribute__((noinline)) void *operator new(std::size_t n)
{
    if (!vp_armed) return malloc(n);
    ++vp_requests;
    vp_size = n;
    if (vp_exact == 2) {        // every other block has the minimal alignment
        const unsigned long off = vp_requests & 1 ? 16 : 0;
        return vp_block = (char *)vp_alloc(n + off, 64) + off;
    }
    return vp_block = vp_exact ? vp_alloc(n, 16) : vp_alloc(128, 16);
}
__attribute__((noinline)) static void release(void *p) noexcept
{
    if (!vp_armed) {
        std::free(p);
        return;
    }
    if (!p) return;
    ++vp_releases;
    vp_freed = p;
}
void operator delete(void *p) noexcept { release(p); }
void operator delete(void *p, std::size_t) noexcept { release(p); }
typedef unsigned long addr;
extern "C" __attribute__((used)) void vp_may_throw() {}
struct Arm
{
    Arm() { vp_armed = 1; }
    ~Arm() { vp_armed = 0; }
};
static unsigned long any_size(const char *name)
{
    unsigned long n;
    vp::in(&n, 1, name);
    return n;
}
// malloc<T, A>(n) asks for at least n objects with the alignment A stands for; free releases that block
template <class T, Vc::MallocAlignment A> inline void malloc_one(addr align, const char *size, const char *alignment, const char *release)
{
    vp_fail = vp_exact = 0;
    const unsigned long n = any_size("n");
    vp_assume(n <= 0x7fffffffffff0000ul / sizeof(T));
    const int r = vp_requests;
    T *p = Vc::malloc<T, A>(n);
    vp_check(vp_requests == r + 1 && vp_size >= n * sizeof(T), size);
    vp_check((addr(p) & (align - 1)) == 0 && vp_align % align == 0 && p == vp_block, alignment);
    const int f = vp_releases;
    Vc::vp_free(p);
    vp_check(vp_releases == f + 1 && vp_freed == p, release);
    vp_fail = 1;
    p = Vc::malloc<T, A>(n);
    vp_check(p == nullptr, "malloc returns a null pointer if the system has no memory");
}
template <class T> void malloc_()
{
    malloc_one<T, Vc::AlignOnVector>(Vc::VectorAlignment, "malloc<T, AlignOnVector>(n): size", "malloc<T, AlignOnVector>(n): alignment", "free");
    malloc_one<T, Vc::AlignOnCacheline>(64, "malloc<T, AlignOnCacheline>(n): size", "malloc<T, AlignOnCacheline>(n): alignment", "free");
    malloc_one<T, Vc::AlignOnPage>(4096, "malloc<T, AlignOnPage>(n): size", "malloc<T, AlignOnPage>(n): alignment", "free");
}
// what malloc<T, AlignOnVector> returns can be used with aligned vectors of T
template <class V> void malloc_vectors()
{
    vp_exact = 1;
    typedef ET<V> T;
    const unsigned long n = 3;
    T *p = Vc::malloc<T, Vc::AlignOnVector>(n * V::Size), a[V::Size], b[V::Size];
    const V x = any<V>(a, "a"), y = any<V>(b, "b");
    x.store(p, Vc::Aligned);
    y.store(p + 2 * V::Size, Vc::Aligned);
    x.store(p + V::Size, Vc::Streaming);
    expect(V(p + 2 * V::Size, Vc::Aligned), b, "aligned store to and load from malloc<T, AlignOnVector>");
    expect(V(p, Vc::Aligned), a, "aligned store to and load from malloc<T, AlignOnVector>");
    expect(V(p + V::Size, Vc::Aligned), a, "aligned store to and load from malloc<T, AlignOnVector>");
    Vc::vp_free(p);
}
struct alignas(64) Big { char c[64]; };
struct Odd { char c[7]; };
// Allocator<T>: n objects fit between the returned address and the end of the block, and deallocate finds the start of the block
template <class T> void allocator()
{
    vp_fail = vp_exact = 0;
    Vc::Allocator<T> al;
    const unsigned long n = any_size("n");
    Arm arm;
    T *p = al.allocate(n);     // ends here with an exception if that many do not fit
    vp_check(n <= al.max_size(), "Allocator::allocate(n) throws bad_alloc if n exceeds max_size()");
    const addr b = addr(vp_block), q = addr(p), off = q - b;
    vp_check(vp_requests == 1 && q >= b && off <= vp_size && n <= ~0ul / sizeof(T) && n * sizeof(T) <= vp_size - off, "Allocator::allocate(n): size");
    vp_check((q & (alignof(T) - 1)) == 0, "Allocator::allocate(n): alignment");
#if defined Vc_IMPL_AVX
    vp_check((q & 31) == 0, "Allocator::allocate(n): alignment of vectors");
#elif !defined Vc_IMPL_Scalar
    vp_check((q & 15) == 0, "Allocator::allocate(n): alignment of vectors");
#endif
    al.deallocate(p, n);
    vp_check(vp_releases == 1 && vp_freed == vp_block, "Allocator::deallocate releases the block");
}
// the contents of a vector of vectors survive growth, insertion and erasure
template <class V, class A> inline void vector_one(const char *growth, const char *insertion, const char *erasure, const char *leak)
{
    typedef ET<V> T;
    T a[5][V::Size];
    V x[5];
    for (int i = 0; i < 5; ++i) x[i] = any<V>(a[i], "x");
    vp_exact = 2;
    vp_requests = vp_releases = 0;
    {
        Arm arm;
        std::vector<V, A> v;
        for (int i = 0; i < 3; ++i) v.push_back(x[i]);
        vp::same(v.size(), std::size_t(3), growth);
        for (int i = 0; i < 3; ++i) expect(v[i], a[i], growth);
        v.insert(v.begin() + 1, x[3]);
        const int o[] = {0, 3, 1, 2};
        for (int i = 0; i < 4; ++i) expect(v[i], a[o[i]], insertion);
        v.resize(5, x[4]);
        v.erase(v.begin());
        const int e[] = {3, 1, 2, 4};
        for (int i = 0; i < 4; ++i) expect(v[i], a[e[i]], erasure);
        for (std::size_t i = 0; i < v.size(); ++i) vp_check((addr(&v[i]) & (alignof(V) - 1)) == 0, "alignment of the elements of std::vector<V>");
    }
    vp::same(vp_requests, vp_releases, leak);
}
template <class V> void vectors()
{
    vector_one<V, Vc::Allocator<V>>("std::vector<V, Allocator<V>>: push_back", "std::vector<V, Allocator<V>>: insert", "std::vector<V, Allocator<V>>: resize, erase", "std::vector<V, Allocator<V>>: memory is released");
}
template <class V> void vectors_std()
{
    vector_one<V, std::allocator<V>>("std::vector<V>: push_back", "std::vector<V>: insert", "std::vector<V>: resize, erase", "std::vector<V>: memory is released");
}
static int vp_objects;
template <class T> struct Object
{
    T x, y;
    Object(T a, T b) : x(a), y(b) { ++vp_objects; }
    ~Object() { --vp_objects; }
};
template <class V> void unique()
{
    typedef ET<V> T;
    T a[2];
    vp::in(a, 2, "a");
    T b[V::Size];
    const V x = any<V>(b, "b");
    vp_exact = 1;
    {
        auto p = Vc::make_unique<Object<T>>(a[0], a[1]);
        vp_check(vp_objects == 1 && vp_size >= sizeof(Object<T>), "make_unique<T>(x, y): one object");
        vp::same(p->x, a[0], "make_unique<T>(x, y): x");
        vp::same(p->y, a[1], "make_unique<T>(x, y): y");
        vp_check((addr(p.get()) & (Vc::VectorAlignment - 1)) == 0, "make_unique<T>: alignment");
        auto v = Vc::make_unique<V>(x);
        expect(*v, b, "make_unique<V>(x)");
        auto c = Vc::make_unique<Object<T>, Vc::AlignOnPage>(a[1], a[0]);
        vp_check((addr(c.get()) & 4095) == 0, "make_unique<T, AlignOnPage>: alignment");
        vp::same(vp_releases, 0, "make_unique: nothing is released before the end of the life time");
    }
    vp_check(vp_objects == 0, "make_unique: the objects are destroyed");
    vp_check(vp_releases == 3, "make_unique: the memory is released");
}
// operator new of classes that contain vectors
template <class V> struct VBase : public Vc::VectorAlignedBaseT<V>
{
    V v;
    char c;
};
template <class V> struct MBase : public Vc::MemoryAlignedBaseT<V>
{
    ET<V> m[V::Size];
};
template <class V> void aligned_base()
{
    typedef ET<V> T;
    T a[V::Size];
    const V x = any<V>(a, "x");
    vp_exact = 1;
    auto *p = new VBase<V>;
    vp_check((addr(p) & (alignof(V) - 1)) == 0 && (addr(&p->v) & (alignof(V) - 1)) == 0, "new of VectorAlignedBaseT<V>: alignment");
    vp_check(vp_size >= sizeof(VBase<V>), "new of VectorAlignedBaseT<V>: size");
    p->v = x;
    expect(p->v, a, "new of VectorAlignedBaseT<V>: member");
    delete p;
    vp_check(vp_releases == 1 && vp_freed == p, "delete of VectorAlignedBaseT<V>");
    auto *q = new VBase<V>[3];
    vp_check((addr(q) & (alignof(V) - 1)) == 0 && vp_size >= 3 * sizeof(VBase<V>), "new[] of VectorAlignedBaseT<V>");
    q[2].v = x;
    expect(q[2].v, a, "new[] of VectorAlignedBaseT<V>: member");
    delete[] q;
    vp_check(vp_releases == 2 && vp_freed == vp_block, "delete[] of VectorAlignedBaseT<V>");
    auto *m = new MBase<V>;
    x.store(m->m, Vc::Aligned);
    expect(V(m->m, Vc::Aligned), a, "new of MemoryAlignedBaseT<V>");
    delete m;
    vp_check(vp_releases == 3 && vp_freed == m, "delete of MemoryAlignedBaseT<V>");
    Vc::VectorAlignedBase *b = new Vc::VectorAlignedBase;
    vp_check((addr(b) & (alignof(V) - 1)) == 0, "new of VectorAlignedBase: alignment");
    delete b;
    Vc::MemoryAlignedBase *c = new Vc::MemoryAlignedBase;
    vp_check((addr(c) & (V::MemoryAlignment - 1)) == 0, "new of MemoryAlignedBase: alignment");
    delete c;
}
typedef double dbl;
typedef char chr;
typedef long double ldbl;
typedef double_v::Mask dmask;
#define X(T) VP_H(malloc_, T) VP_H(allocator, T)
X(chr) X(ushort) X(int) X(dbl) X(Odd) X(Big) X(float_v) X(double_v) X(short_v) X(dmask)
#undef X
VP_H(allocator, ldbl)
#define X(V) VP_H(malloc_vectors, V) VP_H(vectors, V) VP_H(vectors_std, V) VP_H(unique, V) VP_H(aligned_base, V)
VP_ALL(X)
