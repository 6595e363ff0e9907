// Native runtime: runs one harness on concrete inputs.
//   prog HARNESS INPUTFILE [shift]          run once; prints OBS / FAIL / ASSUME / CRASH lines
//   prog HARNESS INPUTFILE search N SEED MSG  look around the given inputs for a concrete failure of MSG
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <random>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
typedef std::vector<std::vector<unsigned char>> Elems;
static std::map<std::string, Elems> g_in, g_used;
static std::map<std::string, int> g_count;
static bool g_search = false, g_quiet = false;
static int g_shift = 0;
static unsigned char g_fill = 0xa5;
static sigjmp_buf g_jmp;
static std::string g_fail;
static std::mt19937_64 g_rng;
static double g_mut = 0;
static std::string g_fails_seen;
struct Buf { unsigned char *map; size_t maplen; unsigned char *p; size_t n; unsigned char *lo; unsigned char *hi; };
static std::vector<Buf> g_bufs;

// operator new and delete of the harness record only while vp_armed is set, which is never the case in here
extern "C" __attribute__((weak)) int vp_armed;
struct Quiet
{
    int s = 0;
    Quiet()
    {
        if (&vp_armed) s = vp_armed, vp_armed = 0;
    }
    ~Quiet()
    {
        if (&vp_armed) vp_armed = s;
    }
};
static void fail(const char *msg)
{
    if (!g_quiet) printf("FAIL %s\n", msg);
    if (g_fail.empty()) g_fail = msg;
    g_fails_seen += std::string("\n") + msg + "\n";
}
static std::string uniq(const char *name)
{
    int k = ++g_count[name];
    std::string s = name;
    if (k > 1) s += "#" + std::to_string(k);
    return s;
}
static void special(unsigned char *p, unsigned long es)
{
    uint64_t r = g_rng();
    switch (g_rng() % 12) {
    case 0: r = 0; break;
    case 1: r = ~0ull; break;
    case 2: r = 1ull << (es * 8 - 1); break;
    case 3: r = (1ull << (es * 8 - 1)) - 1; break;
    case 4: r = g_rng() % 16; break;
    case 5: r = -(g_rng() % 16); break;
    case 6: if (es == 4) { float f = float(int(g_rng() % 2001) - 1000) / 4; memcpy(&r, &f, 4); }
            else if (es == 8) { double f = double(int(g_rng() % 2001) - 1000) / 4; memcpy(&r, &f, 8); } break;
    case 7: if (es == 4) r = (g_rng() % 2 << 31) | (0xffull << 23) | (g_rng() % 3 == 0 ? 0x400000 : 0);
            else if (es == 8) r = (g_rng() % 2 << 63) | (0x7ffull << 52) | (g_rng() % 3 == 0 ? 1ull << 51 : 0); break;
    case 8: r = 1ull << (g_rng() % (es * 8)); break;
    case 9: if (es == 4) { float f = ldexp(1 + (g_rng() % 1024) / 1024.0, int(g_rng() % 40) - 8) * (g_rng() % 2 ? 1 : -1); memcpy(&r, &f, 4); }
            else if (es == 8) { double f = ldexp(1 + (g_rng() % 1024) / 1024.0, int(g_rng() % 80) - 8) * (g_rng() % 2 ? 1 : -1); memcpy(&r, &f, 8); } break;
    }
    memcpy(p, &r, es);
}
extern "C" {
void vp_in(void *p, unsigned long n, unsigned long es, const char *name)
{
    Quiet quiet;
    std::string s = uniq(name);
    Elems &e = g_in[s];
    Elems u(n, std::vector<unsigned char>(es, 0));
    for (unsigned long i = 0; i < n; ++i) {
        if (i < e.size()) memcpy(u[i].data(), e[i].data(), std::min<size_t>(es, e[i].size()));
        if (g_search && double(g_rng() % 1000) < g_mut * 1000) special(u[i].data(), es);
        memcpy(static_cast<unsigned char *>(p) + i * es, u[i].data(), es);
    }
    g_used[s] = u;
}
void vp_in_bool(void *p, unsigned long n, const char *name)
{
    Quiet quiet;
    std::string s = uniq(name);
    Elems &e = g_in[s];
    Elems u(n, std::vector<unsigned char>(1, 0));
    for (unsigned long i = 0; i < n; ++i) {
        if (i < e.size()) u[i][0] = e[i][0] & 1;
        if (g_search && double(g_rng() % 1000) < g_mut * 1000) u[i][0] = g_rng() & 1;
        static_cast<unsigned char *>(p)[i] = u[i][0];
    }
    g_used[s] = u;
}
int vp_int(const char *name, int lo, int hi)
{
    Quiet quiet;
    std::string s = uniq(name);
    Elems &e = g_in[s];
    uint32_t v = 0;
    if (!e.empty()) memcpy(&v, e[0].data(), std::min<size_t>(4, e[0].size()));
    if (g_search && double(g_rng() % 1000) < g_mut * 1000) v = g_rng() % (uint32_t(hi - lo) + 1ull);
    Elems u(1, std::vector<unsigned char>(4, 0));
    memcpy(u[0].data(), &v, 4);
    g_used[s] = u;
    int r = int(uint32_t(lo) + v);
    if (r < lo || r > hi) { if (!g_quiet) printf("ASSUME\n"); siglongjmp(g_jmp, 1); }
    return r;
}
void vp_assume(bool c)
{
    Quiet quiet;
    if (!c) { if (!g_quiet) printf("ASSUME\n"); siglongjmp(g_jmp, 1); }
}
void vp_check(bool c, const char *msg)
{
    Quiet quiet;
    unsigned char b;
    memcpy(&b, &c, 1);
    if (!g_quiet) printf("OBS b %02x %s\n", b, msg);
    if (!c) fail(msg);
}
static bool isnan_(const unsigned char *p, unsigned long es)
{
    if (es == 4) { float f; memcpy(&f, p, 4); return f != f; }
    if (es == 8) { double f; memcpy(&f, p, 8); return f != f; }
    return false;
}
static bool feq_(const unsigned char *p, const unsigned char *q, unsigned long es)
{
    if (es == 4) { float f, g; memcpy(&f, p, 4); memcpy(&g, q, 4); return f == g; }
    double f, g; memcpy(&f, p, 8); memcpy(&g, q, 8); return f == g;
}
void vp_eq(const void *a, const void *b, unsigned long n, unsigned long es, unsigned long mode, const char *msg)
{
    if (!n) return;
    Quiet quiet;
    const unsigned char *x = static_cast<const unsigned char *>(a), *y = static_cast<const unsigned char *>(b);
    if (!g_quiet) {
        printf("OBS e%lu ", mode);
        for (unsigned long i = 0; i < n; ++i) {
            for (unsigned long j = es; j-- > 0;) printf("%02x", x[i * es + j]);
            putchar(i + 1 < n ? ',' : ' ');
        }
        printf("%s\n", msg);
    }
    for (unsigned long i = 0; i < n; ++i) {
        const unsigned char *p = x + i * es, *q = y + i * es;
        bool ok = memcmp(p, q, es) == 0;
        if (!ok && mode >= 1) ok = isnan_(p, es) && isnan_(q, es);
        if (!ok && mode == 2) ok = feq_(p, q, es);
        if (!ok) {
            if (!g_quiet) {
                printf("DIFF element %lu: got ", i);
                for (unsigned long j = es; j-- > 0;) printf("%02x", p[j]);
                printf(" expected ");
                for (unsigned long j = es; j-- > 0;) printf("%02x", q[j]);
                printf("\n");
            }
            fail(msg);
            return;
        }
    }
}
void *vp_alloc(unsigned long n, unsigned long align)
{
    Quiet quiet;
    const size_t page = 4096;
    size_t len = ((n + 2 * align + page - 1) / page + 2) * page;
    unsigned char *m = static_cast<unsigned char *>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) abort();
    mprotect(m, page, PROT_NONE);
    mprotect(m + len - page, page, PROT_NONE);
    unsigned char *lo = m + page, *hi = m + len - page, *p;
    uintptr_t q;
    if (g_shift & 2) {       // next to the lower guard page
        q = reinterpret_cast<uintptr_t>(lo);
        if (g_shift & 1) q += align;
    } else {
        q = (reinterpret_cast<uintptr_t>(hi) - n) / align * align;
        if ((g_shift & 1) && q % (2 * align) == 0) q -= align;
    }
    p = reinterpret_cast<unsigned char *>(q);
    memset(lo, 0x5c, hi - lo);
    memset(p, g_fill, n);
    g_bufs.push_back({m, len, p, n, lo, hi});
    return p;
}
}
static void free_bufs()
{
    for (auto &b : g_bufs) {
        bool bad = false;
        for (unsigned char *q = b.lo; q < b.p; ++q) bad |= *q != 0x5c;
        for (unsigned char *q = b.p + b.n; q < b.hi; ++q) bad |= *q != 0x5c;
        if (bad) fail("MEMORY write outside an object");
        munmap(b.map, b.maplen);
    }
    g_bufs.clear();
}
static void on_sig(int s)
{
    fail(s == SIGABRT ? "ABORT" : s == SIGFPE ? "CRASH SIGFPE" : s == SIGILL ? "CRASH SIGILL" : "MEMORY access violation (SIGSEGV/SIGBUS)");
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, s);
    sigprocmask(SIG_UNBLOCK, &ss, nullptr);
    siglongjmp(g_jmp, 2);
}
static void run(void (*h)())
{
    g_count.clear();
    g_used.clear();
    g_fail.clear();
    g_fails_seen.clear();
    if (sigsetjmp(g_jmp, 1) == 0) {
        try {
            h();
        } catch (...) {   // the path ends
            if (!dlsym(RTLD_DEFAULT, "vp_may_throw")) fail("ABORT");
        }
    }
    free_bufs();
}
static void dump()
{
    for (auto &e : g_used) {
        printf("IN %s", e.first.c_str());
        for (auto &v : e.second) {
            putchar(' ');
            for (size_t j = v.size(); j-- > 0;) printf("%02x", v[j]);
        }
        printf("\n");
    }
}
int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    void (*h)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    if (FILE *f = fopen(argv[2], "r")) {
        static char line[1 << 20];
        while (fgets(line, sizeof line, f)) {
            char *tok = strtok(line, " \n");
            if (!tok) continue;
            Elems &e = g_in[tok];
            while ((tok = strtok(nullptr, " \n"))) {
                std::vector<unsigned char> v;
                for (int j = int(strlen(tok)) - 2; j >= 0; j -= 2) {
                    char t[3] = {tok[j], tok[j + 1], 0};
                    v.push_back(static_cast<unsigned char>(strtoul(t, nullptr, 16)));
                }
                e.push_back(v);
            }
        }
        fclose(f);
    }
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_sig);
    alarm(60);
    const bool once = dlsym(RTLD_DEFAULT, "vp_once");
    if (argc >= 7 && !strcmp(argv[3], "search")) {
        long n = atol(argv[4]);
        g_rng.seed(atol(argv[5]));
        g_search = g_quiet = true;
        const double muts[] = {0.05, 0.2, 0.5, 1.0, 0};
        const std::string want = std::string("\n") + argv[6] + "\n";
        for (long i = 0; i < n; ++i) {
            g_mut = muts[i % 5];
            g_shift = g_rng() & 3;
            if (g_rng() & 1) g_fill = static_cast<unsigned char>(g_rng());
            if (once) {   // the code under test keeps state: one run per process
                g_rng();
                const pid_t c = fork();
                if (c) {
                    int st = 0;
                    if (waitpid(c, &st, 0) == c && WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
                    continue;
                }
            }
            run(h);
            if (!g_fail.empty() && (argv[6][0] == '*' || g_fails_seen.find(want) != std::string::npos)) {
                printf("FOUND %s\n", g_fail.c_str());
                printf("SHIFT %d\n", g_shift);
                dump();
                if (once) fflush(stdout);
                return 1;
            }
            if (once) _exit(0);
        }
        return 0;
    }
    if (argc >= 4) g_shift = atoi(argv[3]);
    run(h);
    if (!g_quiet) printf("END\n");
    return g_fail.empty() ? 0 : 1;
}
