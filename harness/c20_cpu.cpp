#include "vc.h"
#include <Vc/cpuid.h>
#include <Vc/support.h>
// Processor detection on an arbitrary processor.  Every cpuid and xgetbv instruction of the library asks vp_cpuid and vp_xgetbv (the
// instructions themselves are replaced, in the IR and in the assembler output), which answer from the inputs.  The expected results
// are written down from the Intel SDM (CPUID, tables 3-8 to 3-13) and the AMD APM (appendix E).
using Vc::CpuId;
struct R
{
    unsigned a, b, c, d;
};
extern "C" {
int vp_once = 1;   // the detection runs once per process
}
enum { Caches = 5 };
static R leaf0, leaf1, leaf2, leaf7, leaf81, leaf85, leaf86, leaf4[Caches + 1];
static unsigned xcr0[2];
static R any_regs(const char *name)
{
    unsigned r[4];
    vp::in(r, 4, name);
    return R{r[0], r[1], r[2], r[3]};
}
extern "C" __attribute__((noinline, used)) void vp_cpuid(unsigned leaf, unsigned sub, unsigned *out)
{
    R r = {};
    switch (leaf)
    {
    case 0: r = leaf0; break;
    case 1: r = leaf1; break;
    case 2: r = leaf2; break;
    case 4: r = leaf4[sub < Caches ? sub : unsigned(Caches)]; break;
    case 7:
        if (sub == 0)
            r = leaf7;
        else
            r = any_regs("cpuid_7.n");
        break;
    case 0x80000001u: r = leaf81; break;
    case 0x80000005u: r = leaf85; break;
    case 0x80000006u: r = leaf86; break;
    default: r = any_regs("cpuid_other"); break;
    }
    out[0] = r.a;
    out[1] = r.b;
    out[2] = r.c;
    out[3] = r.d;
}
static inline bool bit(unsigned r, int n) { return (r >> n) & 1; }
extern "C" __attribute__((noinline, used)) void vp_xgetbv(unsigned idx, unsigned *out)
{
    vp_check(bit(leaf1.c, 27), "xgetbv is executed only if the operating system enabled it (CPUID.1:ECX.OSXSAVE)");
    vp_check(idx == 0, "xgetbv reads XCR0");
    out[0] = xcr0[0];
    out[1] = xcr0[1];
}
#ifndef VP_IR
// cpuid and xgetbv of the assembled library
asm(R"(
    .text
    .globl vp_cpuid_stub
vp_cpuid_stub:
    pushq %rbp
    movq %rsp, %rbp
    pushq %rdi
    pushq %rsi
    pushq %r8
    pushq %r9
    pushq %r10
    pushq %r11
    subq $608, %rsp
    andq $-64, %rsp
    fxsave (%rsp)
    movl %eax, %edi
    movl %ecx, %esi
    leaq 528(%rsp), %rdx
    cld
    call vp_cpuid
    fxrstor (%rsp)
    movl 528(%rsp), %eax
    movl 532(%rsp), %ebx
    movl 536(%rsp), %ecx
    movl 540(%rsp), %edx
    leaq -48(%rbp), %rsp
    popq %r11
    popq %r10
    popq %r9
    popq %r8
    popq %rsi
    popq %rdi
    popq %rbp
    ret
    .globl vp_xgetbv_stub
vp_xgetbv_stub:
    pushq %rbp
    movq %rsp, %rbp
    pushq %rdi
    pushq %rsi
    pushq %r8
    pushq %r9
    pushq %r10
    pushq %r11
    pushq %rcx
    subq $608, %rsp
    andq $-64, %rsp
    fxsave (%rsp)
    movl %ecx, %edi
    leaq 528(%rsp), %rsi
    cld
    call vp_xgetbv
    fxrstor (%rsp)
    movl 528(%rsp), %eax
    movl 532(%rsp), %edx
    leaq -56(%rbp), %rsp
    popq %rcx
    popq %r11
    popq %r10
    popq %r9
    popq %r8
    popq %rsi
    popq %rdi
    popq %rbp
    ret
)");
#endif
enum : unsigned { AMD = 0x444D4163u, Intel = 0x6C65746Eu };
static void any_cpu()
{
    leaf0 = any_regs("cpuid_0");
    vp_assume(leaf0.a >= 7 && leaf0.a < 0x80000000u);   // leaf 7 exists
    leaf1 = any_regs("cpuid_1");
    leaf7 = any_regs("cpuid_7.0");
    leaf81 = any_regs("cpuid_80000001h");
    leaf85 = any_regs("cpuid_80000005h");
    leaf86 = any_regs("cpuid_80000006h");
    vp::in(xcr0, 2, "XCR0");
    leaf2.a = 1;
}
static bool ymm_enabled() { return bit(leaf1.c, 27) && (xcr0[0] & 6) == 6; }
static bool knc() { return leaf0.c == Intel && ((leaf1.a >> 8) & 15) == 0xb && ((leaf1.a >> 16) & 15) == 0 && ((leaf1.a >> 4) & 15) == 1; }
// instruction set k in ascending order of Vc::Implementation can be executed
static bool usable(int k)
{
    switch (k)
    {
    case 0: return true;
    case 1: return bit(leaf1.d, 26);
    case 2: return bit(leaf1.c, 0);
    case 3: return bit(leaf1.c, 9);
    case 4: return bit(leaf1.c, 19);
    case 5: return bit(leaf1.c, 20);
    case 6: return bit(leaf1.c, 28) && ymm_enabled();
    case 7: return bit(leaf7.b, 5) && ymm_enabled();
    }
    return false;
}
static const Vc::Implementation impls[] = {Vc::ScalarImpl, Vc::SSE2Impl, Vc::SSE3Impl, Vc::SSSE3Impl, Vc::SSE41Impl, Vc::SSE42Impl, Vc::AVXImpl, Vc::AVX2Impl};
extern "C" void H_supported()
{
    any_cpu();
    for (int k = 0; k < 8; ++k) vp::same(Vc::isImplementationSupported(impls[k]), usable(k), "isImplementationSupported(impl)");
    vp_check(!Vc::isImplementationSupported(Vc::ImplementationMask), "isImplementationSupported(no implementation)");
    vp_assume(((leaf1.a >> 20) & 255) == 0);
    vp::same(Vc::isImplementationSupported(Vc::MICImpl), knc(), "isImplementationSupported(MICImpl)");
}
// the best one is the last of the chain every member of which can be used
extern "C" void H_best()
{
    any_cpu();
    vp_assume(((leaf1.a >> 20) & 255) == 0);
    vp_assume(!knc());
    int e = 0;
    while (e < 7 && usable(e + 1)) ++e;
    vp::same(int(Vc::bestImplementationSupported()), int(impls[e]), "bestImplementationSupported()");
}
// the best one is supported, and after it is known the others are answered consistently
extern "C" void H_best_supported()
{
    any_cpu();
    const Vc::Implementation b = Vc::bestImplementationSupported();
    vp_check(Vc::isImplementationSupported(b), "isImplementationSupported(bestImplementationSupported())");
}
static unsigned extra_()
{
    unsigned e = 0;
    if (bit(leaf1.c, 29)) e |= Vc::Float16cInstructions;
    if (bit(leaf81.c, 16)) e |= Vc::Fma4Instructions;
    if (bit(leaf81.c, 11)) e |= Vc::XopInstructions;
    if (bit(leaf1.c, 23)) e |= Vc::PopcntInstructions;
    if (bit(leaf81.c, 6)) e |= Vc::Sse4aInstructions;
    if (bit(leaf1.c, 12)) e |= Vc::FmaInstructions;
    if (bit(leaf7.b, 8)) e |= Vc::Bmi2Instructions;
    if (bit(leaf1.c, 28) && ymm_enabled()) e |= Vc::VexInstructions;
    return e;
}
extern "C" void H_extra()
{
    any_cpu();
    CpuId::init();
    vp::same(Vc::extraInstructionsSupported(), extra_(), "extraInstructionsSupported()");
}
// a program compiled for an instruction set runs only where everything the compiler may use exists
extern "C" void H_current()
{
    any_cpu();
    bool e = true;
#ifdef __SSE2__
#ifndef VP_CFG_Scalar
    e = e & usable(1);
#endif
#endif
#ifdef __SSE3__
    e = e & usable(2);
#endif
#ifdef __SSSE3__
    e = e & usable(3);
#endif
#ifdef __SSE4_1__
    e = e & usable(4);
#endif
#ifdef __SSE4_2__
    e = e & usable(5);
#endif
#ifdef __AVX__
    e = e & usable(6);
#endif
#ifdef __AVX2__
    e = e & usable(7);
#endif
#ifdef __FMA__
    e = e & bit(leaf1.c, 12);
#endif
#ifdef __BMI2__
    e = e & bit(leaf7.b, 8);
#endif
#ifdef __POPCNT__
    e = e & bit(leaf1.c, 23);
#endif
#ifdef __F16C__
    e = e & bit(leaf1.c, 29);
#endif
    // the instruction sets form a chain: a processor with one of them has the lower ones
    for (int k = 1; k < 7; ++k) vp_assume(usable(k) | !usable(k + 1));
    vp::same(Vc::isImplementationSupported<Vc::CurrentImplementation>(), e, "isImplementationSupported<CurrentImplementation>()");
}
extern "C" void H_features()
{
    any_cpu();
    CpuId::init();
#define B(f, reg, n) vp::same(CpuId::f(), bit(reg, n), #f "()");
    B(hasSse3, leaf1.c, 0) B(hasPclmulqdq, leaf1.c, 1) B(hasMonitor, leaf1.c, 3) B(hasVmx, leaf1.c, 5) B(hasSmx, leaf1.c, 6) B(hasEist, leaf1.c, 7)
    B(hasTm2, leaf1.c, 8) B(hasSsse3, leaf1.c, 9) B(hasFma, leaf1.c, 12) B(hasCmpXchg16b, leaf1.c, 13) B(hasPdcm, leaf1.c, 15)
    B(hasDca, leaf1.c, 18) B(hasSse41, leaf1.c, 19) B(hasSse42, leaf1.c, 20) B(hasMovbe, leaf1.c, 22) B(hasPopcnt, leaf1.c, 23)
    B(hasAes, leaf1.c, 25) B(hasOsxsave, leaf1.c, 27) B(hasAvx, leaf1.c, 28) B(hasF16c, leaf1.c, 29) B(hasRdrand, leaf1.c, 30)
    B(hasFpu, leaf1.d, 0) B(hasVme, leaf1.d, 1) B(hasDe, leaf1.d, 2) B(hasPse, leaf1.d, 3) B(hasTsc, leaf1.d, 4) B(hasMsr, leaf1.d, 5)
    B(hasPae, leaf1.d, 6) B(hasCx8, leaf1.d, 8) B(hasMtrr, leaf1.d, 12) B(hasCmov, leaf1.d, 15) B(hasClfsh, leaf1.d, 19) B(hasAcpi, leaf1.d, 22)
    B(hasMmx, leaf1.d, 23) B(hasSse, leaf1.d, 25) B(hasSse2, leaf1.d, 26) B(hasHtt, leaf1.d, 28)
    B(hasBmi1, leaf7.b, 3) B(hasHle, leaf7.b, 4) B(hasAvx2, leaf7.b, 5) B(hasBmi2, leaf7.b, 8) B(hasRtm, leaf7.b, 11)
    B(hasAvx512f, leaf7.b, 16) B(hasAvx512dq, leaf7.b, 17) B(hasAvx512ifma, leaf7.b, 21) B(hasAvx512pf, leaf7.b, 26) B(hasAvx512er, leaf7.b, 27)
    B(hasAvx512cd, leaf7.b, 28) B(hasAvx512bw, leaf7.b, 30) B(hasAvx512vl, leaf7.b, 31) B(hasAvx512vbmi, leaf7.c, 1)
    B(hasSse4a, leaf81.c, 6) B(hasMisAlignSse, leaf81.c, 7) B(hasAmdPrefetch, leaf81.c, 8) B(hasXop, leaf81.c, 11) B(hasFma4, leaf81.c, 16)
    B(hasRdtscp, leaf81.d, 27) B(has3DNow, leaf81.d, 31) B(has3DNowExt, leaf81.d, 30)
#undef B
    vp::same(CpuId::isAmd(), leaf0.c == AMD, "isAmd()");
    vp::same(CpuId::isIntel(), leaf0.c == Intel, "isIntel()");
}
// family, model and type; the extended family counts for base family 15, the extended model for base families 6 (Intel) and 15
extern "C" void H_identity()
{
    any_cpu();
    const unsigned base = (leaf1.a >> 8) & 15, ext = (leaf1.a >> 20) & 255, model = (leaf1.a >> 4) & 15, extmodel = (leaf1.a >> 16) & 15;
    vp_assume(leaf0.c == AMD || leaf0.c == Intel);
    vp_assume(ext <= 240 && base != 0xb);
    CpuId::init();
    vp::same(CpuId::processorFamily(), base == 15 ? base + ext : base, "processorFamily()");
    vp::same(CpuId::processorModel(), base == 15 || (base == 6 && leaf0.c == Intel) ? model + (extmodel << 4) : model, "processorModel()");
    vp::same(unsigned(CpuId::processorType()), (leaf1.a >> 12) & 3, "processorType()");
    vp::same(unsigned(CpuId::cacheLineSize()), ((leaf1.b >> 8) & 255) * 8, "cacheLineSize()");
    vp::same(CpuId::logicalProcessors(), (leaf1.b >> 16) & 255, "logicalProcessors()");
}
static int amd_ways(unsigned code)
{
    static const int w[16] = {0, 1, 2, -1, 4, -1, 8, -1, 16, -1, 32, 48, 64, 96, 128, 255};
    return w[code & 15];
}
extern "C" void H_amd_caches()
{
    any_cpu();
    vp_assume(leaf0.c == AMD);
    const int w2 = amd_ways(leaf86.c >> 12), w3 = amd_ways(leaf86.d >> 12);
    vp_assume(w2 >= 0);
    vp_assume(w3 >= 0);
    CpuId::init();
    vp::same(CpuId::L1Data(), (leaf85.c >> 24) << 10, "L1Data()");
    vp::same(unsigned(CpuId::L1DataLineSize()), leaf85.c & 255, "L1DataLineSize()");
    vp::same(CpuId::L1Associativity(), (leaf85.c >> 16) & 255, "L1Associativity()");
    vp::same(CpuId::L1Instruction(), (leaf85.d >> 24) << 10, "L1Instruction()");
    vp::same(unsigned(CpuId::L1InstructionLineSize()), leaf85.d & 255, "L1InstructionLineSize()");
    vp::same(CpuId::L2Data(), (leaf86.c >> 16) << 10, "L2Data()");
    vp::same(unsigned(CpuId::L2DataLineSize()), leaf86.c & 255, "L2DataLineSize()");
    vp::same(CpuId::L2Associativity(), unsigned(w2), "L2Associativity()");
    vp::same(CpuId::L3Data(), (leaf86.d >> 18) << 19, "L3Data()");
    vp::same(unsigned(CpuId::L3DataLineSize()), leaf86.d & 255, "L3DataLineSize()");
    vp::same(CpuId::L3Associativity(), unsigned(w3), "L3Associativity()");
}
// Intel, cache parameters from leaf 4: at most one cache of each kind and level
static unsigned ways(const R &r) { return ((r.b >> 22) & 1023) + 1; }
static unsigned line(const R &r) { return (r.b & 4095) + 1; }
static unsigned size_(const R &r) { return ways(r) * (((r.b >> 12) & 1023) + 1) * line(r) * (r.c + 1); }
static void expect_cache(unsigned size, unsigned linesize, unsigned assoc, int level, bool instruction, const char *ms, const char *ml, const char *ma)
{
    unsigned es = 0, el = 0, ea = 0;
    bool end = false;
    for (int i = 0; i < Caches; ++i)
    {
        const R &r = leaf4[i];
        const unsigned type = r.a & 31;
        end = end | (type == 0);
        const bool hit = !end & (((r.a >> 5) & 7) == unsigned(level)) & (instruction ? type == 2 : (type == 1) | (type == 3));
        es = hit ? size_(r) : es;
        el = hit ? line(r) : el;
        ea = hit ? ways(r) : ea;
    }
    vp::same(size, es, ms);
    vp::same(linesize, el, ml);
    if (ma) vp::same(assoc, ea, ma);
}
extern "C" void H_intel_leaf4()
{
    any_cpu();
    vp_assume(leaf0.c != AMD);
    leaf2 = R{1 | 0xff00u, 0, 0, 0};   // descriptor FFh: use leaf 4
    for (int i = 0; i < Caches - 1; ++i) leaf4[i] = any_regs("cpuid_4.n");
    CpuId::init();
    expect_cache(CpuId::L1Data(), CpuId::L1DataLineSize(), CpuId::L1Associativity(), 1, false, "L1Data()", "L1DataLineSize()", "L1Associativity()");
    expect_cache(CpuId::L2Data(), CpuId::L2DataLineSize(), CpuId::L2Associativity(), 2, false, "L2Data()", "L2DataLineSize()", "L2Associativity()");
    expect_cache(CpuId::L3Data(), CpuId::L3DataLineSize(), CpuId::L3Associativity(), 3, false, "L3Data()", "L3DataLineSize()", "L3Associativity()");
    expect_cache(CpuId::L1Instruction(), CpuId::L1InstructionLineSize(), 0, 1, true, "L1Instruction()", "L1InstructionLineSize()", nullptr);
}
// Intel, descriptor bytes of leaf 2
enum { I1, D1, D2, D3 };
struct Desc
{
    unsigned char code, kind;
    unsigned kbyte, ways, line;
};
static const Desc table[] = {
    {0x06, I1, 8, 4, 32}, {0x08, I1, 16, 4, 32}, {0x09, I1, 32, 4, 64}, {0x0A, D1, 8, 2, 32}, {0x0C, D1, 16, 4, 32}, {0x0D, D1, 16, 4, 64},
    {0x0E, D1, 24, 6, 64}, {0x21, D2, 256, 8, 64}, {0x22, D3, 512, 4, 64}, {0x23, D3, 1024, 8, 64}, {0x25, D3, 2048, 8, 64},
    {0x29, D3, 4096, 8, 64}, {0x2C, D1, 32, 8, 64}, {0x30, I1, 32, 8, 64}, {0x41, D2, 128, 4, 32}, {0x42, D2, 256, 4, 32}, {0x43, D2, 512, 4, 32},
    {0x44, D2, 1024, 4, 32}, {0x45, D2, 2048, 4, 32}, {0x46, D3, 4096, 4, 64}, {0x47, D3, 8192, 8, 64}, {0x48, D2, 3072, 12, 64},
    {0x4A, D3, 6144, 12, 64}, {0x4B, D3, 8192, 16, 64}, {0x4C, D3, 12288, 12, 64}, {0x4D, D3, 16384, 16, 64}, {0x4E, D2, 6144, 24, 64},
    {0x60, D1, 16, 8, 64}, {0x66, D1, 8, 4, 64}, {0x67, D1, 16, 4, 64}, {0x68, D1, 32, 4, 64}, {0x78, D2, 1024, 4, 64}, {0x79, D2, 128, 8, 64},
    {0x7A, D2, 256, 8, 64}, {0x7B, D2, 512, 8, 64}, {0x7C, D2, 1024, 8, 64}, {0x7D, D2, 2048, 8, 64}, {0x7F, D2, 512, 2, 64}, {0x80, D2, 512, 8, 64},
    {0x82, D2, 256, 8, 32}, {0x83, D2, 512, 8, 32}, {0x84, D2, 1024, 8, 32}, {0x85, D2, 2048, 8, 32}, {0x86, D2, 512, 4, 64}, {0x87, D2, 1024, 8, 64},
    {0xD0, D3, 512, 4, 64}, {0xD1, D3, 1024, 4, 64}, {0xD2, D3, 2048, 4, 64}, {0xD6, D3, 1024, 8, 64}, {0xD7, D3, 2048, 8, 64}, {0xD8, D3, 4096, 8, 64},
    {0xDC, D3, 1536, 12, 64}, {0xDD, D3, 3072, 12, 64}, {0xDE, D3, 6144, 12, 64}, {0xE2, D3, 2048, 16, 64}, {0xE3, D3, 4096, 16, 64},
    {0xE4, D3, 8192, 16, 64}, {0xEA, D3, 12288, 24, 64}, {0xEB, D3, 18432, 24, 64}, {0xEC, D3, 24576, 24, 64},
};
static void expect_descriptor(unsigned d, bool fam15model6)
{
    Desc e[4] = {};
    for (const Desc &t : table)
        for (int k = 0; k < 4; ++k)
            if (t.kind == k)
            {
                const bool hit = t.code == d;
                e[k].kbyte = hit ? t.kbyte : e[k].kbyte;
                e[k].ways = hit ? t.ways : e[k].ways;
                e[k].line = hit ? t.line : e[k].line;
            }
    const bool x49 = d == 0x49;
    e[D3].kbyte = x49 & fam15model6 ? 4096 : e[D3].kbyte;
    e[D3].ways = x49 & fam15model6 ? 16 : e[D3].ways;
    e[D3].line = x49 & fam15model6 ? 64 : e[D3].line;
    e[D2].kbyte = x49 & !fam15model6 ? 4096 : e[D2].kbyte;
    e[D2].ways = x49 & !fam15model6 ? 16 : e[D2].ways;
    e[D2].line = x49 & !fam15model6 ? 64 : e[D2].line;
    vp::same(CpuId::L1Instruction(), e[I1].kbyte << 10, "L1Instruction()");
    vp::same(unsigned(CpuId::L1InstructionLineSize()), e[I1].line, "L1InstructionLineSize()");
    vp::same(CpuId::L1Data(), e[D1].kbyte << 10, "L1Data()");
    vp::same(unsigned(CpuId::L1DataLineSize()), e[D1].line, "L1DataLineSize()");
    vp_check((CpuId::L1Associativity() == e[D1].ways) | (e[I1].kbyte != 0), "L1Associativity()");
    vp::same(CpuId::L2Data(), e[D2].kbyte << 10, "L2Data()");
    vp::same(unsigned(CpuId::L2DataLineSize()), e[D2].line, "L2DataLineSize()");
    vp::same(CpuId::L2Associativity(), e[D2].ways, "L2Associativity()");
    vp::same(CpuId::L3Data(), e[D3].kbyte << 10, "L3Data()");
    vp::same(unsigned(CpuId::L3DataLineSize()), e[D3].line, "L3DataLineSize()");
    vp::same(CpuId::L3Associativity(), e[D3].ways, "L3Associativity()");
    vp::same(unsigned(CpuId::prefetch()), d == 0xf0 ? 64u : d == 0xf1 ? 128u : 32u, "prefetch()");
}
// one descriptor in byte pos (1..15) of the registers, the others null
static void one_descriptor(int pos)
{
    any_cpu();
    vp_assume(leaf0.c == Intel);
    unsigned char d;
    vp::in(&d, 1, "descriptor");
    vp_assume(d != 0xff && ((leaf1.a >> 8) & 15) != 0xb);
    unsigned r[4] = {1, 0, 0, 0};
    r[pos / 4] |= unsigned(d) << pos % 4 * 8;
    if (pos % 4 == 3) vp_assume(d < 0x80);   // bit 31: the register has no valid descriptors
    leaf2 = R{r[0], r[1], r[2], r[3]};
    CpuId::init();
    const unsigned id = leaf1.a;
    expect_descriptor(d, ((id >> 8) & 15) == 15 && ((id >> 20) & 255) == 0 && ((id >> 4) & 15) == 6 && ((id >> 16) & 15) == 0);
}
extern "C" void H_descriptor_1() { one_descriptor(1); }
extern "C" void H_descriptor_2() { one_descriptor(2); }
extern "C" void H_descriptor_3() { one_descriptor(3); }
extern "C" void H_descriptor_4() { one_descriptor(4); }
extern "C" void H_descriptor_6() { one_descriptor(6); }
extern "C" void H_descriptor_9() { one_descriptor(9); }
extern "C" void H_descriptor_12() { one_descriptor(12); }
extern "C" void H_descriptor_15() { one_descriptor(15); }
// registers with bit 31 set contain no descriptors, whatever their other bits
extern "C" void H_descriptor_invalid()
{
    any_cpu();
    vp_assume(leaf0.c == Intel);
    leaf2 = any_regs("cpuid_2");
    vp_assume((leaf2.a & 0x800000ffu) == 0x80000001u && bit(leaf2.b, 31) && bit(leaf2.c, 31) && bit(leaf2.d, 31));
    CpuId::init();
    expect_descriptor(0, false);
}
