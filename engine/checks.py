"""The checks: property -> harness files, configurations, bounds."""
ALL = ["Scalar", "SSE2", "SSSE3", "SSE4_2", "AVX", "AVX2"]
ALLT = ["Scalar", "SSE2", "SSE3", "SSSE3", "SSE4_1", "SSE4_2", "SSE4_2P", "AVX", "AVXP", "AVX2N", "AVX2"]
CHECKS = {}


def check(pid, units, **kw):
    us = []
    for u in units:
        src = u[0]
        q = u[1] if len(u) > 1 and u[1] is not None else ALL
        th = u[2] if len(u) > 2 and u[2] is not None else ALLT
        o = u[3] if len(u) > 3 else {}
        us.append((src, q, th, o))
    d = dict(units=us)
    d.update(kw)
    CHECKS[pid] = d


check("C01", [("c01_arith.cpp",)])
check("C02", [("c02_compare.cpp",)])
check("C03", [("c03_bits.cpp",)])
check("C06", [("c06_mask.cpp",)])
check("C04", [("c04_loadstore.cpp",)])
check("C05", [("c05_masked.cpp",)])
check("C07", [("c07_gather.cpp",), ("c07_gather_popcnt.cpp", ["SSE2", "AVX", "AVX2"], ["SSE2", "SSE4_2P", "AVXP", "AVX2"]), ("c07_gather_set.cpp", ["SSE2", "AVX", "AVX2"])])
check("C08", [("c08_interleave.cpp", ["Scalar", "SSE2", "AVX", "AVX2"]), ("c08_interleave_more.cpp", [], ALLT)])
check("C09", [("c09_cast.cpp",), ("c09_cast_off.cpp",), ("c09_cast_scalar.cpp",), ("c09_convert.cpp",)])
_NI = dict(flags=["-fno-inline"], tag="noinline")
check("C10", [("c10_permute.cpp",), ("c10_permute.cpp", ["SSE2", "AVX2"], ALLT, _NI)])
# the library compiles the sort helpers for SSE2, SSE4.1, AVX and AVX2 only; the configurations between use the next lower one
_SORT = [("src/sse_sorthelper.cpp", {"SSE2": [], "SSE3": ["-UVc_IMPL", "-DVc_IMPL=SSE2", "-mno-sse3"], "SSSE3": ["-UVc_IMPL", "-DVc_IMPL=SSE2", "-mno-sse3"],
                                     "SSE4_1": [], "SSE4_2": ["-UVc_IMPL", "-DVc_IMPL=SSE4_1", "-mno-sse4.2"], "SSE4_2P": ["-UVc_IMPL", "-DVc_IMPL=SSE4_1", "-mno-sse4.2"],
                                     "AVX": [], "AVXP": [], "AVX2": [], "AVX2N": []}),
         ("src/avx_sorthelper.cpp", {"AVX": [], "AVXP": [], "AVX2": [], "AVX2N": []})]
check("C11", [("c11_sorted.cpp", ["Scalar", "SSE2", "SSE4_1", "AVX", "AVX2"], None, dict(libs=_SORT))])
check("C12", [("c12_reduce.cpp",)])


# SimdArray: the harnesses of C01..C12 for SimdArray<T, N>
def arr(src, ns, nst=None, q=None, th=None, **o):
    q = q or ["Scalar", "SSE2", "AVX", "AVX2"]
    us = []
    for n in nst or ns:
        oo = dict(o)
        oo["flags"] = ["-DVP_N=%d" % n] + o.get("flags", [])
        oo["tag"] = "n%d" % n
        us.append((src, q if n in ns else [], th or q, oo))
    return us


N1 = [3, 4, 7, 8]
N2 = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17]
check("C13", arr("c01_arith.cpp", N1, N2) + arr("c02_compare.cpp", N1, N2) + arr("c03_bits.cpp", N1, N2) + arr("c05_masked.cpp", N1, N2))
check("C14", arr("c06_mask.cpp", N1, N2))
check("C15", arr("c04_loadstore.cpp", N1, N2) + arr("c07_gather.cpp", N1, N2))
check("C16", arr("c10_permute.cpp", N1, N2) + arr("c12_reduce.cpp", N1, N2, unroll=300) + arr("c11_sorted.cpp", N1, N2, libs=_SORT))
check("C17", arr("c17_arrcast.cpp", [3, 7, 8], N2, flags=["-DVP_SIZES", "-DVP_PIECES"]))
check("C18", [("c18_math.cpp",)] + arr("c18_math.cpp", [3, 8], N2))
# Trigonometric<>::sin etc. are called in the variant for the vector's ABI: SSE vectors use the SSE4.1 build, AVX vectors the AVX build
_T1 = ["-UVc_IMPL", "-DVc_IMPL=SSE4_1", "-msse4.1", "-mno-sse4.2"]
_T2 = ["-UVc_IMPL", "-DVc_IMPL=AVX", "-mno-avx2", "-mno-fma", "-mno-bmi2"]
_TRIG = [("src/trigonometric.cpp", {c: _T1 for c in ALLT if c != "Scalar"}), ("src/trigonometric.cpp", {c: _T2 for c in ALLT if c.startswith("AVX")})]
check("C19", [("c19_transc.cpp", None, None, dict(libs=_TRIG))] + arr("c19_transc.cpp", [3, 8], N2, libs=_TRIG))
check("C21", [("c21_element.cpp",)] + arr("c21_element.cpp", [3, 8], N2))
# the processor detection is compiled without special options, except that the compiled program asks for its own instruction set
_CPU = dict(libs=[("src/cpuid.cpp", ["-DVc_COMPILE_LIB"]), ("src/support_x86.cpp", ["-DVc_COMPILE_LIB"])], flags=["-DVc_COMPILE_LIB"], cpu=True)
check("C20", [("c20_cpu.cpp", None, None, _CPU)])
check("C22", [("c22_memory.cpp", None, None, dict(unroll=300))])
check("C23", [("c23_alloc.cpp",)])
check("C24", [("c24_foreach.cpp",)])
check("C25", [("c25_simdize.cpp",)])
check("C26", [("c26_subscript.cpp", ["Scalar", "SSE2", "AVX", "AVX2"])] + arr("c26_subscript.cpp", [4], [1, 2, 3, 4, 5, 8, 9, 16], q=["SSE2", "AVX2"], th=["Scalar", "SSE2", "AVX", "AVX2"]))
check("C27", [("c27_iterate.cpp", ["Scalar", "SSE2", "AVX", "AVX2"])] + arr("c27_iterate.cpp", [3, 8], [1, 2, 3, 4, 5, 7, 8, 9, 16], q=["Scalar", "SSE2", "AVX2"], th=["Scalar", "SSE2", "AVX", "AVX2"]))

# the same programs with the library's functions called instead of inlined: life times of objects end differently
_NIQ = ("C04", "C05", "C06", "C08", "C12", "C14", "C21", "C22", "C23", "C24", "C25")
for _p, _d in CHECKS.items():
    if _p in ("C10", "C20"):
        continue
    _d["units"] += [(s, [c for c in q if c == "AVX2"] if _p in _NIQ else [], [c for c in th if c in ("Scalar", "SSE2", "AVX", "AVX2")],
                     dict(o, flags=o.get("flags", []) + ["-fno-inline"], tag=(o.get("tag", "") + "noinline"))) for s, q, th, o in _d["units"]]
