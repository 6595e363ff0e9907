"""Runs one check: compiles its harnesses from the current /repo to LLVM IR, executes them symbolically, discharges the
obligations with the solver, replays counterexamples against the real code (g++), writes the evidence file."""
import argparse
import fcntl
import glob
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

IMPL = {
    "Scalar": ("Scalar", "-mno-sse3".split()),
    "SSE2": ("SSE2", []),
    "SSE3": ("SSE3", ["-msse3"]),
    "SSSE3": ("SSSE3", ["-mssse3"]),
    "SSE4_1": ("SSE4_1", ["-msse4.1"]),
    "SSE4_2": ("SSE4_2", ["-msse4.2"]),
    "SSE4_2P": ("SSE4_2+POPCNT", ["-msse4.2", "-mpopcnt"]),
    "AVX": ("AVX", ["-mavx"]),
    "AVXP": ("AVX+POPCNT", ["-mavx", "-mpopcnt"]),
    "AVX2": ("AVX2+FMA+BMI2+POPCNT+F16C", ["-mavx2", "-mfma", "-mbmi", "-mbmi2", "-mpopcnt", "-mlzcnt", "-mf16c"]),
    "AVX2N": ("AVX2", ["-mavx2"]),
}
IRFLAGS = ("-std=c++14 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fwrapv -fno-strict-aliasing "
           "-fno-math-errno -fno-stack-protector -fno-threadsafe-statics -DNDEBUG -w -fno-discard-value-names "
           "-mllvm -instcombine-code-sinking=0").split()


def vp_flags(cfg):
    impl, mf = IMPL[cfg]
    return ["-DVc_IMPL=" + impl, "-DVP_CFG_" + cfg, '-DVP_CFG="%s"' % cfg, "-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + mf


# ------------------------------------------------------------------ worker side
_mods = {}


class _Alarm(Exception):
    pass


def _on_alarm(*a):
    raise _Alarm()


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


CPU_IR = """
declare void @vp_cpuid(i32, i32, ptr)
declare void @vp_xgetbv(i32, ptr)
define internal { i32, i32, i32, i32 } @vp_asm_cpuid(i32 %leaf, i32 %sub) noinline {
  %p = alloca [4 x i32], align 16
  call void @vp_cpuid(i32 %leaf, i32 %sub, ptr %p)
  %a = load i32, ptr %p, align 4
  %pb = getelementptr inbounds i32, ptr %p, i64 1
  %b = load i32, ptr %pb, align 4
  %pc = getelementptr inbounds i32, ptr %p, i64 2
  %c = load i32, ptr %pc, align 4
  %pd = getelementptr inbounds i32, ptr %p, i64 3
  %d = load i32, ptr %pd, align 4
  %r0 = insertvalue { i32, i32, i32, i32 } poison, i32 %a, 0
  %r1 = insertvalue { i32, i32, i32, i32 } %r0, i32 %b, 1
  %r2 = insertvalue { i32, i32, i32, i32 } %r1, i32 %c, 2
  %r3 = insertvalue { i32, i32, i32, i32 } %r2, i32 %d, 3
  ret { i32, i32, i32, i32 } %r3
}
define internal i32 @vp_asm_xgetbv(i32 %i) noinline {
  %p = alloca [2 x i32], align 8
  call void @vp_xgetbv(i32 %i, ptr %p)
  %a = load i32, ptr %p, align 4
  ret i32 %a
}
define internal { i32, i32 } @vp_asm_xgetbv2(i32 %i) noinline {
  %p = alloca [2 x i32], align 8
  call void @vp_xgetbv(i32 %i, ptr %p)
  %a = load i32, ptr %p, align 4
  %pb = getelementptr inbounds i32, ptr %p, i64 1
  %b = load i32, ptr %pb, align 4
  %r0 = insertvalue { i32, i32 } poison, i32 %a, 0
  %r1 = insertvalue { i32, i32 } %r0, i32 %b, 1
  ret { i32, i32 } %r1
}
"""


def cpu_ir(path):
    """cpuid and xgetbv instructions become calls of the harness's vp_cpuid and vp_xgetbv"""
    with open(path) as f:
        s = f.read()
    s0 = s
    s = re.sub(r'asm (?:sideeffect )?"cpuid", "={ax},={bx},={cx},={dx},(?:{ax}|0),(?:{cx}|2),[^"]*"\(', "@vp_asm_cpuid(", s)
    s = re.sub(r'asm (?:sideeffect )?"cpuid", "={ax},={bx},={cx},={dx},(?:{ax}|0)(?:,~[^"]*)?"\((i32 [^)]*)\)', r"@vp_asm_cpuid(\1, i32 0)", s)
    s = re.sub(r'i32 asm (?:sideeffect )?"xgetbv", "={ax},{cx}(?:,~[^"]*)?"\(', "i32 @vp_asm_xgetbv(", s)
    s = re.sub(r'{ i32, i32 } asm (?:sideeffect )?"xgetbv", "={ax},={dx},{cx}(?:,~[^"]*)?"\(', "{ i32, i32 } @vp_asm_xgetbv2(", s)
    if s != s0:
        x = CPU_IR
        for n in ("vp_cpuid", "vp_xgetbv"):
            if re.search(r"^define .*@%s\(" % n, s, re.M):
                x = re.sub(r"declare void @%s\(.*\n" % n, "", x)
        s += x
        with open(path, "w") as f:
            f.write(s)


def cpu_asm(cmd, o):
    """the same for a g++ build: compile to assembler, replace the instructions, assemble"""
    r = sh(cmd + ["-mno-red-zone", "-S", "-o", o + ".s"])
    if r.returncode == 0:
        with open(o + ".s") as f:
            s = f.read()
        s = re.sub(r"(?m)^\s*(cpuid|xgetbv)\s*$", r"\tcall \1_stub_", s)
        s = s.replace("call cpuid_stub_", "call vp_cpuid_stub").replace("call xgetbv_stub_", "call vp_xgetbv_stub")
        with open(o + ".s", "w") as f:
            f.write(s)
        r = sh(["gcc", "-c", "-o", o, o + ".s"])
    return r


def do_compile(job):
    """job: dict(src, cfg, out, extra, persona) -> (ok, error, seconds, harness names)"""
    t0 = time.time()
    cmd = ["clang++", "-DVP_IR"] + IRFLAGS + vp_flags(job["cfg"]) + job.get("extra", []) + ["-S", "-emit-llvm", "-o", job["out"], job["src"]]
    try:
        r = sh(cmd)
    except subprocess.TimeoutExpired:
        return dict(ok=False, err="compile timeout", secs=time.time() - t0, names=[])
    if r.returncode:
        return dict(ok=False, err=r.stderr.decode(errors="replace")[-3000:], secs=time.time() - t0, names=[], cmd=" ".join(cmd))
    names = []
    if job.get("opt", {}).get("cpu"):
        cpu_ir(job["out"])
    with open(job["out"]) as f:
        for l in f:
            if l.startswith("define "):
                m = re.search(r"@(H_\w+)\(", l)
                if m:
                    names.append(m.group(1))
    for src, out, extra in job.get("libs", []):
        lock = open(out + ".lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            lock.close()
            continue
        c2 = ["clang++"] + IRFLAGS + vp_flags(job["cfg"]) + ["-include", os.path.join(VERIF, "harness/vp_prelude.h")] + extra + \
            ["-S", "-emit-llvm", "-o", out + ".tmp", src]
        r = sh(c2)
        if r.returncode == 0:
            if job.get("opt", {}).get("cpu"):
                cpu_ir(out + ".tmp")
            os.rename(out + ".tmp", out)
        lock.close()
        if r.returncode:
            return dict(ok=False, err=r.stderr.decode(errors="replace")[-3000:], secs=time.time() - t0, names=[], cmd=" ".join(c2))
    if job.get("native"):
        # the encoded program itself, lowered to machine code, for validating the encoding
        objs = []
        for p in [job["out"]] + [o for _, o, _ in job.get("libs", [])]:
            r = sh(["clang", "-w", "-O0", "-c", "-o", "%s.%s.o" % (job["out"], os.path.basename(p)), p] + IMPL[job["cfg"]][1])
            if r.returncode:
                return dict(ok=True, names=names, secs=time.time() - t0, native=None, err=r.stderr.decode()[-500:])
            objs.append("%s.%s.o" % (job["out"], os.path.basename(p)))
        exe = job["out"] + ".exe"
        r = sh(["g++", "-rdynamic", "-o", exe] + objs + [job["rt"], "-ldl", "-lm"])
        if r.returncode:
            return dict(ok=True, names=names, secs=time.time() - t0, native=None, err=r.stderr.decode()[-500:])
        return dict(ok=True, names=names, secs=time.time() - t0, native=exe)
    return dict(ok=True, names=names, secs=time.time() - t0, native=None)


def load_mod(path):
    import irparse
    m = _mods.get(path)
    if m is None:
        if len(_mods) > 12:
            _mods.clear()
        m = _mods[path] = irparse.Module(path)
    return m


def write_input(path, ex, env):
    with open(path, "w") as f:
        for name, vs, es in ex.inputs:
            d = 8 if isinstance(es, tuple) else es * 2
            f.write(name + " " + " ".join("%0*x" % (d, env.get(v.p, 0)) for v in vs) + "\n")


def input_dict(ex, env):
    out = {}
    for name, vs, es in ex.inputs:
        if isinstance(es, tuple):
            out[name] = [env.get(v.p, 0) + es[1] for v in vs]
        else:
            out[name] = ["0x%0*x" % (es * 2, env.get(v.p, 0)) for v in vs]
    return out


SPEC = {32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fffffff, 0xffffffff, 1, 2, 3, 0x40490fdb, 0x00000001,
             0x42280000, 0x4b800000, 0x3effffff],
        64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0x7ff8000000000000, 1, (1 << 64) - 1,
             0x400921fb54442d18, 0x41dfffffffc00000, 0x4024000000000000],
        16: [0, 1, 0x8000, 0x7fff, 0xffff, 2, 100], 8: [0, 1, 0x80, 0x7f, 0xff]}


def rand_env(ex, rng):
    env = {}
    style = rng.random()
    for name, vs, es in ex.inputs:
        for v in vs:
            w = v.w
            r = rng.random()
            if w in SPEC and r < 0.4:
                x = rng.choice(SPEC[w])
            elif w in (32, 64) and r < 0.6:
                import struct
                f = rng.choice([rng.uniform(-100, 100), float(rng.randint(-50, 50)), rng.uniform(-1, 1), rng.uniform(-1e6, 1e6)])
                x = struct.unpack("<I" if w == 32 else "<Q", struct.pack("<f" if w == 32 else "<d", f))[0]
            elif r < 0.75:
                x = rng.randint(0, 20)
            else:
                x = rng.getrandbits(w)
            env[v.p] = x & ((1 << w) - 1)
    return env


def do_harness(job):
    import terms as t
    import exec as E
    import solve
    t0 = time.time()
    res = dict(name=job["name"], cfg=job["ctag"], src=job["src"], fails=[], undecided=[], error=None, checks=0, obligations=0, trivial=0,
               discharged=0, states=0, transitions=0, steps=0, functions=0, funcs=[], validated=0, mismatches=[], vac=[], queries=0)
    for k in solve.stats:
        solve.stats[k] = 0
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(job["limit"])
    try:
        t.reset()
        mods = [load_mod(p) for p in job["mods"]]
        deadline = t0 + job["limit"] - 5

        def feas(g):
            r, env = solve.check(list(ex.assumes) + [g], 2000)
            return r != "unsat"
        ex = E.Executor(mods, feas, max_unroll=job.get("unroll", 80), max_steps=job.get("steps", 3000000))
        g = ex.run(job["name"])
        res["checks"] = ex.nchecks
        res["obligations"] = ex.nobl
        res["states"] = ex.nstates
        res["transitions"] = ex.nedges
        res["steps"] = ex.steps
        res["funcs"] = sorted(ex.funcs_seen)
        res["maxiter"] = ex.maxiter
        res["exec_s"] = time.time() - t0
        res["trivial"] = ex.nobl - len(ex.obl)
        # vacuity: the end of the harness and every check must be reachable
        if ex.nchecks == 0:
            res["vac"].append("no check executed")
        seen = set()
        for msg, gg, na in ex.reaches + [("end", g, len(ex.assumes))]:
            k = (gg.id, na)
            if k in seen:
                continue
            seen.add(k)
            if gg is t.TRUE and na == 0:
                continue
            r, env = solve.check(ex.assumes[:na] + [gg], 5000)
            if r == "unsat":
                res["vac"].append("check %r is unreachable" % msg)
        # obligations
        nvar = 0
        for o in ex.obl:
            if time.time() > deadline:
                res["undecided"].append((o.msg, "time budget"))
                continue
            bad = o.bad
            if o.na and bad is not t.FALSE:
                bad = t.subst([bad], t.facts(ex.assumes[:o.na]))[0]
            conds = ex.assumes[:o.na] + [bad]
            if bad is t.FALSE:
                res["discharged"] += 1
                continue
            st, env = decide(t, solve, ex, o, job, bad, deadline)
            if st == "unsat":
                res["discharged"] += 1
                continue
            if st == "unknown":
                res["undecided"].append((o.msg, "solver gave no answer"))
                # still worth a concrete search
                env = {}
            f = dict(msg=o.msg, kind=o.kind, where=o.where, status=st, env=env and {k: v for k, v in env.items()} or {})
            p = os.path.join(job["dir"], "cex-%s-%s-%d.in" % (job["name"], job["ctag"], len(res["fails"])))
            write_input(p, ex, env or {})
            f["input"] = p
            f["values"] = input_dict(ex, env or {})
            res["fails"].append(f)
            f.pop("env")
            if len(res["fails"]) >= 6:
                break
        if job.get("native"):
            validate(t, ex, job, res)
        res["sample"] = "%s [%s]: %d checks, %d obligations, %d decided by rewriting, inputs %s" % (
            job["name"], job["cfg"], ex.nchecks, ex.nobl, res["trivial"], ",".join("%s:%d" % (n, len(v)) for n, v, e in ex.inputs))
    except _Alarm:
        res["undecided"].append((job["name"], "time limit"))
    except E.Budget as e:
        res["undecided"].append((job["name"], str(e)))
    except E.Unsupported as e:
        res["error"] = "unsupported: %s" % e
    except Exception as e:
        res["error"] = traceback.format_exc()[-2000:]
    finally:
        signal.alarm(0)
    res["secs"] = time.time() - t0
    res["solver"] = dict(solve.stats)
    return res


def parts_of(t, bad):
    """bad == disjunction of the returned terms"""
    if bad.op == "not" and bad.args[0].op == "and":
        return [t.not_(a) for a in bad.args[0].args]
    if bad.op == "and":
        for i, a in enumerate(bad.args):
            if a.op == "not" and a.args[0].op == "and" and len(a.args[0].args) > 1:
                rest = [x for k, x in enumerate(bad.args) if k != i]
                return [t.and_b(*(rest + [t.not_(y)])) for y in a.args[0].args]
    return [bad]


def decide(t, solve, ex, o, job, bad, deadline):
    """unsat: the obligation holds for all inputs; sat*: candidate counterexample; unknown"""
    worst = ("unsat", None)
    ab = t.probe_lemmas(ex.assumes[:o.na] + [bad])
    if ab is not None and solve.check(ab, int(job["qt"] * 1000), False, job["seed"])[0] == "unsat":
        return "unsat", None       # without looking into the comparisons: holds for every interpretation of them
    parts = parts_of(t, bad)
    if len(parts) > 1 and not solve.has_fp([bad]):
        st, env = solve.check(ex.assumes[:o.na] + [bad], 3000, False, job["seed"])
        if st != "unknown":
            return st, env
    for part in parts:
        if part is t.FALSE:
            continue
        conds = ex.assumes[:o.na] + [part]
        key = solve.canon(conds)
        if key in solve.proved:
            solve.stats["cached"] += 1
            continue
        left = deadline - time.time()
        if left < 0:
            worst = ("unknown", None)
            break
        st, env = solve.check(conds, int(min(job["qt"], max(2, left)) * 1000), False, job["seed"])
        if st == "unsat":
            solve.proved.add(key)
            continue
        if solve.has_fp(conds):
            # try a cheap concrete confirmation first
            if not (st == "sat" and concretely_bad(t, ex, o, env)):
                left = deadline - time.time()
                st2, e2 = solve.check(conds, int(min(job["qtx"], max(2, left)) * 1000), True, job["seed"])
                if st2 == "unsat":
                    solve.proved.add(key)
                    continue
                if st2 == "sat":
                    return "sat-exact", e2
                if st == "sat":
                    worst = ("sat-uf", env)
                    continue
        if st == "sat":
            return "sat", env
        if worst[0] == "unsat":
            worst = ("unknown", None)
    return worst


def concretely_bad(t, ex, o, env):
    try:
        vals = t.evaluate(ex.assumes[:o.na] + [o.bad], env)
        return all(vals)
    except Exception:
        return False


def validate(t, ex, job, res):
    """concrete inputs through the encoding and through the compiled program: the observed values must agree"""
    rng = random.Random(hash((job["seed"], job["name"])) if False else "%s/%s" % (job["seed"], job["name"]))
    names = set(v.p for _, vs, _ in ex.inputs for v in vs)
    done = 0
    for attempt in range(12):
        if done >= 2:
            break
        env = rand_env(ex, rng)
        if attempt >= 6:
            for k in env:
                env[k] = rng.choice([0, 1, 2, 3]) & 3
        try:
            if not all(t.evaluate(ex.assumes, env)):
                continue
        except Exception:
            pass
        p = os.path.join(job["dir"], "val-%s-%s.in" % (job["name"], job["ctag"]))
        write_input(p, ex, env)
        try:
            r = sh([job["native"], job["name"], p], timeout=60)
        except subprocess.TimeoutExpired:
            continue
        out = r.stdout.decode(errors="replace").split("\n")
        if any(l.startswith("ASSUME") for l in out):
            continue
        if any(re.match(r"FAIL (MEMORY access|ABORT|CRASH)", l) for l in out) and \
                any(f["kind"] in ("mem", "align", "abort", "ub") for f in res["fails"]):
            continue   # the run ends early where the encoding reports a failure too
        nat = {}
        for l in out:
            if l.startswith("OBS "):
                _, kind, val, msg = (l + " ").split(" ", 3)
                nat.setdefault(msg.rstrip(), []).append((kind, val))
        idx = {}
        n = 0
        for gd, msg, kind, vals in ex.observed:
            try:
                if not t.evaluate([gd], env)[0]:
                    continue
            except Exception:
                idx.setdefault(msg, []).append(None)
                continue
            m = msg.rstrip()
            i = idx.setdefault(m, [])
            try:
                fv = t.free_vars(vals)
                if not set(fv) <= names:
                    raise t.Uneval("undef")
                e = t.evaluate(vals, env)
            except Exception:
                i.append(None)
                continue
            i.append((kind, vals, e))
        for m, lst in idx.items():
            nv = nat.get(m, [])
            if len(nv) != len(lst):
                res["mismatches"].append("%s: %d observations natively, %d in the encoding" % (m, len(nv), len(lst)))
                continue
            exp = []
            for q in lst:
                if q is None:
                    exp = None
                    break
                kind, vals, e = q
                if kind == "b":
                    exp.append((kind, "%02x" % e[0]))
                else:
                    exp.append((kind, ",".join("%0*x" % (v.w // 4, x) for v, x in zip(vals, e))))
            if exp is None:
                continue
            if sorted(map(norm, exp)) != sorted(map(norm, nv)):
                res["mismatches"].append("%s: native %s encoding %s  (%s)" % (m, nv[:2], exp[:2], open(p).read().strip()[:300]))
            n += 1
        if n:
            done += 1
            res["validated"] += 1


def norm(o):
    kind, s = o
    if kind in ("e1", "e2"):
        out = []
        for h in s.split(","):
            v = int(h, 16)
            w = len(h) * 4
            import terms as t
            if w in t.FMT and t.is_nan_bits(v, w):
                h = "nan"
            out.append(h)
        s = ",".join(out)
    return kind, s


def do_native(job):
    """g++ build of a harness file for replays"""
    exe = job["exe"]
    cmd = ["g++", "-std=c++14", job.get("O", "-O1"), "-g0", "-w", "-DNDEBUG", "-ffp-contract=off", "-fwrapv", "-fno-strict-aliasing", "-fPIC", "-rdynamic"] + \
        job.get("gxx", []) + vp_flags(job["cfg"]) + job.get("extra", []) + ["-o", exe, job["src"]]
    objs = []
    for i, (src, out, extra) in enumerate(job.get("libs", [])):
        o = exe + ".%d.o" % i
        c = ["g++", "-std=c++14", "-O1", "-w", "-DNDEBUG", "-ffp-contract=off", "-fPIC"] + vp_flags(job["cfg"]) + extra + [src]
        r = cpu_asm(c, o) if job.get("cpu") else sh(c + ["-c", "-o", o])
        if r.returncode:
            return False, r.stderr.decode(errors="replace")[-2000:]
        objs.append(o)
    cmd += objs + [job["rt"], "-ldl", "-lm"]
    r = sh(cmd)
    return r.returncode == 0, r.stderr.decode(errors="replace")[-2000:]


def do_replay(job):
    """try to reproduce a solver counterexample with the g++ build; returns description or None"""
    f = job["fail"]
    exe = job["exe"]
    want = f["msg"]
    mem = f["kind"] in ("mem", "align", "abort", "ub")

    def hit(out):
        if mem:
            return any(l.startswith("FAIL") for l in out)
        return any(l == "FAIL " + want for l in out)
    for shift in (0, 1, 2, 3):
        try:
            r = sh([exe, job["name"], f["input"], str(shift)], timeout=90)
        except subprocess.TimeoutExpired:
            return dict(how="does not terminate", out=[], shift=shift)
        out = r.stdout.decode(errors="replace").split("\n")
        if hit(out):
            return dict(how="solver model", out=[l for l in out if l.startswith(("FAIL", "DIFF"))][:8], shift=shift)
    # the float-free or unconstrained part of the model may need other values: look around it
    try:
        r = sh([exe, job["name"], f["input"], "search", str(job["n"]), str(job["seed"]), "*" if mem else want], timeout=120)
    except subprocess.TimeoutExpired:
        return None
    out = r.stdout.decode(errors="replace").split("\n")
    if any(l.startswith("FOUND") for l in out):
        with open(f["input"], "w") as g:
            sh_ = 0
            for l in out:
                if l.startswith("IN "):
                    g.write(l[3:] + "\n")
                if l.startswith("SHIFT"):
                    sh_ = int(l.split()[1])
        r = sh([exe, job["name"], f["input"], str(sh_)], timeout=90)
        o2 = r.stdout.decode(errors="replace").split("\n")
        return dict(how="concretised from the solver's candidate", out=[l for l in o2 if l.startswith(("FAIL", "DIFF"))][:8] or out[:1], shift=sh_)
    if mem and not exe.endswith(".O0"):
        # the optimiser may fold an aligned access into an instruction without an alignment requirement: the same code without optimisation
        import fcntl
        nj = dict(job["njob"], exe=exe + ".O0", O="-O0")
        with open(nj["exe"] + ".lock", "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            if not os.path.exists(nj["exe"]):
                try:
                    do_native(nj)
                except subprocess.TimeoutExpired:
                    return None
        if os.path.exists(nj["exe"]):
            r = do_replay(dict(job, exe=nj["exe"]))
            if r:
                r["how"] += ", compiled with -O0"
                r["O"] = "-O0"
            return r
    return None


def _task(x):
    kind, job = x
    try:
        if kind == "compile":
            return kind, job, do_compile(job)
        if kind == "harness":
            return kind, job, do_harness(job)
        if kind == "native":
            return kind, job, do_native(job)
        if kind == "replay":
            return kind, job, do_replay(job)
    except BaseException as e:
        return kind, job, e


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def unit_libs(opt, c, d):
    """(source, IR file, flags) of the /repo sources linked with a harness"""
    libs = []
    for l in ([] if opt.get("cpu") else ["src/const.cpp"]) + list(opt.get("libs", [])):
        lp, le = l if isinstance(l, tuple) else (l, [])
        if isinstance(le, dict):
            le = le.get(c)
            if le is None:
                continue
        lo = os.path.join(d, "lib.%s.%s.%s.ll" % (os.path.basename(lp), c, "".join(x.strip("-") for x in le)))
        libs.append((os.path.join(REPO, lp), lo, le))
    return libs


# ------------------------------------------------------------------ driver
class Check:
    def __init__(self, pid, tier, seed, only=None, cfgs=None, verbose=False, procs=None):
        from checks import CHECKS
        self.pid = pid
        self.spec = CHECKS[pid]
        self.tier = tier
        self.seed = seed
        self.only = only
        self.cfgs = cfgs
        self.verbose = verbose
        self.procs = procs or int(os.environ.get("VP_PROCS", os.cpu_count() or 8))

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and l[0] == "{":
                    out.append(json.loads(l))
        return [k for k in out if k.get("property") == self.pid and k.get("status") != "fixed"]

    def run(self):
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="vp-%s-" % self.pid)
        try:
            return self._run(d, t0)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, d, t0):
        rt = os.path.join(d, "rt.o")
        r = sh(["g++", "-O1", "-fPIC", "-w", "-c", "-include", "cmath", "-o", rt, os.path.join(VERIF, "harness/vp_rt.cpp")])
        if r.returncode:
            print(r.stderr.decode())
            return 2
        jobs = []
        rng = random.Random(self.seed)
        units = []
        for src, cfgs_q, cfgs_t, opt in self.spec["units"]:
            cfgs = cfgs_q if self.tier == "quick" else (cfgs_t or cfgs_q)
            if self.cfgs and cfgs:
                cfgs = [c for c in cfgs if c in self.cfgs] or ([c for c in self.cfgs] if len(self.cfgs) == 1 else [])
            for c in cfgs:
                units.append((src, c, opt))
        # configurations whose encoding is validated against native execution in this run
        if self.tier == "quick":
            bysrc = {}
            for u in units:
                bysrc.setdefault((u[0], u[2].get("tag")), []).append(u)
            val = set()
            for s, us in bysrc.items():
                val.add(s + (rng.choice(us)[1],))
        else:
            val = set((u[0], u[2].get("tag"), u[1]) for u in units)
        results = []
        fails = []
        errors = []
        self.log = []
        self.unexplored = None
        pool = mp.Pool(self.procs, _init, maxtasksperchild=int(os.environ.get("VP_RECYCLE", "12")))
        pending = [0]
        import queue
        q = queue.Queue()

        def submit(kind, job):
            pending[0] += 1
            pool.apply_async(_task, ((kind, job),), callback=q.put, error_callback=lambda e: q.put(("error", None, e)))
        natives = {}
        waiting = {}
        ncomp = 0
        comp_s = 0
        limit = self.spec.get("limit", {}).get(self.tier, 120 if self.tier == "quick" else 600)
        qt = 20 if self.tier == "quick" else 120
        for src, c, opt in units:
            path = os.path.join(VERIF, "harness", src)
            base = "%s.%s" % (os.path.basename(src), c) + ("" if not opt.get("tag") else "." + opt["tag"])
            out = os.path.join(d, base + ".ll")
            libs = unit_libs(opt, c, d)
            submit("compile", dict(src=path, cfg=c, ctag=c + ("" if not opt.get("tag") else "." + opt["tag"]), out=out, extra=opt.get("flags", []), libs=libs, native=(src, opt.get("tag"), c) in val and not opt.get("noval"),
                                   rt=rt, opt=opt))
        nvalidate = 0
        stop_after = 40
        hard = t0 + self.spec.get("wall", {}).get(self.tier, 800 if self.tier == "quick" else 7200)
        while pending[0]:
            try:
                kind, job, r = q.get(timeout=max(1, hard - time.time()))
            except queue.Empty:
                m = "wall clock budget exhausted with %d tasks pending" % pending[0]
                if self.tier == "quick" and pending[0] > len(results) // 10:
                    errors.append(m)
                else:
                    self.unexplored = m
                break
            pending[0] -= 1
            if isinstance(r, BaseException):
                errors.append("%s: %r" % (kind, r))
                continue
            if kind == "compile":
                comp_s += r["secs"]
                ncomp += 1
                if not r["ok"]:
                    errors.append("compile %s [%s] failed:\n%s\n%s" % (job["src"], job["cfg"], r.get("cmd", ""), r["err"]))
                    continue
                if r.get("err"):
                    self.log.append("native of IR: " + r["err"])
                names = [n for n in r["names"] if not self.only or re.search(self.only, n)]
                skip = job["opt"].get("skip", {}).get(job["cfg"], [])
                for n in names:
                    if n in skip:
                        continue
                    submit("harness", dict(name=n, cfg=job["cfg"], ctag=job["ctag"], src=job["src"], mods=[job["out"]] + [o for _, o, _ in job["libs"]],
                                           dir=d, seed=self.seed, limit=job["opt"].get("limit", limit), qt=qt, qtx=job["opt"].get("qtx", qt), native=r.get("native"), cjob=job,
                                           unroll=job["opt"].get("unroll", 80)))
            elif kind == "harness":
                results.append(r)
                if self.verbose:
                    print("%-40s %-8s %6.2fs exec %5.2fs ob %d nontriv %d q %d st %s%s%s%s" % (
                        r["name"], r["cfg"], r["secs"], r.get("exec_s", 0), r["obligations"], r["obligations"] - r["trivial"], r["solver"]["queries"],
                        "%.1f" % r["solver"]["time"],
                        "" if not r["error"] else " ERROR " + r["error"], "" if not r["undecided"] else " UNDEC %s" % r["undecided"][:3],
                        "" if not r["fails"] else " FAILS " + "; ".join("%s (%s)" % (f["msg"], f["status"]) for f in r["fails"])))
                    for m in r["mismatches"]:
                        print("   MISMATCH", m)
                    for m in r["vac"]:
                        print("   VACUOUS", m)
                    sys.stdout.flush()
                if r["fails"] and len(fails) < stop_after:
                    key = (job["src"], job["cfg"], job["cjob"]["opt"].get("tag"))
                    for f in r["fails"]:
                        fails.append((job, f))
                        exe = os.path.join(d, "native.%s.%s" % (os.path.basename(job["src"]), job["ctag"]))
                        nj = dict(exe=exe, src=job["src"], cfg=job["cfg"], extra=job["cjob"]["extra"], libs=job["cjob"]["libs"], rt=rt,
                                  key=key, gxx=job["cjob"]["opt"].get("gxx", []), cpu=job["cjob"]["opt"].get("cpu"))
                        rj = dict(fail=f, exe=exe, name=job["name"], cfg=job["cfg"], src=job["src"], seed=self.seed,
                                  n=4000 if self.tier == "quick" else 100000, njob=nj)
                        st = natives.get(key)
                        if st is None:
                            natives[key] = "building"
                            waiting[key] = [rj]
                            submit("native", nj)
                        elif st == "building":
                            waiting[key].append(rj)
                        elif st == "ok":
                            submit("replay", rj)
                        else:
                            f["replay_error"] = st
            elif kind == "native":
                ok, err = r
                natives[job["key"]] = "ok" if ok else "g++ build failed: " + err[-300:]
                for rj in waiting.pop(job["key"]):
                    if ok:
                        submit("replay", rj)
                if not ok:
                    errors.append(natives[job["key"]])
            elif kind == "replay":
                # the fail object was copied to the worker; store by input path
                job["result"] = r
                for jb, f in fails:
                    if f["input"] == job["fail"]["input"]:
                        f["repro"] = r
                        f["exe"] = job["exe"]
        pool.terminate()
        pool.join()
        return self.report(d, t0, results, fails, errors, comp_s, ncomp)

    def report(self, d, t0, results, fails, errors, comp_s, ncomp):
        known = self.known()
        vio = []
        kfhit = {}
        unrepro = []
        for job, f in fails:
            if not f.get("repro"):
                unrepro.append((job, f))
                continue
            k = next((k for k in known if re.fullmatch(k["harness"], job["name"]) and re.fullmatch(k.get("cfg", ".*"), job["cfg"])
                      and re.fullmatch(k.get("msg", ".*"), f["msg"])), None)
            if k:
                kfhit.setdefault(k["id"], (k, []))[1].append((job, f))
                continue
            vio.append((job, f))
        for kid, (k, l) in sorted(kfhit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, kid, k["what"]))
        und = []
        nerr = 0
        for r in results:
            if r["error"]:
                nerr += 1
                und.append("%s [%s]: %s" % (r["name"], r["cfg"], r["error"]))
            for m, why in r["undecided"]:
                und.append("%s [%s] %s: %s" % (r["name"], r["cfg"], m, why))
            for m in r["vac"]:
                errors.append("%s [%s] vacuous: %s" % (r["name"], r["cfg"], m))
            for m in r["mismatches"]:
                errors.append("%s [%s] encoding differs from native execution: %s" % (r["name"], r["cfg"], m))
        if nerr > len(results) // 10:
            errors.append("%d of %d harnesses could not be encoded" % (nerr, len(results)))
        if self.unexplored:
            und.append(self.unexplored)
        for job, f in unrepro:
            und.append("%s [%s] %s: solver candidate (%s) not reproduced %s %s" % (
                job["name"], job["ctag"], f["msg"], f["status"], f.get("replay_error", ""), json.dumps(f["values"])[:300]))
        S = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0, exact=0, max=0.0)
        for r in results:
            for k in S:
                S[k] = max(S[k], r["solver"].get(k, 0)) if k == "max" else S[k] + r["solver"].get(k, 0)
        funcs = {}
        for r in results:
            for f in r["funcs"]:
                funcs[f] = funcs.get(f, 0) + 1
        dem = demangle([f[1:] for f in funcs])
        tot = lambda k: sum(r[k] for r in results)
        rng = random.Random(self.seed)
        samples = [r["sample"] for r in results if r.get("sample")]
        rng.shuffle(samples)
        cfgs = sorted(set(r["cfg"].split(".")[0] for r in results))
        cov = dict(
            states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"), samples=samples[:6],
            harnesses=len(results), configurations=cfgs, checks=tot("checks"), obligations=tot("obligations"),
            decided_by_rewriting=tot("trivial"), decided_by_solver=tot("discharged"), instructions_executed=tot("steps"),
            solver_queries=S["queries"], solver_seconds=round(S["time"], 2), solver_max_seconds=round(S["max"], 2), solver_unsat=S["unsat"],
            solver_sat=S["sat"], solver_unknown=S["unknown"], exact_fp_queries=S["exact"], compile_seconds=round(comp_s, 1),
            translation_units=ncomp, functions_encoded=len(funcs), functions=sorted(dem)[:400],
            max_loop_iterations=max([r.get("maxiter", 0) for r in results] or [0]),
            bounds=self.spec.get("bounds", ""), undecided=und[:50], undecided_count=len(und), errors=errors[:20],
            meaning="states: symbolic basic-block states; transitions: control-flow edges executed symbolically")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.spec.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(vio))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for e in errors[:20]:
            print("ERROR", e)
        for u in und[:20]:
            print("UNDECIDED", u)
        print("%s %s: %d harnesses on %s, %d obligations (%d by rewriting, %d by solver), %d queries %.1fs, %d traces validated, %.1fs" % (
            self.pid, self.tier, len(results), "/".join(cfgs), cov["obligations"], cov["decided_by_rewriting"], cov["decided_by_solver"],
            S["queries"], S["time"], cov["traces_validated_against_impl"], time.time() - t0))
        if vio:
            rd = os.path.join(os.environ.get("VP_REPLAY_DIR", os.path.join(VERIF, "evidence", "replay")), self.pid)
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd, exist_ok=True)
            for i, (job, f) in enumerate(vio[:10]):
                base = os.path.join(rd, "%02d-%s-%s" % (i, job["name"], job["ctag"]))
                shutil.copy(f["input"], base + ".in")
                with open(base + ".txt", "w") as g:
                    g.write("property %s\nharness %s in %s\nconfiguration %s (%s)\nviolated: %s (%s, in %s)\nfound by: %s, %s\n" % (
                        self.pid, job["name"], os.path.relpath(job["src"], VERIF), job["cfg"], IMPL[job["cfg"]][0], f["msg"], f["kind"], f["where"],
                        f["status"], f["repro"]["how"]))
                    g.write("inputs (solver): %s\n" % json.dumps(f["values"]))
                    g.write("inputs (replayed):\n" + open(f["input"]).read())
                    g.write("native result:\n" + "\n".join(f["repro"]["out"]) + "\n")
                    g.write("replay: %s/replay %s %s %s %s.in %d %s\n" % (VERIF, os.path.relpath(job["src"], VERIF), job["ctag"], job["name"], base, f["repro"]["shift"], f["repro"].get("O", "-O1")))
                print("VIOLATION property=%s replay=%s" % (self.pid, base + ".txt"))
                print("   %s [%s]: %s" % (job["name"], job["ctag"], f["msg"]))
                for l in f["repro"]["out"][:3]:
                    print("      " + l)
            return 1
        if errors:
            return 2
        return 0


COMMON_ASSUMPTIONS = [
    "clang 18 lowers the C++ of /repo (with GCC's preprocessor identity, -O1, no fp contraction) faithfully; undefined behaviour the front end "
    "removes is outside the claim",
    "the meaning of LLVM IR and of the x86 intrinsics is as encoded in engine/exec.py and engine/x86.py (checked against native execution on "
    "the traces counted above)",
    "IEEE-754 round to nearest even, no denormal flushing, NaN payloads not distinguished",
]


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        return [x[:160] for x in r.stdout.decode().split("\n") if x]
    except OSError:
        return names


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--cfg")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(a.pid, a.tier, seed, a.only, a.cfg.split(",") if a.cfg else None, a.v)
    sys.exit(c.run())


if __name__ == "__main__":
    main()
