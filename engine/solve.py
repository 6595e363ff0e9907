"""Decides obligations with z3 (bit-vectors + uninterpreted functions, IEEE floating point when needed) and cvc5 as a second back end."""
import time
import z3
import terms as t

stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max": 0.0, "trivial": 0, "exact": 0, "cached": 0}


class Tr:
    """translation of terms to z3; exact=True interprets floating-point nodes with the FP theory"""

    def __init__(self, exact=False, ctx=None, absmul=False):
        self.c = {}
        self.absmul = absmul    # products of variables as an uninterpreted function
        self.exact = exact
        self.side = []
        self.n = 0
        self.fns = {}
        self.fpv = {}

    def sort(self, w):
        return z3.BoolSort() if w == 0 else z3.BitVecSort(w)

    def go(self, root):
        c = self.c
        r = c.get(root.id)
        if r is not None:
            return r
        st = [root]
        while st:
            x = st[-1]
            if x.id in c:
                st.pop()
                continue
            pend = [a for a in x.args if a.id not in c]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            c[x.id] = self.one(x, [c[a.id] for a in x.args])
        return c[root.id]

    def fn(self, name, ws, w):
        f = self.fns.get((name, ws, w))
        if f is None:
            f = self.fns[(name, ws, w)] = z3.Function(name, *[self.sort(q) for q in ws], self.sort(w))
        return f

    def fp(self, bv, w):
        return z3.fpBVToFP(bv, FS[w])

    def fparg(self, x, a):
        f = self.fpv.get(x.id)
        return self.fp(a, x.w) if f is None else f

    def one(self, x, a):
        op = x.op
        w = x.w
        if op == "c":
            return z3.BitVecVal(x.p, w)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "v":
            return z3.Const(x.p, self.sort(w))
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "extract":
            return z3.Extract(x.p[0], x.p[1], a[0])
        if op == "concat":
            return z3.Concat(*reversed(a))
        if op == "sext":
            return z3.SignExt(w - x.args[0].w, a[0])
        if op == "bvnot":
            return ~a[0]
        if op == "bvand":
            return a[0] & a[1]
        if op == "bvor":
            return a[0] | a[1]
        if op == "bvxor":
            return a[0] ^ a[1]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            if self.absmul and wide_mul(x):
                return self.fn("mul", (w, w), w)(*a)
            return a[0] * a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "sdiv":
            return a[0] / a[1]
        if op == "srem":
            return z3.SRem(a[0], a[1])
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        aw = x.args[0].w
        if op == "fnan":
            e, m = t.FMT[aw]
            return z3.And(z3.Extract(m + e - 1, m, a[0]) == z3.BitVecVal(t.ones(e), e), z3.Extract(m - 1, 0, a[0]) != 0)
        if op in ("flt", "fle", "feq"):
            return self.fcmp(op, a[0], a[1], aw)
        if op == "uf":
            return self.fn("uf_" + x.p, tuple(q.w for q in x.args), w)(*a)
        if op == "fp":
            name, extra = x.p
            if not self.exact:
                return self.fn("fp_%s_%s" % (name, extra), tuple(q.w for q in x.args), w)(*a)
            return self.fpx(name, extra, w, a, [q.w for q in x.args], x)
        raise KeyError(op)

    def fcmp(self, op, a, b, w):
        e, m = t.FMT[w]

        def nan(v):
            return z3.And(z3.Extract(m + e - 1, m, v) == z3.BitVecVal(t.ones(e), e), z3.Extract(m - 1, 0, v) != 0)
        ord_ = z3.And(z3.Not(nan(a)), z3.Not(nan(b)))
        za = z3.Extract(w - 2, 0, a) == 0
        zb = z3.Extract(w - 2, 0, b) == 0
        bothz = z3.And(za, zb)
        if op == "feq":
            return z3.And(ord_, z3.Or(a == b, bothz))
        sa = z3.Extract(w - 1, w - 1, a) == 1
        sb = z3.Extract(w - 1, w - 1, b) == 1
        lt = z3.If(sa, z3.If(sb, z3.UGT(a, b), z3.BoolVal(True)), z3.If(sb, z3.BoolVal(False), z3.ULT(a, b)))
        if op == "flt":
            return z3.And(ord_, z3.Not(bothz), lt)
        return z3.And(ord_, z3.Or(bothz, lt, a == b))

    def fpx(self, name, extra, w, a, ws, x):
        RNE = z3.RNE()
        if name in ("cvt_rne", "cvt_rtz", "cvtu_rtz"):
            f = self.fparg(x.args[0], a[0])
            rm = z3.RNE() if name == "cvt_rne" else z3.RTZ()
            if name == "cvtu_rtz":
                return z3.fpToUBV(rm, f, z3.BitVecSort(w))
            r = z3.fpRoundToIntegral(rm, f)
            lo = z3.FPVal(-float(1 << (w - 1)), FS[ws[0]])
            hi = z3.FPVal(float(1 << (w - 1)), FS[ws[0]])
            ok = z3.And(z3.fpGEQ(r, lo), z3.fpLT(r, hi))
            return z3.If(ok, z3.fpToSBV(rm, f, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
        if name in ("fromsi", "fromui"):
            r = (z3.fpSignedToFP if name == "fromsi" else z3.fpUnsignedToFP)(RNE, a[0], FS[w])
            self.fpv[x.id] = r
            return z3.fpToIEEEBV(r)     # never NaN
        f = [self.fparg(q, v) for q, v in zip(x.args, a)]
        if name == "add":
            r = z3.fpAdd(RNE, *f)
        elif name == "mul":
            r = z3.fpMul(RNE, *f)
        elif name == "div":
            r = z3.fpDiv(RNE, *f)
        elif name == "sqrt":
            r = z3.fpSqrt(RNE, f[0])
        elif name == "fma":
            r = z3.fpFMA(RNE, *f)
        elif name in ("ext", "trunc"):
            r = z3.fpFPToFP(RNE, f[0], FS[w])
        elif name == "round":
            r = z3.fpRoundToIntegral({"rne": z3.RNE(), "floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rna": z3.RNA()}[extra], f[0])
        else:
            return self.fn("fp_%s_%s" % (name, extra), tuple(ws), w)(*a)
        # the payload of a NaN result is unconstrained
        self.n += 1
        self.fpv[x.id] = r
        v = z3.BitVec("fpres!%d" % self.n, w)
        self.side.append(z3.fpBVToFP(v, FS[w]) == r)
        return v


FS = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}


proved = set()       # canonical forms of conjunctions known to be unsatisfiable (variables renamed by first occurrence)


def canon(conds):
    num = {}
    nv = {}
    out = []
    for root in conds:
        st = [root]
        while st:
            x = st[-1]
            if x.id in num:
                st.pop()
                continue
            pend = [a for a in reversed(x.args) if a.id not in num]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            num[x.id] = len(num)
            p = nv.setdefault(x.p, len(nv)) if x.op == "v" else x.p
            out.append("%s %s %s %s" % (x.op, x.w, p, [num[a.id] for a in x.args]))
        out.append("> %d" % num[root.id])
    import hashlib
    return hashlib.sha256("\n".join(out).encode()).digest()


def has_fp(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fp":
            return True
        st.extend(x.args)
    return False


def wide_mul(x):
    return x.op == "mul" and x.w >= 24 and len(x.args) == 2 and all(q.op != "c" for q in x.args)


def has_wide_mul(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if wide_mul(x):
            return True
        st.extend(x.args)
    return False


def model_env(m, names):
    env = {}
    for n, w in names.items():
        if w == 0:
            v = m.eval(z3.Bool(n), model_completion=True)
            env[n] = 1 if z3.is_true(v) else 0
        else:
            v = m.eval(z3.BitVec(n, w), model_completion=True)
            env[n] = v.as_long()
    return env


def check(conds, timeout_ms, exact=False, seed=1, absmul=False):
    """conds: list of Bool terms, conjoined.  Returns (status, env)"""
    t0 = time.time()
    for c in conds:
        if c is t.FALSE:
            stats["trivial"] += 1
            return "unsat", None
    if not exact and not absmul and has_wide_mul(conds) and check(conds, min(timeout_ms, 3000), False, seed, True)[0] == "unsat":
        return "unsat", None
    tr = Tr(exact, absmul=absmul)
    zs = [tr.go(c) for c in conds if c is not t.TRUE]
    s = z3.Solver() if exact else z3.SolverFor("QF_UFBV")
    s.set("timeout", timeout_ms)
    s.set("random_seed", seed)
    for z in tr.side:
        s.add(z)
    for z in zs:
        s.add(z)
    r = s.check()
    dt = time.time() - t0
    stats["queries"] += 1
    stats["time"] += dt
    stats["max"] = max(stats["max"], dt)
    if exact:
        stats["exact"] += 1
    st = str(r)
    stats[st] = stats.get(st, 0) + 1
    if absmul:
        return st, None     # only "unsat" means something
    if st == "sat":
        return "sat", model_env(s.model(), t.free_vars(conds))
    if st == "unknown" and not exact and timeout_ms >= 4000:
        r = cvc5_check(conds, timeout_ms)
        if r is not None:
            stats["unknown"] -= 1
            stats[r[0]] += 1
            return r
    return st, None


def cvc5_check(conds, timeout_ms):
    """second opinion through SMT-LIB text"""
    try:
        import cvc5
    except ImportError:
        return None
    t0 = time.time()
    tr = Tr(False)
    s = z3.Solver()
    for c in conds:
        s.add(tr.go(c))
    txt = s.to_smt2()
    names = t.free_vars(conds)
    sl = cvc5.Solver()
    sl.setOption("tlimit-per", str(timeout_ms))
    sl.setOption("produce-models", "true")
    sl.setLogic("QF_UFBV")
    try:
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace("(check-sat)", ""), "q")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            if "set-info" in str(cmd) or "set-logic" in str(cmd):
                continue
            cmd.invoke(sl, sm)
        r = sl.checkSat()
    except Exception as e:      # an error is never an answer
        return None
    stats["time"] += time.time() - t0
    if r.isUnsat():
        return "unsat", None
    if r.isSat():
        env = {}
        for d in sm.getDeclaredTerms():
            n = str(d).strip("|")
            if n in names:
                v = sl.getValue(d)
                env[n] = int(v.getBitVectorValue(10)) if d.getSort().isBitVector() else int(v.getBooleanValue())
        return "sat", env
    return None
