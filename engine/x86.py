"""Semantics of LLVM intrinsics, x86 SIMD intrinsics, library functions and of the harness interface (vp_*)."""
import re
import terms as t
from terms import TRUE, FALSE, const, ite, and_b, or_b, not_, eq, extract, concat
from irparse import PTR, bitwidth, sizeof

_cache = {}
_rules = []


def rule(pat):
    rx = re.compile(pat + r"$")

    def deco(f):
        _rules.append((rx, f))
        return f
    return deco


def intrinsic(name):
    h = _cache.get(name)
    if h is None:
        for rx, f in _rules:
            m = rx.match(name)
            if m:
                def h(c, f=f, m=m):
                    return f(c, m)
                break
        _cache[name] = h
    return h


def lanes(f, *vs):
    if isinstance(vs[0], tuple):
        return tuple(f(*x) for x in zip(*vs))
    return f(*vs)


def b2m(b, w):
    return ite(b, const(-1, w), const(0, w))


def msb(x):
    return eq(extract(x.w - 1, x.w - 1, x), const(1, 1))


def ssat(x, n):
    """signed saturate to n bits"""
    w = x.w
    mx = const((1 << (n - 1)) - 1, w)
    mn = const(-(1 << (n - 1)), w)
    if x.op == "sext" and x.args[0].w <= n:
        return extract(n - 1, 0, x)
    if x.op == "ite" and (x.args[1].op == "c" or x.args[2].op == "c"):
        return ite(x.args[0], ssat(x.args[1], n), ssat(x.args[2], n))
    return ite(t.slt(x, mn), const(mn.p, n), ite(t.slt(mx, x), const(mx.p, n), extract(n - 1, 0, x)))


def usat(x, n):
    """signed value saturated to an unsigned n bit range"""
    w = x.w
    mx = const((1 << n) - 1, w)
    if x.op == "ite" and (x.args[1].op == "c" or x.args[2].op == "c"):
        return ite(x.args[0], usat(x.args[1], n), usat(x.args[2], n))
    if x.op == "concat" and x.args[-1].op == "c" and x.args[-1].p == 0 and x.args[-1].w >= w - n:
        return extract(n - 1, 0, x)
    return ite(msb(x), const(0, n), ite(t.slt(mx, x), const(-1, n), extract(n - 1, 0, x)))


# ------------------------------------------------------------------ generic llvm.*
@rule(r"llvm\.lifetime\.(start|end).*")
def _lifetime(c, m):
    """the contents of a local object are undefined before and after its life time"""
    p = c.v[1]
    if len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1].kind == "alloca" and p.alts[0][2] is E_NULLOFF(c):
        o = p.alts[0][1]
        c.mem.d[o.id] = [None] * o.size
        c.mem.owned.add(o.id)
    return None


def E_NULLOFF(c):
    import exec as E
    return E.NULLOFF


@rule(r"llvm\.(dbg\..*|assume|donothing|experimental\.noalias\.scope\.decl|prefetch.*|invariant\..*|sideeffect|stackrestore.*|var\.annotation.*)")
def _nop(c, m):
    return None


@rule(r"llvm\.stacksave.*")
def _ss(c, m):
    import exec as E
    return E.NULL


@rule(r"llvm\.expect.*")
def _exp(c, m):
    return c.v[0]


@rule(r"llvm\.(launder|strip)\.invariant\.group.*")
def _lig(c, m):
    return c.v[0]


@rule(r"llvm\.is\.constant.*")
def _isc(c, m):
    return FALSE


@rule(r"llvm\.objectsize.*")
def _os(c, m):
    return const(-1, c.rty[1])


@rule(r"llvm\.trap|llvm\.debugtrap|llvm\.ubsantrap")
def _trap(c, m):
    c.ex.check(c.guard, FALSE, "trap", "abort")
    c.guard = FALSE


@rule(r"llvm\.mem(cpy|move)(\.inline)?\..*")
def _memcpy(c, m):
    _do_memcpy(c, c.v[0], c.v[1], c.v[2])


def _do_memcpy(c, d, s, n):
    if n.op != "c":
        vals = c.ex._ite_vals(n)
        if vals is None:
            import exec as E
            raise E.Unsupported("memcpy with symbolic size")
        # split on the size
        for v in sorted(vals):
            if v:
                g = eq(n, const(v, n.w))
                cells = c.ex.load_cells(c.mem, s, v, and_b(c.guard, g))
                old = c.ex.load_cells(c.mem, d, v, and_b(c.guard, g))
                new = []
                for (a, i), (b, j) in zip([x or (c.ex.fresh(8), 0) for x in cells], [x or (c.ex.fresh(8), 0) for x in old]):
                    new.append((ite(g, extract(i * 8 + 7, i * 8, _tt(a)), extract(j * 8 + 7, j * 8, _tt(b))), 0))
                c.ex.store_cells(c.mem, d, new, and_b(c.guard, g))
        return
    if n.p == 0:
        return
    cells = list(c.ex.load_cells(c.mem, s, n.p, c.guard))
    c.ex.store_cells(c.mem, d, cells, c.guard)


def _tt(v):
    import exec as E
    return E.ptr_addr(v) if isinstance(v, E.Ptr) else v


@rule(r"llvm\.memset(\.inline)?\..*")
def _memset(c, m):
    _do_memset(c, c.v[0], c.v[1], c.v[2])


def _do_memset(c, p, b, n):
    if n.op != "c":
        import exec as E
        raise E.Unsupported("memset with symbolic size")
    if n.p:
        c.ex.store_cells(c.mem, p, [(b, 0)] * n.p, c.guard)


@rule(r"llvm\.ctpop\..*")
def _ctpop(c, m):
    def f(x):
        r = const(0, x.w)
        for i in range(x.w):
            r = t.add(r, t.zext(extract(i, i, x), x.w))
        return r

    def g(x):
        # sum in few bits, then extend
        k = max(1, x.w.bit_length())
        if x.op == "c":
            return const(bin(x.p).count("1"), x.w)
        bits = [extract(i, i, x) for i in range(x.w)]
        bits = [b for b in bits if not (b.op == "c" and b.p == 0)]
        vs = [t.zext(b, k) if k > 1 else b for b in bits]
        if k == 1:
            return x
        while len(vs) > 1:
            vs = [t.add(vs[i], vs[i + 1]) if i + 1 < len(vs) else vs[i] for i in range(0, len(vs), 2)]
        r = vs[0] if vs else const(0, k)
        return t.zext(r, x.w)
    return lanes(g, c.v[0])


@rule(r"llvm\.(ctlz|cttz)\..*")
def _ctz(c, m):
    zp = c.v[1]

    def f(x):
        w = x.w
        r = c.ex.fresh(w, "czpoison") if zp is TRUE else const(w, w)
        order = range(w - 1, -1, -1) if m.group(1) == "cttz" else range(w)
        for i in order:
            b = eq(extract(i, i, x), const(1, 1))
            r = ite(b, const(i if m.group(1) == "cttz" else w - 1 - i, w), r)
        return r
    return lanes(f, c.v[0])


@rule(r"llvm\.bswap\..*")
def _bswap(c, m):
    return lanes(lambda x: concat(*[extract(i * 8 + 7, i * 8, x) for i in range(x.w // 8 - 1, -1, -1)]), c.v[0])


@rule(r"llvm\.bitreverse\..*")
def _brev(c, m):
    return lanes(lambda x: concat(*[extract(i, i, x) for i in range(x.w - 1, -1, -1)]), c.v[0])


@rule(r"llvm\.abs\..*")
def _abs(c, m):
    return lanes(lambda x: ite(msb(x), t.neg(x), x), c.v[0])


@rule(r"llvm\.(smin|smax|umin|umax)\..*")
def _mm(c, m):
    k = m.group(1)
    f = {"smin": lambda a, b: ite(t.slt(a, b), a, b), "smax": lambda a, b: ite(t.slt(b, a), a, b),
         "umin": lambda a, b: ite(t.ult(a, b), a, b), "umax": lambda a, b: ite(t.ult(b, a), a, b)}[k]
    return lanes(f, c.v[0], c.v[1])


@rule(r"llvm\.([su])(add|sub)\.sat\..*")
def _sat(c, m):
    sg, o = m.groups()

    def f(a, b):
        w = a.w
        ext = t.sext if sg == "s" else t.zext
        x = (t.add if o == "add" else t.sub)(ext(a, w + 2), ext(b, w + 2))
        return ssat(x, w) if sg == "s" else usat(x, w)
    return lanes(f, c.v[0], c.v[1])


@rule(r"llvm\.([su])(add|sub|mul)\.with\.overflow\..*")
def _ovf(c, m):
    sg, o = m.groups()

    def f(a, b):
        w = a.w
        W = 2 * w if o == "mul" else w + 2
        ext = t.sext if sg == "s" else t.zext
        x = getattr(t, o)(ext(a, W), ext(b, W))
        r = extract(w - 1, 0, x)
        return r, not_(eq(ext(r, W), x))
    a, b = c.v[0], c.v[1]
    if isinstance(a, tuple):
        rs = [f(x, y) for x, y in zip(a, b)]
        return tuple(r[0] for r in rs), tuple(r[1] for r in rs)
    return f(a, b)


@rule(r"llvm\.fsh([lr])\..*")
def _fsh(c, m):
    d = m.group(1)

    def f(a, b, s):
        w = a.w
        s = t.urem(s, const(w, w))
        x = concat(b, a)
        s2 = t.zext(s, 2 * w)
        if d == "l":
            return extract(2 * w - 1, w, t.shl(x, s2))
        return extract(w - 1, 0, t.lshr(x, s2))
    return lanes(f, *c.v[:3])


@rule(r"llvm\.fabs\..*")
def _fabs(c, m):
    return lanes(t.fabs_, c.v[0])


@rule(r"llvm\.copysign\..*")
def _cps(c, m):
    return lanes(copysign, c.v[0], c.v[1])


def copysign(a, b):
    return concat(extract(a.w - 2, 0, a), extract(a.w - 1, a.w - 1, b))


@rule(r"llvm\.sqrt\..*")
def _sqrt(c, m):
    return lanes(fsqrt, c.v[0])


def fsqrt(x):
    return t.fp("sqrt", x.w, (x,))


@rule(r"llvm\.(floor|ceil|trunc|rint|nearbyint|round|roundeven)\..*")
def _rnd(c, m):
    return lanes(lambda x: fround(x, RM[m.group(1)]), c.v[0])


RM = {"floor": "floor", "ceil": "ceil", "trunc": "trunc", "rint": "rne", "nearbyint": "rne", "roundeven": "rne", "round": "rna"}


def fround(x, mode):
    return t.fp("round", x.w, (x,), mode)


@rule(r"llvm\.(fma|fmuladd)\..*")
def _fma(c, m):
    if m.group(1) == "fmuladd":
        return lanes(lambda a, b, d: t.fadd(t.fmul(a, b), d), *c.v[:3])
    return lanes(fma, *c.v[:3])


def fma(a, b, d):
    return t.fp("fma", a.w, (a, b, d))


@rule(r"llvm\.(minnum|maxnum|minimum|maximum)\..*")
def _fmm(c, m):
    def f(a, b):
        if m.group(1)[:3] == "min":
            x = ite(t.folt(b, a), b, a)
        else:
            x = ite(t.folt(a, b), b, a)
        if m.group(1).endswith("num"):
            return ite(t.fnan(a), b, ite(t.fnan(b), a, x))
        raise KeyError("minimum")
    return lanes(f, c.v[0], c.v[1])


@rule(r"llvm\.is\.fpclass\..*")
def _fpc(c, m):
    mask = c.v[1].p

    def f(x):
        e, mm = t.FMT[x.w]
        ex = extract(mm + e - 1, mm, x)
        fr = extract(mm - 1, 0, x)
        neg = msb(x)
        e1 = eq(ex, const(-1, e))
        e0 = eq(ex, const(0, e))
        f0 = eq(fr, const(0, mm))
        q = eq(extract(mm - 1, mm - 1, x), const(1, 1))
        cl = []
        nan = and_b(e1, not_(f0))
        inf = and_b(e1, f0)
        norm = and_b(not_(e1), not_(e0))
        sub = and_b(e0, not_(f0))
        zero = and_b(e0, f0)
        tab = [and_b(nan, not_(q)), and_b(nan, q), and_b(inf, neg), and_b(norm, neg), and_b(sub, neg), and_b(zero, neg),
               and_b(zero, not_(neg)), and_b(sub, not_(neg)), and_b(norm, not_(neg)), and_b(inf, not_(neg))]
        for i in range(10):
            if mask >> i & 1:
                cl.append(tab[i])
        return or_b(*cl)
    return lanes(f, c.v[0])


@rule(r"llvm\.vector\.reduce\.(add|mul|and|or|xor|smin|smax|umin|umax|fmin|fmax|fadd|fmul)\..*")
def _red(c, m):
    k = m.group(1)
    v = c.v[-1]
    isb = v[0].w == 0
    f = {"add": t.add, "mul": t.mul, "and": and_b if isb else t.bvand, "or": or_b if isb else t.bvor,
         "xor": (lambda a, b: not_(eq(a, b))) if isb else t.bvxor,
         "smin": lambda a, b: ite(t.slt(a, b), a, b), "smax": lambda a, b: ite(t.slt(b, a), a, b),
         "umin": lambda a, b: ite(t.ult(a, b), a, b), "umax": lambda a, b: ite(t.ult(b, a), a, b),
         "fadd": t.fadd, "fmul": t.fmul}[k]
    if k in ("fadd", "fmul"):
        r = c.v[0]
        for x in v:
            r = f(r, x)
        return r
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


@rule(r"llvm\.masked\.load\..*")
def _mload(c, m):
    p, al, mask, pas = c.v
    et = c.rty[2]
    return _masked_load(c, p, et, mask, pas)


def _masked_load(c, p, et, mask, pas, scale=None):
    import exec as E
    s = bitwidth(et) // 8
    out = []
    for i, b in enumerate(mask):
        g = and_b(c.guard, b)
        if g is FALSE:
            out.append(pas[i])
            continue
        q = E.Ptr(tuple((a, o, t.add(f, const(i * s, 64))) for a, o, f in p.alts))
        out.append(E.val_ite(b, c.ex.load(c.mem, q, et, 1, g), pas[i]))
    return tuple(out)


@rule(r"llvm\.masked\.store\..*")
def _mstore(c, m):
    v, p, al, mask = c.v
    _masked_store(c, p, c.tys[0][2], mask, v)


def _masked_store(c, p, et, mask, v):
    import exec as E
    s = bitwidth(et) // 8
    for i, b in enumerate(mask):
        g = and_b(c.guard, b)
        if g is FALSE:
            continue
        q = E.Ptr(tuple((a, o, t.add(f, const(i * s, 64))) for a, o, f in p.alts))
        _cond_store(c, q, et, b, v[i], g)


def _cond_store(c, q, et, b, v, g):
    import exec as E
    n = bitwidth(et) // 8
    r = c.ex.resolve(q, n, 1, g, "store", c.mem)
    for k, o, off in r:
        cs = c.ex.wcells(c.mem, o)
        old = c.ex._get(o, cs, off, et)
        c.ex._put(cs, off, et, E.val_ite(and_b(k, b), v, old))


@rule(r"llvm\.masked\.gather\..*")
def _mg(c, m):
    ps, al, mask, pas = c.v
    import exec as E
    out = []
    for p, b, d in zip(ps, mask, pas):
        g = and_b(c.guard, b)
        out.append(d if g is FALSE else E.val_ite(b, c.ex.load(c.mem, p, c.rty[2], 1, g), d))
    return tuple(out)


@rule(r"llvm\.masked\.scatter\..*")
def _ms(c, m):
    v, ps, al, mask = c.v
    for p, b, d in zip(ps, mask, v):
        g = and_b(c.guard, b)
        if g is not FALSE:
            _cond_store(c, p, c.tys[0][2], b, d, g)


@rule(r"llvm\.ptrmask\..*")
def _pm(c, m):
    import exec as E
    p, k = c.v
    return E.int_ptr(t.bvand(E.ptr_addr(p), k))


@rule(r"llvm\.vector\.(extract|insert)\..*")
def _vei(c, m):
    i = c.v[-1].p
    if m.group(1) == "extract":
        return c.v[0][i:i + c.rty[1]]
    return c.v[0][:i] + c.v[1] + c.v[0][i + len(c.v[1]):]


@rule(r"llvm\.ldexp\..*")
def _ldx(c, m):
    if isinstance(c.v[0], tuple):
        return lanes(ldexp, c.v[0], c.v[1])
    return ldexp(c.v[0], c.v[1])


@rule(r"llvm\.frexp\..*")
def _frx(c, m):
    x, e = frexp(c.v[0])
    return x, e


@rule(r"llvm\.(sin|cos|exp|exp2|exp10|log|log2|log10|pow|powi)\.f(32|64)(\..*)?")
def _tr(c, m):
    return t.uf(m.group(1) + m.group(2), c.rty[1], *c.v)


# ------------------------------------------------------------------ x86
X = r"llvm\.x86\."


@rule(X + r"(sse2|avx2)\.(psll|psrl|psra)\.([wdq])")
def _shc(c, m):
    k = m.group(2)
    v, cnt = c.v
    n = concat(*cnt[:64 // cnt[0].w])
    return tuple(_shift(k, x, n) for x in v)


@rule(X + r"(sse2|avx2)\.(psll|psrl|psra)i\.([wdq])")
def _shi(c, m):
    k = m.group(2)
    v, n = c.v
    return tuple(_shift(k, x, n) for x in v)


@rule(X + r"avx2\.(psll|psrl|psra)v\.([wdq])(\.256)?")
def _shv(c, m):
    return tuple(_shift(m.group(1), x, n) for x, n in zip(*c.v))


def _shift(k, x, n):
    w = x.w
    big = not_(t.ult(n, const(w, n.w)))
    if n.w >= w:
        nn = extract(w - 1, 0, n) if n.w > w else n
    else:
        nn = t.zext(n, w)
    if k == "psra":
        return ite(big, t.sext(extract(w - 1, w - 1, x), w), t.ashr(x, nn))
    f = t.shl if k == "psll" else t.lshr
    return ite(big, const(0, w), f(x, nn))


def _pack(c, f, n):
    a, b = c.v
    per = 128 // a[0].w
    out = []
    for i in range(0, len(a), per):
        out += [f(x, n) for x in a[i:i + per]]
        out += [f(x, n) for x in b[i:i + per]]
    return tuple(out)


@rule(X + r"(sse2\.packsswb\.128|avx2\.packsswb)")
def _p1(c, m):
    return _pack(c, ssat, 8)


@rule(X + r"(sse2\.packssdw\.128|avx2\.packssdw)")
def _p2(c, m):
    return _pack(c, ssat, 16)


@rule(X + r"(sse2\.packuswb\.128|avx2\.packuswb)")
def _p3(c, m):
    return _pack(c, usat, 8)


@rule(X + r"(sse41\.packusdw|avx2\.packusdw)")
def _p4(c, m):
    return _pack(c, usat, 16)


@rule(X + r"(ssse3\.pshuf\.b\.128|avx2\.pshuf\.b)")
def _pshufb(c, m):
    a, s = c.v
    out = []
    for i in range(len(a)):
        base = i // 16 * 16
        src = a[base:base + 16]
        x = s[i]
        out.append(ite(msb(x), const(0, 8), c.ex.vec_get(src, extract(3, 0, x))))
    return tuple(out)


@rule(X + r"avx\.vpermilvar\.(ps|pd)(\.256)?")
def _pvar(c, m):
    a, s = c.v
    n = 4 if m.group(1) == "ps" else 2
    out = []
    for i in range(len(a)):
        src = a[i // n * n:i // n * n + n]
        idx = extract(1, 0, s[i]) if n == 4 else extract(1, 1, s[i])
        out.append(c.ex.vec_get(src, idx))
    return tuple(out)


@rule(X + r"avx2\.perm(d|ps)")
def _permd(c, m):
    a, s = c.v
    return tuple(c.ex.vec_get(a, extract(2, 0, x)) for x in s)


@rule(X + r"(sse\.|sse2\.)(min|max)\.(ps|pd)")
@rule(X + r"(avx\.)(min|max)\.(ps|pd)\.256")
def _fmin(c, m):
    return lanes(fminx if m.group(2) == "min" else fmaxx, *c.v)


def fminx(a, b):
    return ite(t.folt(a, b), a, b)


def fmaxx(a, b):
    return ite(t.folt(b, a), a, b)


@rule(X + r"(sse|sse2)\.(min|max)\.(ss|sd)")
def _fmins(c, m):
    f = fminx if m.group(2) == "min" else fmaxx
    a, b = c.v
    return (f(a[0], b[0]),) + a[1:]


@rule(X + r"sse\.(rcp|rsqrt)\.ps")
@rule(X + r"avx\.(rcp|rsqrt)\.ps\.256")
def _rcp(c, m):
    return tuple(t.uf(m.group(1) + "_x86", 32, x) for x in c.v[0])


@rule(X + r"sse\.(rcp|rsqrt)\.ss")
def _rcps(c, m):
    return (t.uf(m.group(1) + "_x86", 32, c.v[0][0]),) + c.v[0][1:]


CMP8 = ["oeq", "olt", "ole", "uno", "une", "uge", "ugt", "ord"]
CMP32 = CMP8 + ["ueq", "ult", "ule", "false", "one", "oge", "ogt", "true"]


@rule(X + r"(sse|sse2|avx)\.cmp\.(ps|pd)(\.256)?")
def _cmp(c, m):
    import exec as E
    a, b, p = c.v
    pr = CMP32[p.p & 15]
    return tuple(b2m(E.fcmp1(pr, x, y), x.w) for x, y in zip(a, b))


@rule(X + r"(sse|sse2)\.cmp\.(ss|sd)")
def _cmps(c, m):
    import exec as E
    a, b, p = c.v
    return (b2m(E.fcmp1(CMP32[p.p & 15], a[0], b[0]), a[0].w),) + a[1:]


@rule(X + r"(sse|sse2)\.(u?)comi(eq|lt|le|gt|ge|neq)\.(ss|sd)")
def _comi(c, m):
    import exec as E
    a, b = c.v[0][0], c.v[1][0]
    k = m.group(3)
    pr = {"eq": "oeq", "lt": "olt", "le": "ole", "gt": "ogt", "ge": "oge", "neq": "une"}[k]
    return t.bool2bv(E.fcmp1(pr, a, b), 32)


@rule(X + r"(sse|sse2|avx|avx2|mmx)\.(p?)movmsk\..*|" + X + r"sse2\.pmovmskb\.128|" + X + r"avx2\.pmovmskb")
def _msk(c, m):
    return t.zext(concat(*[extract(x.w - 1, x.w - 1, x) for x in c.v[0]]), 32)


@rule(X + r"(sse41\.ptest(z|c|nzc)|avx\.ptest(z|c|nzc)\.256)")
def _ptest(c, m):
    k = m.group(2) or m.group(3)
    a, b = concat(*c.v[0]), concat(*c.v[1])
    z = eq(t.bvand(a, b), const(0, a.w))
    cc = eq(t.bvand(t.bvnot(a), b), const(0, a.w))
    r = {"z": z, "c": cc, "nzc": and_b(not_(z), not_(cc))}[k]
    return t.bool2bv(r, 32)


@rule(X + r"avx\.vtest(z|c|nzc)\.(ps|pd)(\.256)?")
def _vtest(c, m):
    a = [extract(x.w - 1, x.w - 1, x) for x in c.v[0]]
    b = [extract(x.w - 1, x.w - 1, x) for x in c.v[1]]
    z = and_b(*[eq(t.bvand(x, y), const(0, 1)) for x, y in zip(a, b)])
    cc = and_b(*[eq(t.bvand(t.bvnot(x), y), const(0, 1)) for x, y in zip(a, b)])
    r = {"z": z, "c": cc, "nzc": and_b(not_(z), not_(cc))}[m.group(1)]
    return t.bool2bv(r, 32)


@rule(X + r"(sse41\.p?blendv(ps|pd|b)|avx\.blendv\.(ps|pd)\.256|avx2\.pblendvb)")
def _blendv(c, m):
    a, b, k = c.v
    return tuple(ite(msb(z), y, x) for x, y, z in zip(a, b, k))


def _rmode(i):
    if i & 4:
        return "rne"
    return ["rne", "floor", "ceil", "trunc"][i & 3]


@rule(X + r"(sse41\.round\.(ps|pd)|avx\.round\.(ps|pd)\.256)")
def _round(c, m):
    mode = _rmode(c.v[1].p)
    return tuple(fround(x, mode) for x in c.v[0])


@rule(X + r"sse41\.round\.(ss|sd)")
def _rounds(c, m):
    mode = _rmode(c.v[2].p)
    return (fround(c.v[1][0], mode),) + c.v[0][1:]


def cvt(mode, w, x):
    return t.fp("cvt_" + mode, w, (x,))


@rule(X + r"sse2\.cvt(t?)p[sd]2dq")
@rule(X + r"avx\.cvt(t?)\.?p[sd]2dq\.256|" + X + r"avx\.cvt(t?)\.p[sd]2\.?dq\.256")
def _cvt(c, m):
    mode = "rtz" if "cvtt" in c.name else "rne"
    r = tuple(cvt(mode, 32, x) for x in c.v[0])
    return r + (const(0, 32),) * (c.rty[1] - len(r))


@rule(X + r"(sse|sse2)\.cvt(t?)s[sd]2si(64)?")
def _cvts(c, m):
    return cvt("rtz" if m.group(2) else "rne", c.rty[1], c.v[0][0])


@rule(X + r"sse2\.cvtpd2ps")
@rule(X + r"avx\.cvt\.pd2\.ps\.256")
def _cvtpd2ps(c, m):
    r = tuple(t.fp("trunc", 32, (x,)) for x in c.v[0])
    return r + (const(0, 32),) * (c.rty[1] - len(r))


@rule(X + r"sse2\.cvtsd2ss")
def _cvtsd2ss(c, m):
    return (t.fp("trunc", 32, (c.v[1][0],)),) + c.v[0][1:]


@rule(X + r"(sse3|avx)\.h(add|sub)\.p[sd](\.256)?")
def _hadd(c, m):
    f = t.fadd if m.group(2) == "add" else t.fsub
    return _horiz(c, f)


def _horiz(c, f):
    a, b = c.v
    per = 128 // a[0].w
    out = []
    for i in range(0, len(a), per):
        for v in (a, b):
            q = v[i:i + per]
            out += [f(q[j], q[j + 1]) for j in range(0, per, 2)]
    return tuple(out)


@rule(X + r"(ssse3|avx2)\.ph(add|sub)\.(w|d)(\.128)?")
def _phadd(c, m):
    return _horiz(c, t.add if m.group(2) == "add" else t.sub)


@rule(X + r"(sse3|avx)\.addsub\.p[sd](\.256)?")
def _addsub(c, m):
    return tuple((t.fsub if i % 2 == 0 else t.fadd)(x, y) for i, (x, y) in enumerate(zip(*c.v)))


@rule(X + r"(ssse3|avx2)\.psign\.[bwd](\.128)?")
def _psign(c, m):
    return tuple(ite(msb(b), t.neg(a), ite(eq(b, const(0, b.w)), const(0, a.w), a)) for a, b in zip(*c.v))


@rule(X + r"(sse2|avx2)\.pmulhu?\.w")
def _pmulh(c, m):
    ext = t.zext if "pmulhu" in c.name else t.sext
    return tuple(extract(31, 16, t.mul(ext(a, 32), ext(b, 32))) for a, b in zip(*c.v))


@rule(X + r"(sse2|avx2)\.pmadd\.wd")
def _pmadd(c, m):
    a, b = c.v
    p = [t.mul(t.sext(x, 32), t.sext(y, 32)) for x, y in zip(a, b)]
    return tuple(t.add(p[i], p[i + 1]) for i in range(0, len(p), 2))


@rule(X + r"(sse2|avx2)\.psad\.bw")
def _psad(c, m):
    a, b = c.v
    d = [ite(t.ult(x, y), t.sub(y, x), t.sub(x, y)) for x, y in zip(a, b)]
    out = []
    for i in range(0, len(d), 8):
        s = const(0, 64)
        for x in d[i:i + 8]:
            s = t.add(s, t.zext(x, 64))
        out.append(s)
    return tuple(out)


@rule(X + r"(sse2|avx2)\.pavg\.[bw]")
def _pavg(c, m):
    return tuple(extract(a.w, 1, t.add(t.add(t.zext(a, a.w + 1), t.zext(b, a.w + 1)), const(1, a.w + 1))) for a, b in zip(*c.v))


@rule(X + r"sse41\.insertps")
def _insps(c, m):
    a, b, i = c.v
    i = i.p
    l = list(a)
    l[i >> 4 & 3] = b[i >> 6 & 3]
    for j in range(4):
        if i >> j & 1:
            l[j] = const(0, 32)
    return tuple(l)


@rule(X + r"sse41\.dpp[sd]|" + X + r"avx\.dp\.ps\.256")
def _dp(c, m):
    a, b, i = c.v
    i = i.p
    per = 128 // a[0].w
    out = []
    for k in range(0, len(a), per):
        p = [t.fmul(a[k + j], b[k + j]) if i >> (4 + j) & 1 else const(0, a[0].w) for j in range(per)]
        while len(p) > 1:
            p = [t.fadd(p[j], p[j + 1]) for j in range(0, len(p), 2)]
        out += [p[0] if i >> j & 1 else const(0, a[0].w) for j in range(per)]
    return tuple(out)


@rule(X + r"(avx\.maskload\.p[sd](\.256)?|avx2\.maskload\.[dq](\.256)?)")
def _mld(c, m):
    p, k = c.v
    et = c.rty[2]
    return _masked_load(c, p, et, [msb(x) for x in k], [const(0, x.w) for x in k])


@rule(X + r"(avx\.maskstore\.p[sd](\.256)?|avx2\.maskstore\.[dq](\.256)?)")
def _mst(c, m):
    p, k, v = c.v
    _masked_store(c, p, c.tys[2][2], [msb(x) for x in k], v)


@rule(X + r"sse2\.maskmov\.dqu")
def _maskmov(c, m):
    v, k, p = c.v
    _masked_store(c, p, ("i", 8), [msb(x) for x in k], v)


@rule(X + r"avx2\.gather\.([dq])\.(d|q|ps|pd)(\.256)?")
def _gather(c, m):
    import exec as E
    src, base, idx, mask, scale = c.v
    et = c.rty[2]
    out = []
    for i in range(len(src)):
        b = msb(mask[i])
        g = and_b(c.guard, b)
        if g is FALSE or i >= len(idx):
            out.append(src[i] if i < len(idx) else const(0, src[i].w))
            continue
        off = t.mul(t.sext(idx[i], 64), const(scale.p, 64))
        q = E.Ptr(tuple((a, o, t.add(f, off)) for a, o, f in base.alts))
        out.append(E.val_ite(b, c.ex.load(c.mem, q, et, 1, g), src[i]))
    return tuple(out)


@rule(X + r"(sse|sse2|sse41|avx|avx2)\.(ldu\.dq|ldu\.dq\.256|movntdqa)")
def _ldu(c, m):
    return c.ex.load(c.mem, c.v[0], c.rty, 16 if "movnt" in c.name else 1, c.guard)


@rule(X + r"sse3\.ldu\.dq")
def _ldu3(c, m):
    return c.ex.load(c.mem, c.v[0], c.rty, 1, c.guard)


@rule(X + r"(sse\.sfence|sse2\.[lm]fence|sse2\.pause|avx\.vzero(upper|all)|mmx\.emms)")
def _fence(c, m):
    return None


@rule(X + r"bmi\.(pext|pdep)\.(32|64)")
def _pext(c, m):
    x, k = c.v
    w = x.w
    if k.op != "c":
        # count of mask bits below i selects the position
        out = const(0, w)
        pos = const(0, w)
        for i in range(w):
            b = eq(extract(i, i, k), const(1, 1))
            if m.group(1) == "pext":
                bit = t.zext(extract(i, i, x), w)
                out = t.bvor(out, ite(b, t.shl(bit, pos), const(0, w)))
            else:
                bit = extract(0, 0, t.lshr(x, pos))
                out = t.bvor(out, ite(b, t.shl(t.zext(bit, w), const(i, w)), const(0, w)))
            pos = t.add(pos, t.zext(extract(i, i, k), w))
        return out
    if m.group(1) == "pext":
        bits = [extract(i, i, x) for i in range(w) if k.p >> i & 1]
        return t.zext(concat(*bits), w) if bits else const(0, w)
    bits = []
    j = 0
    for i in range(w):
        if k.p >> i & 1:
            bits.append(extract(j, j, x))
            j += 1
        else:
            bits.append(const(0, 1))
    return concat(*bits)


@rule(X + r"xgetbv")
def _xgetbv(c, m):
    return t.var("xcr0", 64)


@rule(X + r"(vcvtph2ps\.128|vcvtph2ps\.256)")
def _ph(c, m):
    return tuple(t.fp("ext", 32, (x,)) for x in c.v[0][:c.rty[1]])


# ------------------------------------------------------------------ libm
def ldexp(x, n):
    """exact where the result is normal or overflows; zero, infinities and NaN unchanged; otherwise an unknown function"""
    w = x.w
    e, m = t.FMT[w]
    if x.op == "c" and n.op == "c":
        import math
        if t.is_nan_bits(x.p, w) or t.is_inf_bits(x.p, w):
            return x
        from fractions import Fraction
        k = t.sgn(n.p, n.w)
        k = max(-5000, min(5000, k))
        s = x.p >> (w - 1)
        return const(t._fixsign(t.frac2bits(t.bits2frac(x.p, w) * Fraction(2) ** k, w, s), s, w), w)
    ex = extract(m + e - 1, m, x)
    special = or_b(eq(ex, const(-1, e)), eq(extract(w - 2, 0, x), const(0, w - 1)))
    W = 34
    ne = t.add(t.zext(ex, W), t.sext(n, W) if n.w < W else extract(W - 1, 0, n))
    ok = and_b(not_(eq(ex, const(0, e))), t.slt(const(0, W), ne), t.slt(ne, const(t.ones(e), W)))
    r = concat(extract(m - 1, 0, x), extract(e - 1, 0, ne), extract(w - 1, w - 1, x))
    over = and_b(not_(eq(ex, const(0, e))), t.sle(const(t.ones(e), W), ne))
    inf = concat(const(t.ones(e) << m, w - 1), extract(w - 1, w - 1, x))
    return ite(special, x, ite(ok, r, ite(over, inf, t.uf("ldexp%d" % w, w, x, n))))


def frexp(x):
    """(mantissa, exponent i32): normal numbers, zero, inf, nan (exponent of inf/nan unspecified -> 0 as glibc)"""
    w = x.w
    e, m = t.FMT[w]
    ex = extract(m + e - 1, m, x)
    e0 = eq(ex, const(0, e))
    zero = eq(extract(w - 2, 0, x), const(0, w - 1))
    e1 = eq(ex, const(-1, e))
    bias = (1 << (e - 1)) - 2
    man = concat(extract(m - 1, 0, x), const(bias, e), extract(w - 1, w - 1, x))
    exp = t.sub(t.zext(ex, 32), const(bias, 32))
    # subnormals: normalise
    fr = extract(m - 1, 0, x)
    sman = const(0, m)
    sexp = const(0, 32)
    for i in range(m):          # highest set bit i
        b = eq(extract(i, i, fr), const(1, 1))
        low = concat(const(0, m - i), extract(i - 1, 0, fr)) if i > 0 else const(0, m)
        sman = ite(b, low, sman)
        sexp = ite(b, const(i + 1 - m - bias, 32), sexp)
    subm = concat(sman, const(bias, e), extract(w - 1, w - 1, x))
    sp = or_b(zero, e1)
    return ite(sp, x, ite(e0, subm, man)), ite(sp, const(0, 32), ite(e0, sexp, exp))


LIBM1 = {"floor": "floor", "ceil": "ceil", "trunc": "trunc", "rint": "rne", "nearbyint": "rne", "round": "rna", "roundeven": "rne"}
UNARY = set("sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 expm1 log log2 log10 log1p cbrt erf erfc lgamma tgamma".split())


def libm(name):
    base, w = (name[:-1], 32) if name.endswith("f") and name not in ("erf",) else (name, 64)
    if base in LIBM1:
        return lambda c: fround(c.v[0], LIBM1[base])
    if base == "sqrt":
        return lambda c: fsqrt(c.v[0])
    if base == "fabs":
        return lambda c: t.fabs_(c.v[0])
    if base == "copysign":
        return lambda c: copysign(c.v[0], c.v[1])
    if base == "fma":
        return lambda c: fma(*c.v)
    if base == "fmod":
        return lambda c: t.fp("rem", w, (c.v[0], c.v[1]))
    if base in ("ldexp", "scalbn"):
        return lambda c: ldexp(c.v[0], c.v[1])
    if base in ("fmin", "fmax"):
        def f(c):
            a, b = c.v
            x = ite(t.folt(b, a), b, a) if base == "fmin" else ite(t.folt(a, b), b, a)
            return ite(t.fnan(a), b, ite(t.fnan(b), a, x))
        return f
    if base == "frexp":
        def f(c):
            x, e = frexp(c.v[0])
            c.ex.store(c.mem, c.v[1], ("i", 32), e, 1, c.guard)
            return x
        return f
    if base in UNARY:
        return lambda c: t.uf(base + str(w), w, c.v[0])
    if base in ("atan2", "pow", "hypot", "remainder"):
        return lambda c: t.uf(base + str(w), w, c.v[0], c.v[1])
    if base == "sincos":
        def f(c):
            ty = ("f", w)
            c.ex.store(c.mem, c.v[1], ty, t.uf("sin%d" % w, w, c.v[0]), 1, c.guard)
            c.ex.store(c.mem, c.v[2], ty, t.uf("cos%d" % w, w, c.v[0]), 1, c.guard)
        return f
    if base == "ilogb":
        def f(c):
            x, e = frexp(c.v[0])
            r = t.sub(e, const(1, 32))
            z = eq(extract(w - 2, 0, c.v[0]), const(0, w - 1))
            e_, m_ = t.FMT[w]
            inf = eq(extract(w - 2, 0, c.v[0]), const(t.ones(e_) << m_, w - 1))
            return ite(z, const(-2147483648, 32), ite(t.fnan(c.v[0]), const(-2147483648, 32), ite(inf, const(2147483647, 32), r)))
        return f
    return None


# ------------------------------------------------------------------ inline assembly
def inline_asm(ex, txt, cons, rty, vals, mem, guard):
    s = txt.replace("\\0A", "\n").replace("\\09", " ").strip()
    if s == "":
        # a compiler barrier, possibly with tied operands
        if rty[0] == "void":
            return None
        return vals[0] if len(vals) == 1 else tuple(vals)
    h = ASM.get("cpuid") if "cpuid" in s else ASM.get("xgetbv") if ("xgetbv" in s or "0x0f, 0x01, 0xd0" in s) else None
    if h is None:
        return _asm_generic(ex, s, cons, rty, vals, mem, guard)
    return h(ex, txt, cons, rty, vals, mem, guard)


def _vflat(v):
    return concat(*v) if isinstance(v, (tuple, list)) else v


def _asm_generic(ex, s, cons, rty, vals, mem, guard):
    """a few register-to-register instructions (AT&T operand order)"""
    import re
    import exec as E
    cs = cons.split(",")
    outs = [c for c in cs if c.startswith("=")]
    ins = [c for c in cs if not c.startswith("=") and not c.startswith("~")]
    rtys = list(rty[1]) if rty[0] == "s" else [rty] if outs else []
    if len(ins) != len(vals) or len(rtys) != len(outs) or any("*" in c for c in cs):
        raise E.Unsupported("inline asm: %r %r" % (s, cons))
    regs = [None] * len(outs) + [_vflat(v) for v in vals]
    for k, c in enumerate(ins):
        if c.isdigit():
            regs[int(c)] = regs[len(outs) + k]
    ws = [bitwidth(ty) for ty in rtys] + [r.w for r in regs[len(outs):]]

    def rd(o, w=None):
        if o.startswith("$$"):
            return int(o[2:], 0)
        k = int(re.match(r"\$\{?(\d+)", o).group(1))
        if regs[k] is None:
            regs[k] = ex.fresh(ws[k], "asmundef")
        return regs[k]

    def wr(o, v):
        k = int(re.match(r"\$\{?(\d+)", o).group(1))
        w = ws[k]
        regs[k] = v if v.w == w else extract(w - 1, 0, v) if v.w > w else t.zext(v, w)
    for line in re.split(r"[\n;]", s):
        line = line.strip()
        if not line:
            continue
        mn, _, rest = line.partition(" ")
        ops = [o.strip() for o in rest.split(",")]
        if mn in ("bsf", "bsr", "bsfl", "bsrl"):
            x = rd(ops[0])
            r = ex.fresh(x.w, "bsundef")
            order = range(x.w - 1, -1, -1) if mn.startswith("bsf") else range(x.w)
            for i in order:
                r = ite(eq(extract(i, i, x), const(1, 1)), const(i, x.w), r)
            wr(ops[1], r)
        elif mn in ("btr", "bts", "btc"):
            i, x = rd(ops[0]), rd(ops[1])
            i = const(i, x.w) if isinstance(i, int) else t.bvand(t.zext(i, x.w) if i.w < x.w else extract(x.w - 1, 0, i), const(x.w - 1, x.w))
            b = t.shl(const(1, x.w), i)
            wr(ops[1], t.bvand(x, t.bvnot(b)) if mn == "btr" else t.bvor(x, b) if mn == "bts" else t.bvxor(x, b))
        elif mn in ("mov", "movl", "movq", "movd", "vmovd", "vmovq") and len(ops) == 2:
            x = rd(ops[0])
            if isinstance(x, int):
                raise E.Unsupported("inline asm: %r" % s)
            wr(ops[1], x)
        elif mn in ("pinsrd", "pinsrq", "pinsrw", "vpinsrd", "vpinsrq", "vpinsrw"):
            ew = {"d": 32, "q": 64, "w": 16}[mn[-1]]
            k, x, y = rd(ops[0]), rd(ops[1]), rd(ops[2])
            k %= 128 // ew
            parts = [extract(i * ew + ew - 1, i * ew, y) for i in range(128 // ew)]
            parts[k] = extract(ew - 1, 0, x)
            wr(ops[-1], concat(*parts))
        elif mn in ("punpcklqdq", "vpunpcklqdq"):
            x, y = rd(ops[0]), rd(ops[1])
            wr(ops[-1], concat(extract(63, 0, y), extract(63, 0, x)))
        elif mn in ("or", "and", "xor", "add", "sub") and len(ops) == 2:
            x, y = rd(ops[0]), rd(ops[1])
            x = const(x, y.w) if isinstance(x, int) else x
            wr(ops[1], {"or": t.bvor, "and": t.bvand, "xor": t.bvxor, "add": t.add, "sub": t.sub}[mn](y, x))
        else:
            raise E.Unsupported("inline asm: %r %r" % (s, cons))
    res = []
    for k, ty in enumerate(rtys):
        v = rd("$%d" % k)
        if ty[0] == "v":
            ew = bitwidth(ty[2])
            v = tuple(extract(i * ew + ew - 1, i * ew, v) for i in range(ty[1]))
        res.append(v)
    if not res:
        return None
    return tuple(res) if rty[0] == "s" else res[0]


def _asm_cpuid(ex, txt, cons, rty, vals, mem, guard):
    """the processor is an arbitrary function from (leaf, subleaf) to register values"""
    leaf = vals[0]
    sub = vals[1] if len(vals) > 1 else const(0, 32)
    return tuple(t.uf("cpuid_" + r, 32, leaf, sub) for r in ("eax", "ebx", "ecx", "edx"))


def _asm_xgetbv(ex, txt, cons, rty, vals, mem, guard):
    v = t.var("xcr0", 64)
    if rty[0] == "s":
        return (extract(31, 0, v), extract(63, 32, v))
    return extract(rty[1] - 1, 0, v)


ASM = {"cpuid": _asm_cpuid, "xgetbv": _asm_xgetbv}


# ------------------------------------------------------------------ external functions and the harness interface
def cstring(ex, mem, p):
    g, o, off = p.alts[0]
    cs = ex.cells(mem, o)
    i = off.p
    out = []
    while True:
        v, k = cs[i]
        b = extract(k * 8 + 7, k * 8, v)
        if b.p == 0:
            break
        out.append(b.p)
        i += 1
    return bytes(out).decode("latin1")


def _vp_in(c):
    p, n, es, nm = c.v
    name = cstring(c.ex, c.mem, nm)
    n = n.p
    es = es.p
    base = name
    k = 2
    while any(x[0] == name for x in c.ex.inputs):
        name = "%s#%d" % (base, k)
        k += 1
    vs = [t.var("%s[%d]" % (name, i), es * 8) for i in range(n)]
    c.ex.inputs.append((name, vs, es))
    cells = []
    for v in vs:
        cells += [(v, j) for j in range(es)]
    c.ex.store_cells(c.mem, p, cells, c.guard)


def _vp_in_bool(c):
    p, n, nm = c.v
    name = cstring(c.ex, c.mem, nm)
    n = n.p
    base = name
    k = 2
    while any(x[0] == name for x in c.ex.inputs):
        name = "%s#%d" % (base, k)
        k += 1
    vs = [t.var("%s[%d]" % (name, i), 1) for i in range(n)]
    c.ex.inputs.append((name, vs, 1))
    c.ex.store_cells(c.mem, p, [(t.zext(v, 8), 0) for v in vs], c.guard)


def _vp_int(c):
    nm, lo, hi = c.v
    name = cstring(c.ex, c.mem, nm)
    base = name
    k = 2
    while any(x[0] == name for x in c.ex.inputs):
        name = "%s#%d" % (base, k)
        k += 1
    l, h = t.sgn(lo.p, 32), t.sgn(hi.p, 32)
    bits = max(1, (h - l).bit_length())
    v = t.var("%s[0]" % name, bits)
    c.ex.inputs.append((name, [v], ("int", l)))
    if (h - l) != t.ones(bits):
        c.guard = c.ex.assume(c.guard, not_(t.ult(const(h - l, bits), v)))
    return t.add(t.zext(v, 32), const(l, 32))


def _bool_arg(x):
    return x if x.w == 0 else eq(extract(0, 0, x), const(1, 1))


def _vp_assume(c):
    c.guard = c.ex.assume(c.guard, _bool_arg(c.v[0]))


def _vp_check(c):
    b = _bool_arg(c.v[0])
    msg = cstring(c.ex, c.mem, c.v[1])
    c.ex.nchecks += 1
    c.ex.reaches.append((msg, c.guard, len(c.ex.assumes)))
    c.ex.observed.append((c.guard, msg, "b", [b]))
    c.ex.check(c.guard, b, msg, "check")


def _vp_eq(c):
    pa, pb, n, es, fl, nm = c.v
    n, es, fl = n.p, es.p, fl.p
    if n == 0:
        return
    msg = cstring(c.ex, c.mem, nm)
    a = c.ex.load_bits(c.mem, pa, n * es, c.guard)
    b = c.ex.load_bits(c.mem, pb, n * es, c.guard)
    oks = []
    w = es * 8
    A = [extract(i * w + w - 1, i * w, a) for i in range(n)]
    B = [extract(i * w + w - 1, i * w, b) for i in range(n)]
    for x, y in zip(A, B):
        if fl == 0:
            oks.append(eq(x, y))
        elif fl == 1:
            oks.append(t.same_float(x, y))
        else:
            oks.append(or_b(t.foeq(x, y), and_b(t.fnan(x), t.fnan(y))))
    c.ex.nchecks += 1
    c.ex.reaches.append((msg, c.guard, len(c.ex.assumes)))
    c.ex.observed.append((c.guard, msg, "e%d" % fl, A))
    c.ex.check(c.guard, and_b(*oks), msg, "check", elems=(A, B))


def _vp_alloc(c):
    n, al = c.v
    import exec as E
    if n.p is None:
        raise E.Unsupported("vp_alloc of symbolic size " + t.show(n, 14))
    o = c.ex.new_obj("buf%d" % len(c.ex.objs), n.p, al.p, "heap")
    c.mem.d[o.id] = [None] * o.size
    c.mem.owned.add(o.id)
    return E.mkptr(o, 0)


def _malloc(al):
    def f(c):
        import exec as E
        n = c.v[0]
        return _heap(c, n, al)
    return f


def _heap(c, n, al):
    import exec as E
    if n.op != "c":
        raise E.Unsupported("allocation of symbolic size")
    o = c.ex.new_obj("heap%d" % len(c.ex.objs), n.p, al, "heap")
    c.mem.d[o.id] = [None] * o.size
    c.mem.owned.add(o.id)
    return E.mkptr(o, 0)


def _aligned_alloc(c):
    return _heap(c, c.v[1], c.v[0].p)


def _posix_memalign(c):
    p = _heap(c, c.v[2], c.v[1].p)
    c.ex.store(c.mem, c.v[0], PTR, p, 1, c.guard)
    return const(0, 32)


def _free(c):
    for g, o, off in c.v[0].alts:
        if o is None:
            continue
        gg = and_b(c.guard, g)
        c.ex.check(gg, and_b(eq(off, const(0, 64)), t.boolc(o.kind == "heap")), "free of a pointer that was not allocated", "mem")
        d = c.mem.dead.get(o.id, FALSE)
        c.ex.check(gg, not_(d), "double free", "mem")
        c.mem.dead[o.id] = or_b(d, g)


def _abort(c):
    c.ex.check(c.guard, FALSE, "%s called" % c.name, "abort")
    c.guard = FALSE


def _throw(c):
    if not c.ex.find_func("@vp_may_throw"):
        return _abort(c)
    c.guard = FALSE        # harnesses do not catch exceptions: the path ends


def _exit(c):
    c.ex.check(c.guard, FALSE, "%s called" % c.name, "abort")
    c.guard = FALSE


def _zero(c):
    if c.rty[0] == "i":
        return const(0, c.rty[1]) if c.rty[1] > 1 else FALSE
    if c.rty[0] == "p":
        import exec as E
        return E.NULL
    return None


def _guard_acquire(c):
    b = c.ex.load(c.mem, c.v[0], ("i", 8), 1, c.guard)
    return t.bool2bv(eq(b, const(0, 8)), 32)


def _guard_release(c):
    c.ex.store(c.mem, c.v[0], ("i", 8), const(1, 8), 1, c.guard)


def _memcpy_fn(c):
    _do_memcpy(c, c.v[0], c.v[1], c.v[2])
    return c.v[0]


def _memset_fn(c):
    _do_memset(c, c.v[0], extract(7, 0, c.v[1]), c.v[2])
    return c.v[0]


def _memcmp(c):
    n = c.v[2].p
    a = c.ex.load_bits(c.mem, c.v[0], n, c.guard)
    b = c.ex.load_bits(c.mem, c.v[1], n, c.guard)
    r = const(0, 32)
    for i in range(n - 1, -1, -1):
        x, y = extract(i * 8 + 7, i * 8, a), extract(i * 8 + 7, i * 8, b)
        r = ite(eq(x, y), r, ite(t.ult(x, y), const(-1, 32), const(1, 32)))
    return r


EXTERN = {
    "vp_in": _vp_in, "vp_in_bool": _vp_in_bool, "vp_int": _vp_int, "vp_assume": _vp_assume, "vp_check": _vp_check, "vp_eq": _vp_eq,
    "vp_alloc": _vp_alloc,
    "malloc": _malloc(16), "_Znwm": _malloc(16), "_Znam": _malloc(16), "aligned_alloc": _aligned_alloc, "memalign": _aligned_alloc,
    "posix_memalign": _posix_memalign, "_ZnwmSt11align_val_t": lambda c: _heap(c, c.v[0], c.v[1].p),
    "_ZnamSt11align_val_t": lambda c: _heap(c, c.v[0], c.v[1].p),
    "free": _free, "_ZdlPv": _free, "_ZdaPv": _free, "_ZdlPvm": _free, "_ZdaPvm": _free, "_ZdlPvSt11align_val_t": _free,
    "_ZdlPvmSt11align_val_t": _free,
    "abort": _abort, "exit": _exit, "__assert_fail": _abort, "_ZSt9terminatev": _abort, "_ZSt17__throw_bad_allocv": _abort,
    "_ZSt20__throw_length_errorPKc": _abort, "_ZSt24__throw_out_of_range_fmtPKcz": _abort, "_ZSt28__throw_bad_array_new_lengthv": _abort,
    "_ZSt19__throw_logic_errorPKc": _abort, "_ZSt20__throw_out_of_rangePKc": _abort, "_ZSt25__throw_bad_function_callv": _abort,
    "__cxa_throw": _throw, "__cxa_rethrow": _abort, "__cxa_allocate_exception": _malloc(16), "__clang_call_terminate": _abort,
    "__cxa_atexit": _zero, "__cxa_guard_acquire": _guard_acquire, "__cxa_guard_release": _guard_release, "fprintf": _zero,
    "printf": _zero, "puts": _zero, "fputs": _zero, "fwrite": _zero,
    "memcpy": _memcpy_fn, "memmove": _memcpy_fn, "memset": _memset_fn, "memcmp": _memcmp, "bcmp": _memcmp,
}
