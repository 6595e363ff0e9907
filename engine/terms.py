"""Hash-consed bit-vector / boolean term DAG with light normalising rewrites.

Terms are exact (bit-precise) descriptions of what the encoded code computes.  Floating-point
arithmetic is carried as uninterpreted 'fp' nodes over bit patterns; solve.py can interpret them with the
IEEE-754 theory when the uninterpreted reading is not enough.  w == 0 means Bool.
"""
import struct
from fractions import Fraction

_table = {}
_next = [0]
_probes = {}


class T:
    __slots__ = ("op", "w", "args", "p", "id")

    def __repr__(self):
        return show(self)


def _mk(op, w, args=(), p=None):
    key = (op, w, p, tuple([a.id for a in args]))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.p = p
        t.id = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


def reset():
    """drop the table (between harnesses)"""
    _table.clear()
    _probes.clear()
    _FR.clear()
    _table[("true", 0, None, ())] = TRUE
    _table[("false", 0, None, ())] = FALSE
    for (v, w), t in _const.items():
        _table[("c", w, v, ())] = t


def show(t, d=4):
    if t.op == "c":
        return "0x%x:%d" % (t.p, t.w)
    if t.op == "v":
        return t.p
    if d == 0:
        return "..."
    return "(%s%s %s)" % (t.op, "" if t.p is None else str(t.p), " ".join(show(a, d - 1) for a in t.args))


TRUE = _mk("true", 0)
FALSE = _mk("false", 0)
_const = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _const.get(k)
    if t is None:
        t = _const[k] = _mk("c", w, (), v)
    return t


def boolc(b):
    return TRUE if b else FALSE


def var(name, w):
    return _mk("v", w, (), name)


def is_const(t):
    return t.op == "c" or t is TRUE or t is FALSE


def ones(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ---------------------------------------------------------------- boolean
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", 0, (a,))


def and_b(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                s[y.id] = y
        else:
            s[x.id] = x
    if not s:
        return TRUE
    for y in s.values():
        if y.op == "not":
            if y.args[0].id in s:
                return FALSE
            z = y.args[0]
            # and(not(and(..)), all of them) -> false ; not(and(a,b)) with a present -> not(b)
            if z.op == "and":
                rest = [q for q in z.args if q.id not in s]
                if len(rest) < len(z.args):
                    if not rest:
                        return FALSE
                    del s[y.id]
                    return and_b(*(list(s.values()) + [not_(and_b(*rest))]))
    if len(s) == 1:
        return next(iter(s.values()))
    return _mk("and", 0, tuple(s[k] for k in sorted(s)))


def or_b(*xs):
    return not_(and_b(*[not_(x) for x in xs]))


def implies(a, b):
    return or_b(not_(a), b)


def conjs(g):
    if g is TRUE:
        return ()
    if g.op == "and":
        return g.args
    return (g,)


def factor(gs):
    """guards -> (common conjunction, [remainders])"""
    if len(gs) == 1:
        return gs[0], [TRUE]
    common = {c.id: c for c in conjs(gs[0])}
    for g in gs[1:]:
        ids = set(c.id for c in conjs(g))
        for k in [k for k in common if k not in ids]:
            del common[k]
    if not common:
        return TRUE, list(gs)
    rests = [and_b(*[c for c in conjs(g) if c.id not in common]) for g in gs]
    return and_b(*common.values()), rests


def or_guards(gs):
    """disjunction of path guards, factoring out what they share"""
    c, r = factor(gs)
    if len(r) == 1:
        return c
    acc = r[0]
    for x in r[1:]:
        cc, rr = factor([acc, x])
        acc = and_b(cc, or_b(*rr))
    return and_b(c, acc)


# ---------------------------------------------------------------- bit-vector
def extract(hi, lo, x):
    w = hi - lo + 1
    if w == x.w:
        return x
    op = x.op
    if op == "c":
        return const(x.p >> lo, w)
    if op == "extract":
        b = x.p[1]
        return extract(hi + b, lo + b, x.args[0])
    if op == "concat":
        pos = 0
        parts = []
        for a in x.args:
            e = pos + a.w
            if e > lo and pos <= hi:
                parts.append(extract(min(hi, e - 1) - pos, max(lo, pos) - pos, a))
            pos = e
            if pos > hi:
                break
        return concat(*parts)
    if op == "sext":
        a = x.args[0]
        if hi < a.w:
            return extract(hi, lo, a)
        if lo >= a.w:
            return sext(extract(a.w - 1, a.w - 1, a), w)
        return sext(extract(a.w - 1, lo, a), w)
    if op == "ite":
        return ite(x.args[0], extract(hi, lo, x.args[1]), extract(hi, lo, x.args[2]))
    if op == "bvnot":
        return bvnot(extract(hi, lo, x.args[0]))
    if op == "bvand":
        return bvand(extract(hi, lo, x.args[0]), extract(hi, lo, x.args[1]))
    if op == "bvor":
        return bvor(extract(hi, lo, x.args[0]), extract(hi, lo, x.args[1]))
    if op == "bvxor":
        return bvxor(extract(hi, lo, x.args[0]), extract(hi, lo, x.args[1]))
    if lo == 0:
        if op == "add":
            return add(extract(hi, 0, x.args[0]), extract(hi, 0, x.args[1]))
        if op == "sub":
            return sub(extract(hi, 0, x.args[0]), extract(hi, 0, x.args[1]))
        if op == "mul":
            return mul(extract(hi, 0, x.args[0]), extract(hi, 0, x.args[1]))
    elif op == "udiv" and hi == lo == x.w - 1:
        # the quotient reaches the top bit only for a divisor of 1 (or 0, which gives all ones)
        a, b = x.args
        return ite(eq(b, const(0, b.w)), const(1, 1), ite(eq(b, const(1, b.w)), extract(hi, hi, a), const(0, 1)))
    elif op == "fp" and hi == lo == x.w - 1 and x.p[0] == "round" and _nonneg(x.args[0]):
        return const(0, 1)
    return _mk("extract", w, (x,), (hi, lo))


def _nonneg(x):
    """a float with a clear sign bit"""
    e = x.args[-1] if x.op == "concat" else x
    return e.op == "c" and e.p >> (e.w - 1) == 0


def _same_part(a, b):
    """(x, y) when a and b are the same part of x and y"""
    if a.op == b.op == "extract" and a.p == b.p:
        return a.args[0], b.args[0]
    return a, b


def _round_rules(c, a, b):
    """the arms of an ite that implements rounding with additions and subtractions (lemma L2, DESIGN.md)"""
    x, y = c.args
    if y.op == "c" and y.w in FMT and y.p == frac2bits(Fraction(1 << FMT[y.w][1]), y.w) and _nonneg(x):
        # 0 <= x < 2^m: (x + 2^m) - 2^m is x rounded to the nearest even integer; everything else has no fraction
        w = y.w
        t = fp("add", w, (const(y.p | 1 << (w - 1), w), fp("add", w, (y, x))))
        a = subst([a], {t.id: fp("round", w, (x,), "rne")})[0]
        u, v = _same_part(a, b)
        if v is x and u.op == "fp" and u.p[0] == "round" and u.args[0] is x:
            return a, a
    elif y.op == "fp" and y.p == ("round", "rne") and y.args[0] is x:
        # x < rne(x): rne(x) - 1 is floor(x)
        u, v = _same_part(a, b)
        if v is y and u is fp("add", y.w, (y, const(ONE[y.w] | 1 << (y.w - 1), y.w))):
            r = fp("round", y.w, (x,), "floor")
            r = r if u is a else extract(a.p[0], a.p[1], r)
            return r, r
    return a, b


def _base(t):
    if t.op == "extract":
        return t.args[0], t.p[1]
    return t, 0


def _merge(lo, hi):
    """concat of two adjacent pieces as one piece, or None"""
    o1, o2 = lo.op, hi.op
    if o1 == "c" and o2 == "c":
        return const(lo.p | hi.p << lo.w, lo.w + hi.w)
    if o1 == "ite" and o2 == "c" and lo.args[1].op == "c" and lo.args[2].op == "c":
        return ite(lo.args[0], concat(lo.args[1], hi), concat(lo.args[2], hi))
    if o1 == "c" and o2 == "ite" and hi.args[1].op == "c" and hi.args[2].op == "c":
        return ite(hi.args[0], concat(lo, hi.args[1]), concat(lo, hi.args[2]))
    b1, l1 = _base(lo)
    b2, l2 = _base(hi)
    if b1 is b2 and l1 + lo.w == l2:
        return extract(l2 + hi.w - 1, l1, b1)
    if o2 == "extract" and l2 >= lo.w and b2.op in ("mul", "add", "sub", "ite") and extract(l2 - 1, l2 - lo.w, b2) is lo:
        return extract(l2 + hi.w - 1, l2 - lo.w, b2)    # the low part was narrowed when it was extracted
    if o1 != o2:
        return None
    if o1 == "ite":
        if lo.args[0] is hi.args[0]:
            return ite(lo.args[0], concat(lo.args[1], hi.args[1]), concat(lo.args[2], hi.args[2]))
        return None
    if o1 == "bvnot":
        m = _merge(lo.args[0], hi.args[0])
        return None if m is None else bvnot(m)
    if o1 in ("bvand", "bvor", "bvxor"):
        f = {"bvand": bvand, "bvor": bvor, "bvxor": bvxor}[o1]
        for i, j in ((0, 1), (1, 0)):
            m = _merge(lo.args[0], hi.args[i])
            if m is None:
                continue
            n = _merge(lo.args[1], hi.args[j])
            if n is None:
                continue
            return f(m, n)
    return None


def concat(*parts):
    """parts from least significant to most significant"""
    out = []
    for x in parts:
        for a in (x.args if x.op == "concat" else (x,)):
            while out:
                m = _merge(out[-1], a)
                if m is None:
                    break
                out.pop()
                a = m
                if a.op == "concat":
                    # cannot merge further cheaply
                    break
            if a.op == "concat":
                out.extend(a.args)
            else:
                out.append(a)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[1].w == 1 and out[0].op == "extract" and out[1].op == "extract":
        r, y = out[0].args[0], out[1].args[0]
        if r.op == "fp" and r.p[0] == "round" and r.p[1] in ("floor", "rne") and out[0].p == (r.w - 2, 0) and y.w == r.w and \
                out[1].p == (y.w - 1, y.w - 1) and r.args[0] is fabs_(y):
            # rounding the magnitude and restoring the sign
            return fp("round", r.w, (y,), "trunc" if r.p[1] == "floor" else "rne")
    w = 0
    for a in out:
        w += a.w
    return _mk("concat", w, tuple(out))


def zext(x, w):
    if x.w == w:
        return x
    return concat(x, const(0, w - x.w))


def sext(x, w):
    if x.w == w:
        return x
    if x.op == "c":
        return const(sgn(x.p, x.w), w)
    if x.op == "sext":
        return sext(x.args[0], w)
    if x.op == "ite":
        return ite(x.args[0], sext(x.args[1], w), sext(x.args[2], w))
    if x.op == "concat" and x.args[-1].op == "c" and not x.args[-1].p >> (x.args[-1].w - 1):
        return zext(x, w)
    if x.w == 1:
        return ite(eq(x, const(1, 1)), const(-1, w), const(0, w))
    if x.op == "add" and max(_sbits(q) for q in x.args) < x.w and len(x.args) == 2:
        # no overflow
        return add(sext(x.args[0], w), sext(x.args[1], w))
    return _mk("sext", w, (x,))


def bool2bv(b, w=1):
    if b is TRUE:
        return const(1, w)
    if b is FALSE:
        return const(0, w)
    if w == 1 and b.op == "eq" and b.args[1].op == "c" and b.args[1].p == 1 and b.args[0].w == 1:
        return b.args[0]
    return ite(b, const(1, w), const(0, w))


def bv2bool(x):
    """bit-vector of width 1 -> bool"""
    return eq(x, const(1, x.w))


def bvnot(a):
    if a.op == "c":
        return const(~a.p, a.w)
    if a.op == "bvnot":
        return a.args[0]
    if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
        return ite(a.args[0], bvnot(a.args[1]), bvnot(a.args[2]))
    return _mk("bvnot", a.w, (a,))


def _order(a, b):
    """constant last, else by id"""
    if a.op == "c":
        return b, a
    if b.op == "c":
        return a, b
    return (a, b) if a.id <= b.id else (b, a)


def _runs(v, w):
    out = []
    i = 0
    while i < w:
        bit = v >> i & 1
        j = i
        while j < w and (v >> j & 1) == bit:
            j += 1
        out.append((bit, i, j - 1))
        i = j
    return out


def _ite_const(t):
    return t.op == "ite" and (t.args[1].op == "c" or t.args[2].op == "c")


def bvand(a, b):
    a, b = _order(a, b)
    if a is b:
        return a
    if b.op == "c":
        if a.op == "c":
            return const(a.p & b.p, a.w)
        if b.p == 0:
            return b
        if b.p == ones(b.w):
            return a
        if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
            return ite(a.args[0], bvand(a.args[1], b), bvand(a.args[2], b))
        r = _runs(b.p, b.w)
        if len(r) <= 5 or a.op == "concat":
            return concat(*[extract(j, i, a) if bit else const(0, j - i + 1) for bit, i, j in r])
    if a.op == "bvnot" and a.args[0] is b or b.op == "bvnot" and b.args[0] is a:
        return const(0, a.w)
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], bvand(a.args[1], b.args[1]), bvand(a.args[2], b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and all(q.op == "c" and q.p in (0, ones(q.w)) for q in x.args[1:]):
            return ite(x.args[0], bvand(x.args[1], y), bvand(x.args[2], y))
        if x.op == "concat" and any(q.op == "c" for q in x.args):
            return _piecewise(bvand, x, y)
    return _mk("bvand", a.w, (a, b))


def _piecewise(f, x, y):
    pos = 0
    parts = []
    for a in x.args:
        parts.append(f(a, extract(pos + a.w - 1, pos, y)))
        pos += a.w
    return concat(*parts)


def bvor(a, b):
    a, b = _order(a, b)
    if a is b:
        return a
    if b.op == "c":
        if a.op == "c":
            return const(a.p | b.p, a.w)
        if b.p == 0:
            return a
        if b.p == ones(b.w):
            return b
        if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
            return ite(a.args[0], bvor(a.args[1], b), bvor(a.args[2], b))
        r = _runs(b.p, b.w)
        if len(r) <= 5 or a.op == "concat":
            return concat(*[const(-1, j - i + 1) if bit else extract(j, i, a) for bit, i, j in r])
    if a.op == "bvnot" and a.args[0] is b or b.op == "bvnot" and b.args[0] is a:
        return const(-1, a.w)
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], bvor(a.args[1], b.args[1]), bvor(a.args[2], b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and all(q.op == "c" and q.p in (0, ones(q.w)) for q in x.args[1:]):
            return ite(x.args[0], bvor(x.args[1], y), bvor(x.args[2], y))
        if x.op == "concat" and any(q.op == "c" for q in x.args):
            return _piecewise(bvor, x, y)
    return _mk("bvor", a.w, (a, b))


def bvxor(a, b):
    a, b = _order(a, b)
    if a is b:
        return const(0, a.w)
    if b.op == "c":
        if a.op == "c":
            return const(a.p ^ b.p, a.w)
        if b.p == 0:
            return a
        if b.p == ones(b.w):
            return bvnot(a)
        if a.op == "bvxor" and a.args[1].op == "c":
            return bvxor(a.args[0], const(a.args[1].p ^ b.p, a.w))
        if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
            return ite(a.args[0], bvxor(a.args[1], b), bvxor(a.args[2], b))
        r = _runs(b.p, b.w)
        if len(r) <= 3 or a.op == "concat":
            return concat(*[bvnot(extract(j, i, a)) if bit else extract(j, i, a) for bit, i, j in r])
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], bvxor(a.args[1], b.args[1]), bvxor(a.args[2], b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "bvnot":
            return bvnot(bvxor(x.args[0], y))
        if x.op == "ite" and all(q.op == "c" and q.p in (0, ones(q.w)) for q in x.args[1:]):
            return ite(x.args[0], bvxor(x.args[1], y), bvxor(x.args[2], y))
        if x.op == "concat" and any(q.op == "c" for q in x.args):
            return _piecewise(bvxor, x, y)
    return _mk("bvxor", a.w, (a, b))


def add(a, b):
    a, b = _order(a, b)
    if b.op == "c":
        if a.op == "c":
            return const(a.p + b.p, a.w)
        if b.p == 0:
            return a
        if a.op == "add" and a.args[1].op == "c":
            return add(a.args[0], const(a.args[1].p + b.p, a.w))
        if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        if b.p == 1 << (a.w - 1) and a.op not in ("add", "sub", "mul"):
            return bvxor(a, b)
        # concat with low constant part wide enough: no carry
        if a.op == "concat" and a.args[0].op == "c":
            l = a.args[0]
            m = ones(l.w)
            if b.p <= m and (l.p + b.p) <= m:
                return concat(const(l.p + b.p, l.w), *a.args[1:])
    else:
        # (x + c) + y  -> (x + y) + c
        if a.op == "add" and a.args[1].op == "c":
            return add(add(a.args[0], b), a.args[1])
        if b.op == "add" and b.args[1].op == "c":
            return add(add(a, b.args[0]), b.args[1])
        if b.op == "sub" and b.args[1] is a:
            return b.args[0]
        if a.op == "sub" and a.args[1] is b:
            return a.args[0]
    return _mk("add", a.w, (a, b))


def sub(a, b):
    if a is b:
        return const(0, a.w)
    if b.op == "c":
        return add(a, const(-b.p, b.w))
    if a.op == "add":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if a.args[1].op == "c":
            if b.op == "add" and b.args[1].op == "c":
                return add(sub(a.args[0], b.args[0]), const(a.args[1].p - b.args[1].p, a.w))
            return add(sub(a.args[0], b), a.args[1])
    if b.op == "add":
        if b.args[1].op == "c":
            return add(sub(a, b.args[0]), const(-b.args[1].p, b.w))
    if a.op == "c" and b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c":
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    if a.op == "c" and a.p == 0 and b.op == "concat" and _zbits(b) == 1:
        return sext(b.args[0], b.w)
    if a.op == "concat" and b.op == "concat" and len(a.args) == len(b.args) and a.args[0].op == "c" and b.args[0].op == "c" and a.args[1:] == b.args[1:]:
        return const(a.args[0].p - b.args[0].p, a.w)
    if b.op == "mul":
        # a - d * (a / d) is the remainder (also for d == 0 and for the overflowing signed case, in SMT-LIB semantics)
        for q, d in (b.args, b.args[::-1]):
            if q.op in ("udiv", "sdiv") and q.args[0] is a and q.args[1] is d:
                return (_urem if q.op == "udiv" else _srem_)(a, d)
    elif b.op == "ite" and (b.args[1].op == "mul" or b.args[2].op == "mul") and _divs(b):
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    return _mk("sub", a.w, (a, b))


def _divs(x):
    if x.op == "ite":
        return _divs(x.args[1]) or _divs(x.args[2])
    if x.op == "mul":
        return any(q.op in ("udiv", "sdiv") for q in x.args)
    return x.op in ("udiv", "sdiv")


def neg(a):
    return sub(const(0, a.w), a)


def _unit(q):
    """an ite with a branch that is 0, 1 or -1: one of its cases simplifies most operations"""
    return any(x.op == "c" and x.p in (0, 1, ones(x.w)) for x in q.args[1:])


def mul(a, b):
    a, b = _order(a, b)
    if b.op == "c":
        if a.op == "c":
            return const(a.p * b.p, a.w)
        if b.p == 0:
            return b
        if b.p == 1:
            return a
        if b.p & (b.p - 1) == 0:
            return shl(a, const(b.p.bit_length() - 1, b.w))
        if b.p == ones(b.w):
            return neg(a)
        if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
            return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
        if a.op == "add" and a.args[1].op == "c":
            return add(mul(a.args[0], b), mul(a.args[1], b))
    for q, d in ((a, b), (b, a)):
        if q.op == "ite" and (_divs(q) or _unit(q) and not any(x.op == "c" and x.p == 1 for x in q.args[1:])):
            return ite(q.args[0], mul(q.args[1], d), mul(q.args[2], d))
    fs = _factors(a) + _factors(b)
    if len(fs) > 2 and not _divs(a) and not _divs(b):
        # one association and order for every product of the same factors
        fs.sort(key=lambda x: x.id)
        r = fs[0]
        for x in fs[1:]:
            r = _mk("mul", a.w, (r, x))
        return r
    return _mk("mul", a.w, (a, b))


def _factors(x):
    return _factors(x.args[0]) + _factors(x.args[1]) if x.op == "mul" else [x]


def _divop(name, f):
    def g(a, b):
        if a.op == "c" and b.op == "c" and b.p != 0:
            return const(f(a.p, b.p, a.w), a.w)
        if b.op == "c" and b.p == 1:
            return a if "div" in name else const(0, a.w)
        if b.op == "c" and b.p and b.p & (b.p - 1) == 0:
            k = b.p.bit_length() - 1
            if name == "udiv":
                return lshr(a, const(k, a.w))
            if name == "urem":
                return bvand(a, const(b.p - 1, a.w))
        return _mk(name, a.w, (a, b))
    return g


def _sdiv(a, b, w):
    a, b = sgn(a, w), sgn(b, w)
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def _srem(a, b, w):
    a, b = sgn(a, w), sgn(b, w)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


_udiv = _divop("udiv", lambda a, b, w: a // b)
_urem = _divop("urem", lambda a, b, w: a % b)
_sdiv_ = _divop("sdiv", _sdiv)
_srem_ = _divop("srem", _srem)


def _zbits(x):
    """number of significant low bits of a zero-extended term"""
    if x.op == "c":
        return x.p.bit_length()
    if x.op == "concat" and x.args[-1].op == "c" and x.args[-1].p == 0:
        return x.w - x.args[-1].w
    return x.w


def _sbits(x):
    """width of the narrowest signed representation known"""
    if x.op == "c":
        v = sgn(x.p, x.w)
        return (v if v >= 0 else ~v).bit_length() + 1
    if x.op == "sext":
        return x.args[0].w
    z = _zbits(x)
    return z + 1 if z < x.w else x.w


def _udr(f):
    def g(a, b):
        k = max(1, _zbits(a), _zbits(b))
        if k < a.w and b.op != "c":
            # b == 0 is all ones / a in SMT; never relied upon (obligation elsewhere)
            r = zext(f(extract(k - 1, 0, a), extract(k - 1, 0, b)), a.w)
            return r
        return f(a, b)
    return g


udiv = _udr(_udiv)
urem = _udr(_urem)


def sdiv(a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        return _sdiv_(a, b)
    if _zbits(a) < w and _zbits(b) < w:
        return udiv(a, b)
    k = max(_sbits(a), _sbits(b))
    if k < w and b.op != "c":
        x, y = extract(k - 1, 0, a), extract(k - 1, 0, b)
        return ite(and_b(eq(x, const(1 << (k - 1), k)), eq(y, const(-1, k))), const(1 << (k - 1), w), sext(_sdiv_(x, y), w))
    return _sdiv_(a, b)


def srem(a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        return _srem_(a, b)
    if _zbits(a) < w and _zbits(b) < w:
        return urem(a, b)
    k = max(_sbits(a), _sbits(b))
    if k < w and b.op != "c":
        return sext(_srem_(extract(k - 1, 0, a), extract(k - 1, 0, b)), w)
    return _srem_(a, b)


def shl(a, b):
    if b.op == "c":
        k = b.p
        if k == 0:
            return a
        if k >= a.w:
            return const(0, a.w)
        return concat(const(0, k), extract(a.w - 1 - k, 0, a))
    if a.op == "c" and a.p == 0:
        return a
    if b.op == "ite" and (b.args[1].op == "c" and b.args[2].op == "c" or _unit(b)):
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    if b.op == "c":
        k = b.p
        if k == 0:
            return a
        if k >= a.w:
            return const(0, a.w)
        return zext(extract(a.w - 1, k, a), a.w)
    if a.op == "c" and a.p == 0:
        return a
    if b.op == "ite" and (b.args[1].op == "c" and b.args[2].op == "c" or _unit(b)):
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return _mk("lshr", a.w, (a, b))


def ashr(a, b):
    if b.op == "c":
        k = min(b.p, a.w - 1)
        if k == 0:
            return a
        return sext(extract(a.w - 1, k, a), a.w)
    if b.op == "ite" and (b.args[1].op == "c" and b.args[2].op == "c" or _unit(b)):
        return ite(b.args[0], ashr(a, b.args[1]), ashr(a, b.args[2]))
    return _mk("ashr", a.w, (a, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.w == 0:
        if a is TRUE:
            return or_b(c, b)
        if a is FALSE:
            return and_b(not_(c), b)
        if b is TRUE:
            return or_b(not_(c), a)
        if b is FALSE:
            return and_b(c, a)
    if a.op == "ite":
        if a.args[0] is c:
            return ite(c, a.args[1], b)
        if a.args[2] is b:
            return ite(and_b(c, a.args[0]), a.args[1], b)
    if b.op == "ite":
        if b.args[0] is c:
            return ite(c, a, b.args[2])
        if b.args[1] is a:
            return ite(or_b(c, b.args[0]), a, b.args[2])
    if c.op == "flt" and a.w > 0:
        a, b = _round_rules(c, a, b)
        if a is b:
            return a
    # sign bit pattern
    if a.w == 1 and a.op == "c" and b.op == "c" and a.p == 1 and c.op == "eq" and c.args[0].w == 1 and c.args[1].op == "c" and c.args[1].p == 1:
        return c.args[0]
    return _mk("ite", a.w, (c, a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        if not_(a) is b:
            return FALSE
        return _mk("eq", 0, (a, b))
    a, b = _order(a, b)
    if b.op == "c":
        if a.op == "c":
            return boolc(a.p == b.p)
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if x.op == "c" or y.op == "c":
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == "bvnot":
            return eq(a.args[0], const(~b.p, b.w))
        if a.w == 1 and b.p == 0:
            return not_(eq(a, const(1, 1)))
        if a.op == "concat":
            pos = 0
            cs = []
            for q in a.args:
                cs.append(eq(q, const(b.p >> pos, q.w)))
                pos += q.w
            return and_b(*cs)
        if a.op == "add" and a.args[1].op == "c":
            return eq(a.args[0], const(b.p - a.args[1].p, a.w))
        if a.op == "sext":
            x = a.args[0]
            if sgn(b.p, b.w) == sgn(b.p & ones(x.w), x.w):
                return eq(x, const(b.p, x.w))
            return FALSE
        if a.op == "bvand" and b.p == ones(b.w):
            return and_b(eq(a.args[0], b), eq(a.args[1], b))
        if a.op == "bvor" and b.p == 0:
            return and_b(eq(a.args[0], b), eq(a.args[1], b))
        if a.op == "bvxor" and b.p == 0:
            return eq(a.args[0], a.args[1])
        if a.w == 1:
            if a.op == "bvand":
                return and_b(eq(a.args[0], b), eq(a.args[1], b))
            if a.op == "bvor":
                return or_b(eq(a.args[0], b), eq(a.args[1], b))
    elif a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    elif a.op == "concat" and b.op == "concat" and [q.w for q in a.args] == [q.w for q in b.args]:
        return and_b(*[eq(x, y) for x, y in zip(a.args, b.args)])
    return _mk("eq", 0, (a, b))


def ult(a, b):
    if a is b:
        return FALSE
    r = _probe_cmp("ult", ult, a, b)
    if r is not None:
        return r
    if a.op == "c" and b.op == "c":
        return boolc(a.p < b.p)
    if b.op == "c" and b.p == 0 or a.op == "c" and a.p == ones(a.w):
        return FALSE
    if b.op == "c" and b.p == 1:
        return eq(a, const(0, a.w))
    # zero-extended on both sides / against a constant
    if a.op == "concat" and a.args[-1].op == "c" and a.args[-1].p == 0:
        k = a.w - a.args[-1].w
        if b.op == "c":
            if b.p >> k:
                return TRUE
            return ult(extract(k - 1, 0, a), const(b.p, k))
    if a.op == "c" and b.op == "concat" or b.op == "c" and a.op == "concat":
        x, y = urange(a, 2), urange(b, 2)
        if x[1] < y[0]:
            return TRUE
        if x[0] >= y[1]:
            return FALSE
    return _mk("ult", 0, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def _probe(x):
    """an input that a harness names probe*: comparisons of a probe with a minimum or maximum distribute over its arguments"""
    return x.op == "v" and x.p.startswith("probe")


def _minmax(name, x):
    """(is minimum, a, b) if x is min(a, b) or max(a, b) in the order of the comparison name"""
    if x.op != "ite" or x.args[0].op != name:
        return None
    l, g = x.args[0].args
    if x.args[1] is l and x.args[2] is g:
        return True, l, g
    if x.args[1] is g and x.args[2] is l:
        return False, l, g
    return None


def _probe_cmp(name, f, a, b):
    """name: the order the minimum was computed in, f: the comparison to build"""
    if _probe(a):
        m, left = _minmax(name, b), False
    elif _probe(b):
        m, left = _minmax(name, a), True
    else:
        return None
    k = (f.__name__, a, b)
    r = _probes.get(k)
    if r is None and m is None:
        o = a if left else b
        if o.op != "ite":
            return None
        r = ite(o.args[0], f(o.args[1], b), f(o.args[2], b)) if left else ite(o.args[0], f(a, o.args[1]), f(a, o.args[2]))
        _probes[k] = r
    if r is None:
        mn, x, y = m
        p, q = (f(x, b), f(y, b)) if left else (f(a, x), f(a, y))
        r = or_b(p, q) if mn == left else and_b(p, q)
        if name == "flt":      # only without NaN
            n = or_b(fnan(x), fnan(y))
            o = b if not left else a
            orig = ite(o.args[0], f(o.args[1], b), f(o.args[2], b)) if left else ite(o.args[0], f(a, o.args[1]), f(a, o.args[2]))
            r = ite(n, orig, r)
        _probes[k] = r
    return r


def _unflip(x):
    """y with x == y ^ the sign bit, or None"""
    if x.op == "concat" and x.args[-1].w == 1 and x.args[-1].op == "bvnot":
        return concat(*(list(x.args[:-1]) + [x.args[-1].args[0]]))
    return None


def _flip(x):
    """the same for a constant, which always has one"""
    if x.op == "c":
        return const(x.p ^ (1 << (x.w - 1)), x.w)
    return _unflip(x)


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "concat" or b.op == "concat":
        x, y = _flip(a), _flip(b)
        if x is not None and y is not None:
            return ult(x, y)
    r = _probe_cmp("slt", slt, a, b)
    if r is not None:
        return r
    if a.op == "c" and b.op == "c":
        return boolc(sgn(a.p, a.w) < sgn(b.p, b.w))
    if b.op == "c" and b.p == 0:
        return eq(extract(a.w - 1, a.w - 1, a), const(1, 1))
    if a.op == "c" and a.p == ones(a.w):
        return eq(extract(b.w - 1, b.w - 1, b), const(0, 1))
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == "ite" and b.args[1].op == "c" and b.args[2].op == "c":
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if a.op == "c" and a.p == 0 and _zbits(b) < b.w:
        return not_(eq(b, a))       # the top bit is known to be zero
    return _mk("slt", 0, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def tz(t):
    """number of low bits known to be zero"""
    if t.op == "c":
        if t.p == 0:
            return t.w
        n = 0
        while not t.p >> n & 1:
            n += 1
        return n
    if t.op == "concat":
        n = 0
        for a in t.args:
            k = tz(a)
            n += k
            if k < a.w:
                break
        return n
    if t.op in ("add", "sub"):
        return min(tz(t.args[0]), tz(t.args[1]))
    if t.op == "mul":
        return min(t.w, tz(t.args[0]) + tz(t.args[1]))
    if t.op == "ite":
        return min(tz(t.args[1]), tz(t.args[2]))
    if t.op == "sext":
        a = t.args[0]
        k = tz(a)
        return t.w if k == a.w else k
    return 0


def urange(t, depth=6):
    """conservative unsigned interval of a term"""
    if t.op == "c":
        return t.p, t.p
    full = (0, ones(t.w))
    if depth == 0:
        return full
    if t.op == "concat":
        lo = hi = 0
        pos = 0
        for a in t.args:
            l, h = urange(a, depth - 1)
            lo += l << pos
            hi += h << pos
            pos += a.w
        return lo, hi
    if t.op == "ite":
        a = urange(t.args[1], depth - 1)
        b = urange(t.args[2], depth - 1)
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == "add":
        a = urange(t.args[0], depth - 1)
        b = urange(t.args[1], depth - 1)
        if a[1] + b[1] <= full[1]:
            return a[0] + b[0], a[1] + b[1]
        # adding a negative constant
        return full
    if t.op == "mul":
        a = urange(t.args[0], depth - 1)
        b = urange(t.args[1], depth - 1)
        if a[1] * b[1] <= full[1]:
            return a[0] * b[0], a[1] * b[1]
        return full
    if t.op == "bvand":
        a = urange(t.args[0], depth - 1)
        b = urange(t.args[1], depth - 1)
        return 0, min(a[1], b[1])
    if t.op == "urem" and t.args[1].op == "c" and t.args[1].p:
        return 0, t.args[1].p - 1
    if t.op == "fp" and t.w in FMT:
        r = frange(t, depth - 1)
        if r is not None and r[0] > 0:
            return r
    return full


# ---------------------------------------------------------------- floating point (on bit patterns)
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}


def bits2f(v, w):
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", v))[0]
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", v))[0]
    return struct.unpack("<e", struct.pack("<H", v))[0]


def is_nan_bits(v, w):
    e, m = FMT[w]
    return (v >> m & ones(e)) == ones(e) and v & ones(m) != 0


def is_inf_bits(v, w):
    e, m = FMT[w]
    return (v >> m & ones(e)) == ones(e) and v & ones(m) == 0


def _key(b, w):
    """order of the floats that are not NaN; both zeros are 0"""
    return -(b & ones(w - 1)) if b >> (w - 1) else b


def _unkey(k, w):
    return k if k >= 0 else -k | 1 << (w - 1)


_FR = {}


def frange(t, d=24):
    """(smallest, largest) possible value as _key, or None: NaN or unknown.  Rounding is monotone, so end points bound the results."""
    if t.id in _FR:
        return _FR[t.id]
    r = _frange(t, d) if d and t.w in FMT else None
    if d:
        _FR[t.id] = r
    return r


def _mrange(t, d):
    """bounds of the magnitude"""
    w = t.w
    if t.op == "fp" and t.p[0] in ("ext", "trunc") and d:
        m = _mrange(t.args[0], d - 1)
        return m and tuple(_key(fp_eval(t.p[0], w, None, [x], [t.args[0].w]), w) for x in m)
    if t.op == "concat" and t.args[-1].w == 1 and t.args[-1].op != "c" and w in FMT:
        m = urange(concat(*t.args[:-1]))
        return m if m[1] <= ones(FMT[w][0]) << FMT[w][1] else None
    m = frange(t, d)
    return m and (0 if m[0] <= 0 <= m[1] else min(abs(m[0]), abs(m[1])), max(abs(m[0]), abs(m[1])))


def _frange(t, d):
    w = t.w
    inf = ones(FMT[w][0]) << FMT[w][1]
    if t.op == "c":
        return None if is_nan_bits(t.p, w) else (_key(t.p, w),) * 2
    if t.op == "ite":
        a, b = frange(t.args[1], d - 1), frange(t.args[2], d - 1)
        return a and b and (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == "concat":
        s = t.args[-1]
        neg = None
        if s.op == "c":
            neg = s.p >> (s.w - 1)
        if len(t.args) == 2 and s.w == 1 and t.args[0].op == "extract" and t.args[0].p == (w - 2, 0):
            # the magnitude of something
            m = _mrange(t.args[0].args[0], d - 1)
            if m is None:
                return None
        else:
            rest = list(t.args[:-1])
            if s.w > 1:
                rest.append(extract(s.w - 2, 0, s))
            m = urange(concat(*rest))
        if m[1] > inf:
            return None
        return m if neg == 0 else (-m[1], -m[0]) if neg else (-m[1], m[1])
    if t.op == "bvand":
        for i in (0, 1):
            if t.args[i].op == "c":
                r = frange(t.args[1 - i], d - 1)
                if r is not None and r[0] >= 0:
                    # clearing bits of a positive float
                    return 0, r[1]
        return None
    if t.op != "fp":
        return None
    n = t.p[0]
    if n in ("fromsi", "fromui"):
        x = t.args[0]
        lo, hi = (-(1 << (x.w - 1)), (1 << (x.w - 1)) - 1) if n == "fromsi" else urange(x)
        return _key(frac2bits(Fraction(lo), w), w), _key(frac2bits(Fraction(hi), w), w)
    rs = [frange(a, d - 1) for a in t.args]
    if None in rs:
        return None

    def ev(*k):
        return _key(fp_eval(n, w, t.p[1], [_unkey(x, a.w) for x, a in zip(k, t.args)], [a.w for a in t.args]), w)
    infs = [ones(FMT[a.w][0]) << FMT[a.w][1] for a in t.args]
    if n in ("round", "ext", "trunc") or n == "sqrt" and rs[0][0] >= 0:
        return ev(rs[0][0]), ev(rs[0][1])
    if any(max(abs(l), abs(h)) >= i for (l, h), i in zip(rs, infs)):
        return None
    if n == "add":
        return ev(rs[0][0], rs[1][0]), ev(rs[0][1], rs[1][1])
    if n == "mul" or n == "div" and not rs[1][0] <= 0 <= rs[1][1]:
        v = [ev(x, y) for x in rs[0] for y in rs[1]]
        return min(v), max(v)
    return None


QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000, 16: 0x7e00}


def frac2bits(f, w, sign_if_zero=0):
    """round a Fraction to nearest even"""
    e, m = FMT[w]
    bias = ones(e - 1)
    if f == 0:
        return sign_if_zero << (w - 1)
    s = 1 if f < 0 else 0
    f = abs(f)
    # exponent
    x = f.numerator.bit_length() - f.denominator.bit_length()
    if Fraction(2) ** x > f:
        x -= 1
    elif Fraction(2) ** (x + 1) <= f:
        x += 1
    x = max(x, 1 - bias)
    q = f / (Fraction(2) ** (x - m))
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << (m + 1):
        n >>= 1
        x += 1
    if n < 1 << m:
        bits = n  # subnormal (x == 1-bias)
    else:
        be = x + bias
        if be >= ones(e):
            return s << (w - 1) | ones(e) << m
        bits = be << m | n & ones(m)
    return s << (w - 1) | bits


def bits2frac(v, w):
    e, m = FMT[w]
    bias = ones(e - 1)
    be = v >> m & ones(e)
    n = v & ones(m)
    if be:
        n |= 1 << m
    else:
        be = 1
    f = Fraction(n) * Fraction(2) ** (be - bias - m)
    return -f if v >> (w - 1) else f


def _isqrt_frac(f, w):
    """correctly rounded square root of positive Fraction"""
    import math
    # scale so that the integer sqrt has plenty of bits, keep sticky
    n, d = f.numerator, f.denominator
    k = 0
    shift = 2 * 140
    s = n * d << shift
    r = math.isqrt(s)
    exact = r * r == s
    # sqrt(n/d) = sqrt(n*d)/d
    q = Fraction(r, d) / Fraction(2) ** 140
    if not exact:
        q += Fraction(1, d) / Fraction(2) ** 141
    return frac2bits(q, w)


def fp_eval(name, w, extra, vals, ws):
    """concrete IEEE (round to nearest even) evaluation on bit patterns; w is the result width"""
    if name in ("add", "mul", "div", "sqrt", "fma", "rem"):
        if any(is_nan_bits(v, w) for v in vals):
            for v in vals:
                if is_nan_bits(v, w):
                    return v | 1 << (FMT[w][1] - 1)
        if name == "add":
            a, b = vals
            if is_inf_bits(a, w):
                if is_inf_bits(b, w) and a != b:
                    return QNAN[w] | 1 << (w - 1)
                return a
            if is_inf_bits(b, w):
                return b
            fa, fb = bits2frac(a, w), bits2frac(b, w)
            z = (a >> (w - 1)) & (b >> (w - 1))
            return frac2bits(fa + fb, w, z)
        if name == "mul":
            a, b = vals
            s = (a ^ b) >> (w - 1)
            if is_inf_bits(a, w) or is_inf_bits(b, w):
                m = ones(w - 1)
                if a & m == 0 or b & m == 0:
                    return QNAN[w] | 1 << (w - 1)
                return s << (w - 1) | ones(FMT[w][0]) << FMT[w][1]
            return _fixsign(frac2bits(bits2frac(a, w) * bits2frac(b, w), w, s), s, w)
        if name == "div":
            a, b = vals
            s = (a ^ b) >> (w - 1)
            m = ones(w - 1)
            inf = s << (w - 1) | ones(FMT[w][0]) << FMT[w][1]
            if is_inf_bits(a, w):
                return QNAN[w] | 1 << (w - 1) if is_inf_bits(b, w) else inf
            if is_inf_bits(b, w):
                return s << (w - 1)
            if b & m == 0:
                return QNAN[w] | 1 << (w - 1) if a & m == 0 else inf
            return _fixsign(frac2bits(bits2frac(a, w) / bits2frac(b, w), w, s), s, w)
        if name == "sqrt":
            a = vals[0]
            m = ones(w - 1)
            if a & m == 0:
                return a
            if a >> (w - 1):
                return QNAN[w] | 1 << (w - 1)
            if is_inf_bits(a, w):
                return a
            return _isqrt_frac(bits2frac(a, w), w)
        if name == "fma":
            a, b, c = vals
            m = ones(w - 1)
            s = (a ^ b) >> (w - 1)
            if is_inf_bits(a, w) or is_inf_bits(b, w):
                if a & m == 0 or b & m == 0:
                    return QNAN[w] | 1 << (w - 1)
                if is_inf_bits(c, w) and c >> (w - 1) != s:
                    return QNAN[w] | 1 << (w - 1)
                return s << (w - 1) | ones(FMT[w][0]) << FMT[w][1]
            if is_inf_bits(c, w):
                return c
            p = bits2frac(a, w) * bits2frac(b, w)
            fc = bits2frac(c, w)
            r = p + fc
            if r == 0:
                z = (s & c >> (w - 1)) if p == 0 and fc == 0 else 0
                return z << (w - 1)
            return frac2bits(r, w)
        if name == "rem":
            a, b = vals
            m = ones(w - 1)
            if is_inf_bits(a, w) or b & m == 0:
                return QNAN[w] | 1 << (w - 1)
            if is_inf_bits(b, w):
                return a
            fa, fb = bits2frac(a, w), bits2frac(b, w)
            q = abs(fa) // abs(fb)
            r = abs(fa) - q * abs(fb)
            return frac2bits(-r if fa < 0 else r, w, a >> (w - 1))
    sw = ws[0]
    v = vals[0]
    if name in ("ext", "trunc"):
        if is_nan_bits(v, sw):
            e, m = FMT[w]
            sm = FMT[sw][1]
            frac = v & ones(sm)
            frac = frac << (m - sm) if m > sm else frac >> (sm - m)
            return (v >> (sw - 1)) << (w - 1) | ones(e) << m | frac | 1 << (m - 1)
        if is_inf_bits(v, sw):
            return (v >> (sw - 1)) << (w - 1) | ones(FMT[w][0]) << FMT[w][1]
        s = v >> (sw - 1)
        return _fixsign(frac2bits(bits2frac(v, sw), w, s), s, w)
    if name == "fromsi":
        return frac2bits(Fraction(sgn(v, sw)), w)
    if name == "fromui":
        return frac2bits(Fraction(v), w)
    if name == "round":
        if is_nan_bits(v, w):
            return v | 1 << (FMT[w][1] - 1)
        if is_inf_bits(v, w):
            return v
        f = bits2frac(v, w)
        n = round_frac(f, extra)
        s = v >> (w - 1)
        return _fixsign(frac2bits(Fraction(n), w, s), s, w)
    if name in ("cvt_rne", "cvt_rtz"):
        ind = 1 << (w - 1)
        if is_nan_bits(v, sw) or is_inf_bits(v, sw):
            return ind
        n = round_frac(bits2frac(v, sw), "rne" if name == "cvt_rne" else "trunc")
        return n & ones(w) if -ind <= n < ind else ind
    if name == "cvtu_rtz":
        if is_nan_bits(v, sw) or is_inf_bits(v, sw):
            return ones(w)
        n = round_frac(bits2frac(v, sw), "trunc")
        return n & ones(w)
    raise KeyError(name)


def _fixsign(b, s, w):
    return b & ones(w - 1) | s << (w - 1)


def round_frac(f, mode):
    fl = f.numerator // f.denominator
    if mode == "floor":
        return fl
    if mode == "ceil":
        return -((-f.numerator) // f.denominator)
    if mode == "trunc":
        return fl if f >= 0 else -((-f.numerator) // f.denominator)
    r = f - fl
    if mode == "rna":
        if f >= 0:
            return fl + (1 if r >= Fraction(1, 2) else 0)
        return fl + (1 if r > Fraction(1, 2) else 0)
    if r > Fraction(1, 2) or r == Fraction(1, 2) and fl & 1:
        fl += 1
    return fl


COMM = {"add", "mul"}


def _sbits(x, d=24):
    """number of bits that hold the value of a signed term"""
    if x.op == "c":
        v = sgn(x.p, x.w)
        return (v if v >= 0 else ~v).bit_length() + 1
    if x.op == "sext":
        return _sbits(x.args[0])
    if d:
        if x.op == "add":
            return min(x.w, max(_sbits(q, d - 1) for q in x.args) + (len(x.args) - 1).bit_length())
        if x.op == "ite":
            return max(_sbits(q, d - 1) for q in x.args[1:])
    z = _zbits(x)
    return min(x.w, z + 1)


def _as_int(x, m):
    """(signed integer term, width) of a float that is exactly an integer of few bits"""
    if x.op == "fp" and x.p[0] in ("fromsi", "fromui"):
        y = x.args[0]
        if x.p[0] == "fromsi":
            return y
        return zext(y, y.w + 1)
    if x.op == "ite":
        y, z = _as_int(x.args[1], m), _as_int(x.args[2], m)
        if y is None or z is None:
            return None
        k = max(y.w, z.w)
        return ite(x.args[0], sext(y, k), sext(z, k))
    if x.op == "c":
        if is_nan_bits(x.p, x.w) or is_inf_bits(x.p, x.w):
            return None
        f = bits2frac(x.p, x.w)
        if f.denominator == 1 and abs(f.numerator) < 1 << 33 and not (f == 0 and x.p):
            k = abs(f.numerator).bit_length() + 1
            return const(f.numerator, k)
    return None


def _intdiv(a, w, m):
    """trunc(fl(x)/fl(y)) for integers x, y of k bits, 2k <= m + 1: the correctly rounded quotient cannot cross an
    integer (distance of x/y to the next integer is at least 1/|y|, the error at most |x/y| 2^-(m+1)), so the
    truncated value is the integer quotient (lemma L1, DESIGN.md)"""
    x, y = _as_int(a.args[0], m), _as_int(a.args[1], m)
    if x is None or y is None:
        return None
    k = max(x.w, y.w)
    # need |x| 2^-(m+1) < 1, and both conversions exact
    if x.w > m + 1 or y.w > m + 1 or k >= m + 1:
        return None
    W = max(k + 1, w)
    q = sdiv(sext(x, W), sext(y, W))
    inr = eq(sext(extract(w - 1, 0, q), W), q)
    ind = const(1 << (w - 1), w)
    r = ite(inr, extract(w - 1, 0, q), ind)
    # division by zero gives infinity or NaN: the integer indefinite value
    return ite(eq(y, const(0, y.w)), ind, r)


def _uintdiv_cmp(name, a, b):
    """comparison of fl(x)/fl(y), x and y unsigned integers, with an integer constant c > 0, by lemma L1"""
    c, d, left = (a, b, True) if a.op == "c" else (b, a, False)
    if c.op != "c" or d.op != "fp" or d.p[0] != "div" or d.w not in FMT:
        return None
    x, y = d.args
    if not (x.op == y.op == "fp" and x.p[0] == y.p[0] == "fromui"):
        return None
    x, y = x.args[0], y.args[0]
    m = FMT[d.w][1]
    if max(x.w, y.w) > m or is_nan_bits(c.p, c.w) or is_inf_bits(c.p, c.w):
        return None
    f = bits2frac(c.p, c.w)
    if f.denominator != 1 or f <= 0:
        return None
    W = max(x.w, y.w)
    x, y = zext(x, W), zext(y, W)
    if f.numerator >= 1 << W:
        inf = and_b(eq(y, const(0, W)), not_(eq(x, const(0, W))))
        return inf if left else not_(eq(y, const(0, W)))
    k = const(f.numerator, W)
    q = udiv(x, y)
    z = eq(y, const(0, W))
    xz = eq(x, const(0, W))
    above = or_b(ult(k, q), and_b(eq(q, k), not_(eq(urem(x, y), const(0, W)))))
    if left and name == "flt":
        return ite(z, not_(xz), above)
    if left and name == "fle":
        return ite(z, not_(xz), ule(k, q))
    if not left and name == "flt":
        return ite(z, FALSE, ult(q, k))
    if not left and name == "fle":
        return ite(z, FALSE, not_(above))
    return None


def _tz(x):
    """number of low bits known to be zero"""
    if x.op == "c":
        return x.w if x.p == 0 else (x.p & -x.p).bit_length() - 1
    if x.op == "concat":
        n = 0
        for q in x.args:
            k = _tz(q)
            n += k
            if k < q.w:
                break
        return n
    if x.op in ("sext", "zext"):
        return min(_tz(x.args[0]), x.args[0].w)
    return 0


def _int_prod(x):
    """(x, y) of a product of two exactly converted integers that is exact as well; its zero may be negative"""
    if x.op == "fp" and x.p[0] == "mul" and x.w in FMT:
        a, b = _as_int(x.args[0], 0), _as_int(x.args[1], 0)
        if a is not None and b is not None and a.w + b.w <= FMT[x.w][1] + 1:
            return a, b
    return None


def _int_fma(w, a, b, c):
    """a * b + c of integers, rounded once"""
    k = max(32, ((1 << (a.w + b.w - 2)) + (1 << (c.w - 1))).bit_length() + 1)
    if c.op == "concat":
        c = concat(*(c.args[:-1] + (sext(c.args[-1], k - c.w + c.args[-1].w),)))
    return fp("fromsi", w, (add(mul(sext(a, k), sext(b, k)), sext(c, k)),))


ONE = {16: 0x3c00, 32: 0x3f800000, 64: 0x3ff0000000000000}


def fp(name, w, args, extra=None):
    """args: terms (bit patterns / integers); w: result width"""
    if name in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    elif name == "fma" and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    if all(a.op == "c" for a in args):
        try:
            return const(fp_eval(name, w, extra, [a.p for a in args], [a.w for a in args]), w)
        except KeyError:
            pass
    if name == "trunc" and args[0].op == "fp" and args[0].p[0] == "ext" and args[0].args[0].w == w:
        return args[0].args[0]   # exact up to NaN quieting
    a = args[0]
    if name in ("ext", "trunc") and a.op == "concat" and a.args[-1].op == "bvnot" and a.args[-1].w == 1:
        return fneg(fp(name, w, (fneg(a),), extra))
    if name == "trunc" and a.op == "fp" and a.p[0] == "fromsi" and a.w in FMT and a.args[0].w <= FMT[a.w][1] + 2:
        return fp("fromsi", w, a.args)      # rounded once
    if name == "ext" and a.op == "fp" and a.p[0] in ("fromsi", "fromui") and a.w in FMT and a.args[0].w - _tz(a.args[0]) <= FMT[a.w][1] + 1:
        return fp(a.p[0], w, a.args)        # exact
    if name == "add" and w in FMT:
        for i in (0, 1):
            pr, c = _int_prod(args[i]), _as_int(args[1 - i], 0)
            # c is never -0, so neither is the sum
            if pr is not None and c is not None and max(pr[0].w + pr[1].w, c.w) <= FMT[w][1]:
                return _int_fma(w, pr[0], pr[1], c)
    if name == "fma" and w in FMT:
        q = [_as_int(v, 0) for v in args]
        if None not in q and max(v.w - _tz(v) for v in q) <= FMT[w][1] + 1:
            return _int_fma(w, *q)
    if name == "add" and w in FMT and not (a.op == "c" or args[1].op == "c"):
        x, y = _as_int(a, 0), _as_int(args[1], 0)
        if x is not None and y is not None and max(x.w, y.w) <= FMT[w][1]:
            # the sum of two integers is exact
            k = max(x.w, y.w) + 1
            return fp("fromsi", w, (add(sext(x, k), sext(y, k)),))
    if name in ("add", "mul", "div"):
        for i in (0, 1):
            x, y = args[i], args[1 - i]
            if x.op == "c" and name == "add" and w in FMT and x.p == 1 << (w - 1):
                return y            # y + -0, up to NaN quieting
            if x.op == "c" and w in FMT and x.p == ONE[w] and (name == "mul" or name == "div" and i == 1):
                return y
            if x.op == "ite" and (x.args[1].op == "c" or x.args[2].op == "c"):
                two = [(q, y) if i == 0 else (y, q) for q in x.args[1:]]
                return ite(x.args[0], fp(name, w, two[0], extra), fp(name, w, two[1], extra))
    if name == "add" and args[0].op != args[1].op and w in FMT:
        c, b = args if a.op == "c" else (args[1], a)
        if c.op == "c" and b.op == "fp" and b.p[0] == "fromsi" and b.args[0].w <= FMT[w][1]:
            x = b.args[0]
            # the integer offset that turns a signed conversion into an unsigned one; exact
            if c.p == frac2bits(Fraction(1 << (x.w - 1)), w):
                return fp("fromui", w, (add(x, const(1 << (x.w - 1), x.w)),))
    if name == "add" and w in FMT:
        x, y = _as_int(a, 0), _as_int(args[1], 0)
        if x is not None and y is not None and max(x.w, y.w) <= FMT[w][1]:
            # the sum of two integers is exact
            k = max(x.w, y.w) + 1
            return fp("fromsi", w, (add(sext(x, k), sext(y, k)),))
    if name == "fromsi":
        if a.op == "sext":
            return fp("fromsi", w, (a.args[0],))
        if a.op in ("add", "ite"):
            k = _sbits(a)
            if k < a.w:
                return fp("fromsi", w, (extract(k - 1, 0, a),))
        z = _zbits(a)
        if z < a.w:
            return fp("fromui", w, (extract(max(z, 1) - 1, 0, a),))
    elif name == "fromui":
        z = _zbits(a)
        if z < a.w:
            return fp("fromui", w, (extract(max(z, 1) - 1, 0, a),))
    elif name in ("cvt_rtz", "cvt_rne"):
        if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
            return ite(a.args[0], fp(name, w, (a.args[1],)), fp(name, w, (a.args[2],)))
        m = FMT[a.w][1] if a.w in FMT else 0
        if a.op == "fp" and a.p[0] in ("fromsi", "fromui") and a.args[0].w <= m + 1:
            # an exactly converted integer comes back unchanged
            x = a.args[0]
            if a.p[0] == "fromsi" and x.w <= w:
                return sext(x, w)
            if a.p[0] == "fromui" and x.w < w:
                return zext(x, w)
            if a.p[0] == "fromui" and x.w == w:
                return ite(eq(extract(w - 1, w - 1, x), const(1, 1)), const(1 << (w - 1), w), x)
        if name == "cvt_rtz" and a.op == "fp" and a.p[0] == "div":
            r = _intdiv(a, w, m)
            if r is not None:
                return r
    return _mk("fp", w, tuple(args), (name, extra))


def fneg(a):
    w = a.w
    return concat(extract(w - 2, 0, a), bvnot(extract(w - 1, w - 1, a)))


def fabs_(a):
    return concat(extract(a.w - 2, 0, a), const(0, 1))


def fadd(a, b):
    return fp("add", a.w, (a, b))


def fsub(a, b):
    return fp("add", a.w, (a, fneg(b)))


def fmul(a, b):
    return fp("mul", a.w, (a, b))


def fdiv(a, b):
    return fp("div", a.w, (a, b))


def uf(name, w, *args):
    return _mk("uf", w, tuple(args), name)


def fnan(a):
    if a.op == "c":
        return boolc(is_nan_bits(a.p, a.w))
    if a.op == "fp" and a.p[0] in ("fromsi", "fromui"):
        return FALSE
    if a.op == "ite":
        return ite(a.args[0], fnan(a.args[1]), fnan(a.args[2]))
    if frange(a) is not None:
        return FALSE
    if a.op == "fp" and a.p[0] == "mul":
        for i in (0, 1):
            if a.args[i].op == "c" and a.args[i].p & ones(a.w - 1) == 0:
                # x * 0 is NaN for infinite x and NaN
                return eq(extract(a.w - 2, FMT[a.w][1], a.args[1 - i]), const(ones(FMT[a.w][0]), FMT[a.w][0]))
    # sign is irrelevant
    if a.op == "concat" and a.args[-1].w == 1 and len(a.args) == 2 and a.args[0].op == "extract" and a.args[0].p == (a.w - 2, 0):
        return fnan(a.args[0].args[0])
    return _mk("fnan", 0, (a,))


def _fcmp(name, a, b):
    if a.op == "c" and b.op == "c":
        if is_nan_bits(a.p, a.w) or is_nan_bits(b.p, b.w):
            return FALSE
        x, y = bits2f(a.p, a.w), bits2f(b.p, b.w)
        return boolc({"flt": x < y, "fle": x <= y, "feq": x == y}[name])
    for q in (a, b):
        if q.op == "c" and is_nan_bits(q.p, q.w):
            return FALSE
    for i, (q, z) in enumerate(((a, b), (b, a))):
        if z.op == "c" and z.p & ones(z.w - 1) == 0 and q.op in ("v", "concat", "extract", "select"):
            # comparison with zero
            m = extract(q.w - 2, 0, q)
            zero = eq(m, const(0, q.w - 1))
            if name == "feq":
                return zero
            s = eq(extract(q.w - 1, q.w - 1, q), const(1 - i, 1))
            num = ule(m, const(ones(FMT[q.w][0]) << FMT[q.w][1], q.w - 1))
            return and_b(s, num, not_(zero)) if name == "flt" else or_b(zero, and_b(s, num))
        if z.op == "c" and z.p >> (z.w - 1) == 0 and q.op == "concat" and q.args[0].op == "c" and _nonneg(q):
            # positive floats are ordered like integers
            num = ule(q, const(ones(FMT[q.w][0]) << FMT[q.w][1], q.w))
            if name == "feq":
                return eq(q, z)
            f = ult if name == "flt" else ule
            return f(q, z) if i == 0 else and_b(num, f(z, q))
    x = frange(a)
    y = x and frange(b)
    if y:
        if name == "feq":
            if x[1] < y[0] or y[1] < x[0]:
                return FALSE
        elif x[1] < y[0] or name == "fle" and x[1] <= y[0]:
            return TRUE
        elif y[1] < x[0] or name == "flt" and y[1] <= x[0]:
            return FALSE
    if a.op in ("fp", "c", "ite") and b.op in ("fp", "c", "ite"):
        x, y = _as_int(a, 0), _as_int(b, 0)
        if x is not None and y is not None and max(x.w, y.w) <= FMT[a.w][1] + 1:
            k = max(x.w, y.w)
            x, y = sext(x, k), sext(y, k)
            return eq(x, y) if name == "feq" else slt(x, y) if name == "flt" else not_(slt(y, x))
    if a.op == "c" or b.op == "c":
        r = _uintdiv_cmp(name, a, b)
        if r is not None:
            return r
    return _mk(name, 0, (a, b))


def folt(a, b):
    if a is b:
        return FALSE
    r = _probe_cmp("flt", folt, a, b)
    if r is not None:
        return r
    return _fcmp("flt", a, b)


def fole(a, b):
    r = _probe_cmp("flt", fole, a, b)
    if r is not None:
        return r
    return _fcmp("fle", a, b)


def foeq(a, b):
    if a.op != "c" and (b.op == "c" or a.id > b.id):
        a, b = b, a
    if a is b:
        return not_(fnan(a))
    return _fcmp("feq", a, b)


def same_float(a, b):
    """bit-identical, or both NaN"""
    if a is b:
        return TRUE
    return or_b(eq(a, b), and_b(fnan(a), fnan(b)))


# ---------------------------------------------------------------- concrete evaluation
def evaluate(roots, env, ufs=None):
    """env: var name -> int.  Missing variables are 0.  Returns the list of ints (bools as 0/1)."""
    val = {}
    for r in roots:
        stack = [r]
        while stack:
            t = stack[-1]
            if t.id in val:
                stack.pop()
                continue
            pend = [a for a in t.args if a.id not in val]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            val[t.id] = _ev(t, [val[a.id] for a in t.args], env, ufs)
    return [val[r.id] for r in roots]


def _ev(t, a, env, ufs):
    op = t.op
    w = t.w
    if op == "c":
        return t.p
    if op == "true":
        return 1
    if op == "false":
        return 0
    if op == "v":
        return env.get(t.p, 0) & (ones(w) if w else 1)
    if op == "not":
        return 1 - a[0]
    if op == "and":
        return int(all(a))
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    aw = t.args[0].w
    if op == "ult":
        return int(a[0] < a[1])
    if op == "slt":
        return int(sgn(a[0], aw) < sgn(a[1], aw))
    if op == "extract":
        return a[0] >> t.p[1] & ones(w)
    if op == "concat":
        r = 0
        pos = 0
        for x, q in zip(a, t.args):
            r |= x << pos
            pos += q.w
        return r
    if op == "sext":
        return sgn(a[0], aw) & ones(w)
    if op == "bvnot":
        return ~a[0] & ones(w)
    if op == "bvand":
        return a[0] & a[1]
    if op == "bvor":
        return a[0] | a[1]
    if op == "bvxor":
        return a[0] ^ a[1]
    if op == "add":
        return a[0] + a[1] & ones(w)
    if op == "sub":
        return a[0] - a[1] & ones(w)
    if op == "mul":
        return a[0] * a[1] & ones(w)
    if op == "udiv":
        return a[0] // a[1] if a[1] else ones(w)
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "sdiv":
        if a[1] == 0:
            return 1 if a[0] >> (w - 1) else ones(w)
        return _sdiv(a[0], a[1], w) & ones(w)
    if op == "srem":
        return _srem(a[0], a[1], w) & ones(w) if a[1] else a[0]
    if op == "shl":
        return a[0] << a[1] & ones(w) if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return sgn(a[0], w) >> min(a[1], w - 1) & ones(w)
    if op == "fnan":
        return int(is_nan_bits(a[0], aw))
    if op in ("flt", "fle", "feq"):
        if is_nan_bits(a[0], aw) or is_nan_bits(a[1], aw):
            return 0
        x, y = bits2f(a[0], aw), bits2f(a[1], aw)
        return int({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
    if op == "fp":
        return fp_eval(t.p[0], w, t.p[1], a, [q.w for q in t.args])
    if op == "uf":
        if ufs and t.p in ufs:
            return ufs[t.p](*a) & (ones(w) if w else 1)
        raise Uneval(t.p)
    raise KeyError(op)


class Uneval(Exception):
    pass


_REB = None


def rebuild(t, a):
    """t with new arguments, through the simplifying constructors"""
    global _REB
    if _REB is None:
        _REB = dict(ite=ite, eq=eq, ult=ult, slt=slt, bvnot=bvnot, bvand=bvand, bvor=bvor, bvxor=bvxor, add=add, sub=sub, mul=mul,
                    udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr, fnan=fnan, concat=concat)
        _REB["not"] = not_
        _REB["and"] = and_b
    op = t.op
    f = _REB.get(op)
    if f is not None:
        return f(*a)
    if op == "extract":
        return extract(t.p[0], t.p[1], a[0])
    if op == "sext":
        return sext(a[0], t.w)
    if op in ("flt", "fle", "feq"):
        return _fcmp(op, a[0], a[1])
    if op == "fp":
        return fp(t.p[0], t.w, tuple(a), t.p[1])
    return _mk(op, t.w, tuple(a), t.p)


def subst(roots, mp):
    """roots with the terms in mp (id -> term) replaced"""
    val = dict(mp)
    for r in roots:
        stack = [r]
        while stack:
            t = stack[-1]
            if t.id in val:
                stack.pop()
                continue
            if not t.args:
                val[t.id] = t
                stack.pop()
                continue
            pend = [a for a in t.args if a.id not in val]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            new = [val[a.id] for a in t.args]
            if all(x is y for x, y in zip(new, t.args)):
                val[t.id] = t
            else:
                val[t.id] = rebuild(t, new)
    return [val[r.id] for r in roots]


def facts(conds):
    """atoms fixed by a conjunction: id -> TRUE/FALSE"""
    out = {}
    for c in conds:
        for x in conjs(c):
            if x.op == "not":
                out[x.args[0].id] = FALSE
            else:
                out[x.id] = TRUE
    return out


def free_vars(roots):
    seen = set()
    out = {}
    stack = list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "v":
            out[t.p] = t.w
        stack.extend(t.args)
    return out


def ops_used(roots):
    seen = set()
    out = {}
    stack = list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        k = t.op if t.op not in ("fp", "uf") else t.op + ":" + str(t.p[0] if t.op == "fp" else t.p)
        out[k] = out.get(k, 0) + 1
        stack.extend(t.args)
    return out


def probe_lemmas(roots):
    """(roots with every comparison that is an atom of them replaced by a fresh boolean, lemmas): the lemmas tie comparisons p < q
    between non-probes to the probes t by transitivity: p < q -> (t < p -> t < q), !(p < q) -> (t < q -> t < p)"""
    names = [(n, w) for n, w in free_vars(roots).items() if n.startswith("probe")]
    if not names:
        return None
    atoms = {}
    seen = set()
    stack = list(roots)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("slt", "ult", "flt", "fle"):
            atoms[x.id] = x
        elif x.op in ("and", "not") or x.op == "ite" and x.w == 0 or x.op == "eq" and x.args[0].w == 0:
            stack.extend(x.args)
        elif x.w == 0 and x.args:
            atoms[x.id] = x
    lemmas = []
    for x in list(atoms.values()):
        if x.op not in ("slt", "ult") or any(_probe(a) for a in x.args):
            continue
        f = slt if x.op == "slt" else ult
        p, q = x.args
        for n, w in names:
            if w != p.w:
                continue
            v = var(n, w)
            l, m = f(v, p), f(v, q)
            lemmas.append(and_b(implies(x, implies(l, m)), implies(not_(x), implies(m, l))))
    stack = list(lemmas)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("and", "not") or x.op == "ite" and x.w == 0 or x.op == "eq" and x.args[0].w == 0:
            stack.extend(x.args)
        elif x.w == 0 and x.args:
            atoms[x.id] = x
    mp = {}
    for i, k in enumerate(sorted(atoms)):
        mp[k] = eq(var("abs!%d" % i, 1), const(1, 1))
    return subst(list(roots) + lemmas, mp)
