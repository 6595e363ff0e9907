"""Symbolic executor for LLVM IR: forward execution with state merging at control-flow joins.

Values: i1 -> Bool term, iN / float / double -> bit-vector term, ptr -> Ptr, vector/array/struct -> tuple of values.
Memory: byte cells (value, byte index inside the value); objects have a concrete size.
Everything that must not happen becomes an obligation (guard and not condition must be unsatisfiable).
"""
import heapq
import terms as t
from terms import TRUE, FALSE, const, ite, and_b, or_b, not_, eq
import irparse as ir
from irparse import sizeof, bitwidth, PTR


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


NULLOFF = const(0, 64)


class Obj:
    __slots__ = ("id", "name", "size", "align", "kind", "addr", "init", "fn", "const")

    def __init__(self, oid, name, size, align, kind, init=None, fn=None, cst=False):
        self.id = oid
        self.name = name
        self.size = size
        self.align = align
        self.kind = kind
        self.init = init
        self.fn = fn
        self.const = cst
        k = max(0, align.bit_length() - 1)
        # an arbitrary non-null address with exactly the guaranteed alignment
        parts = []
        if k:
            parts.append(const(0, k))
        parts.append(t.var("addr!%d!%s" % (oid, name), 46 - k))
        parts.append(const(1, 1))
        parts.append(const(0, 17))
        self.addr = t.concat(*parts)

    def __repr__(self):
        return "<%s %s[%d]>" % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts      # tuple of (guard, obj|None, off term)

    def __repr__(self):
        return "Ptr(%s)" % ", ".join("%s:%r+%r" % (g, o, f) for g, o, f in self.alts)

    def key(self):
        return tuple((g.id, o.id if o else None, f.id) for g, o, f in self.alts)


def mkptr(obj, off):
    if isinstance(off, int):
        off = const(off, 64)
    return Ptr(((TRUE, obj, off),))


NULL = Ptr(((TRUE, None, NULLOFF),))


def ptr_addr(p):
    """address of a pointer as a 64 bit term"""
    v = None
    for g, o, f in reversed(p.alts):
        a = t.add(o.addr, f) if o else f
        v = a if v is None else ite(g, a, v)
    return v


def ptr_same(a, b):
    return a is b or a.key() == b.key()


def ptr_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if ptr_same(a, b):
        return a
    nc = not_(c)
    m = {}
    for cond, p in ((c, a), (nc, b)):
        for g, o, f in p.alts:
            gg = and_b(cond, g)
            if gg is FALSE:
                continue
            k = o.id if o else None
            if k in m:
                g0, o0, f0 = m[k]
                m[k] = (or_b(g0, gg), o0, f0 if f0 is f else ite(g0, f0, f))
            else:
                m[k] = (gg, o, f)
    if len(m) == 1:
        (g, o, f), = m.values()
        return Ptr(((TRUE, o, f),))
    return Ptr(tuple(m.values()))


def val_ite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, tuple):
        return tuple(val_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_ite(c, a if isinstance(a, Ptr) else int_ptr(a), b if isinstance(b, Ptr) else int_ptr(b))
    return ite(c, a, b)


_addrvars = {}


def int_ptr(x):
    """inttoptr: find the object whose address term occurs in the sum"""
    if x.op == "c":
        return Ptr(((TRUE, None, x),))
    if x.op == "ite":
        return ptr_ite(x.args[0], int_ptr(x.args[1]), int_ptr(x.args[2]))
    for o in _addrvars.values():
        d = t.sub(x, o.addr)
        if not (set(t.free_vars([d])) & set(v.p for v in o.addr.args if v.op == "v")):
            return mkptr(o, d)
    return Ptr(((TRUE, None, x),))


class Mem:
    __slots__ = ("d", "owned", "dead")

    def __init__(self):
        self.d = {}
        self.owned = set()
        self.dead = {}

    def fork(self):
        m = Mem()
        m.d = dict(self.d)
        m.dead = dict(self.dead)
        self.owned = set()
        return m


def cell_run(cells, off, n):
    """yield (value, first byte, count) runs"""
    i = off
    e = off + n
    while i < e:
        c = cells[i]
        if c is None:
            j = i + 1
            while j < e and cells[j] is None:
                j += 1
            yield None, 0, j - i
            i = j
            continue
        v, k = c
        j = i + 1
        q = k + 1
        while j < e:
            d = cells[j]
            if d is None or d[0] is not v or d[1] != q:
                break
            j += 1
            q += 1
        yield v, k, j - i
        i = j


class Obligation:
    __slots__ = ("guard", "bad", "msg", "kind", "kf", "elems", "where", "na")

    def __init__(self, guard, bad, msg, kind, kf=None, elems=None, where=None):
        self.guard = guard
        self.bad = bad        # Bool term: violated when true (already conjoined with guard)
        self.msg = msg
        self.kind = kind
        self.kf = kf
        self.elems = elems
        self.where = where


class Executor:
    def __init__(self, mods, feasible=None, max_unroll=200, max_steps=400000):
        self.mods = mods
        self.feasible_cb = feasible
        self.max_unroll = max_unroll
        self.max_steps = max_steps
        self.reset()

    def reset(self):
        self.objs = []
        self.initial = {}    # cells of globals before the first write
        self.gobj = {}
        self.obl = []
        self.inputs = []        # (name, [terms], elem bytes)
        self.assumes = []
        self.reaches = []
        self.observed = []      # (guard, msg, index, bytes term)
        self.nfresh = 0
        self.steps = 0
        self.nstates = 0
        self.nchecks = 0
        self.nobl = 0
        self.nedges = 0
        self.funcs_seen = {}
        self.stack = []
        self.frames = []
        self.maxiter = 0
        self.solver_prunes = 0
        _addrvars.clear()

    # ------------------------------------------------------------------ lookup
    def find_func(self, name):
        r = None
        for m in self.mods:
            n = m.aliases.get(name, name)
            f = m.funcs.get(n)
            if f is not None:
                if not f.is_decl:
                    return f
                r = r or f
        return r

    def find_global(self, name):
        r = None
        for m in self.mods:
            g = m.globals.get(name)
            if g is not None:
                if not g["external"]:
                    return m, g
                r = r or (m, g)
        return r

    def new_obj(self, name, size, align, kind, init=None, fn=None, cst=False):
        o = Obj(len(self.objs), name, size, align, kind, init, fn, cst)
        self.objs.append(o)
        if kind != "fn":
            _addrvars[o.id] = o
        return o

    def global_ptr(self, name):
        o = self.gobj.get(name)
        if o is None:
            f = self.find_func(name)
            if f is not None:
                o = self.new_obj(name, 1, 16, "fn", fn=f)
            else:
                r = self.find_global(name)
                if r is None:
                    raise Unsupported("global " + name)
                m, g = r
                ty, init = m.global_info(name)
                ext = g["external"]
                o = self.new_obj(name[1:], sizeof(ty) if ty[0] != "opaque" else 64, g["align"], "global", cst=g["const"])
                o.init = None if ext else (ty, init)
            self.gobj[name] = o
        return mkptr(o, 0)

    def fresh(self, w, why="undef"):
        self.nfresh += 1
        return t.var("%s!%d" % (why, self.nfresh), w)

    def fresh_of(self, ty):
        k = ty[0]
        if k in ("i", "f"):
            if k == "i" and ty[1] == 1:
                return self.fresh(0)
            return self.fresh(ty[1])
        if k == "p":
            return Ptr(((TRUE, None, self.fresh(64)),))
        if k in ("v", "a"):
            return tuple(self.fresh_of(ty[2]) for _ in range(ty[1]))
        if k == "s":
            return tuple(self.fresh_of(x) for x in ty[1])
        raise Unsupported("undef of %r" % (ty,))

    # ------------------------------------------------------------------ memory
    def cells(self, mem, o):
        c = mem.d.get(o.id)
        if c is None:
            if o.kind == "global" and o.id in self.initial:
                c = mem.d[o.id] = self.initial[o.id]
                return c
            c = [None] * o.size
            mem.d[o.id] = c
            if o.kind == "global":
                self.initial[o.id] = c      # shared: copied before the first write
            else:
                mem.owned.add(o.id)
            if o.init is not None:
                ty, init = o.init
                if init is not None:
                    v = self.operand(init, {})
                    self._put(c, 0, ty, v)
            elif o.kind == "global":
                for i in range(o.size):
                    c[i] = (t.var("ext!%s!%d" % (o.name, i), 8), 0)
        return c

    def wcells(self, mem, o):
        c = self.cells(mem, o)
        if o.id not in mem.owned:
            c = list(c)
            mem.d[o.id] = c
            mem.owned.add(o.id)
        return c

    def _put(self, c, off, ty, v):
        k = ty[0]
        if k == "p":
            for i in range(8):
                c[off + i] = (v, i)
        elif k == "i" or k == "f":
            if k == "i" and ty[1] == 1:
                c[off] = (t.bool2bv(v, 8), 0)
                return
            w = ty[1]
            if w & 7:
                v = t.zext(v, (w + 7) // 8 * 8)
                w = v.w
            for i in range(w // 8):
                c[off + i] = (v, i)
        elif k == "v":
            if ty[2][0] == "i" and ty[2][1] < 8:
                b = self.to_bits(v, ty)
                if b.w & 7:
                    b = t.zext(b, (b.w + 7) // 8 * 8)
                for i in range(b.w // 8):
                    c[off + i] = (b, i)
                return
            s = bitwidth(ty[2]) // 8
            for i, x in enumerate(v):
                self._put(c, off + i * s, ty[2], x)
        elif k == "a":
            s = sizeof(ty[2])
            for i, x in enumerate(v):
                self._put(c, off + i * s, ty[2], x)
        elif k == "s":
            for i, x in enumerate(v):
                self._put(c, off + ir.field_offset(ty, i), ty[1][i], x)
        else:
            raise Unsupported("store %r" % (ty,))

    def _bits(self, o, c, off, n):
        parts = []
        pos = off
        for v, k, m in cell_run(c, off, n):
            if v is None:
                x = t.concat(*[t.var("uninit!%d!%s!%d" % (o.id, o.name, pos + i), 8) for i in range(m)])
            else:
                if isinstance(v, Ptr):
                    v = ptr_addr(v)
                x = t.extract(k * 8 + m * 8 - 1, k * 8, v)
            parts.append(x)
            pos += m
        return t.concat(*parts)

    def _get(self, o, c, off, ty):
        k = ty[0]
        if k == "p":
            v = c[off]
            if v is not None and isinstance(v[0], Ptr) and v[1] == 0 and all(
                    c[off + i] is not None and c[off + i][0] is v[0] and c[off + i][1] == i for i in range(8)):
                return v[0]
            return int_ptr(self._bits(o, c, off, 8))
        if k == "i":
            w = ty[1]
            if w == 1:
                return eq(t.extract(0, 0, self._bits(o, c, off, 1)), const(1, 1))
            n = (w + 7) // 8
            b = self._bits(o, c, off, n)
            return b if b.w == w else t.extract(w - 1, 0, b)
        if k == "f":
            return self._bits(o, c, off, ty[1] // 8)
        if k == "v":
            if ty[2][0] == "i" and ty[2][1] < 8:
                n = (bitwidth(ty) + 7) // 8
                b = self._bits(o, c, off, n)
                return self.from_bits(b if b.w == bitwidth(ty) else t.extract(bitwidth(ty) - 1, 0, b), ty)
            s = bitwidth(ty[2]) // 8
            return tuple(self._get(o, c, off + i * s, ty[2]) for i in range(ty[1]))
        if k == "a":
            s = sizeof(ty[2])
            return tuple(self._get(o, c, off + i * s, ty[2]) for i in range(ty[1]))
        if k == "s":
            return tuple(self._get(o, c, off + ir.field_offset(ty, i), x) for i, x in enumerate(ty[1]))
        raise Unsupported("load %r" % (ty,))

    def access_size(self, ty):
        if ty[0] == "v":
            return (bitwidth(ty) + 7) // 8
        if ty[0] == "i":
            return (ty[1] + 7) // 8
        return sizeof(ty)

    def check(self, guard, ok, msg, kind, kf=None, elems=None):
        bad = and_b(guard, not_(ok))
        self.nobl += 1
        if bad is not FALSE:
            o = Obligation(guard, bad, msg, kind, kf, elems, self.stack[-1] if self.stack else None)
            o.na = len(self.assumes)
            self.obl.append(o)

    def assume(self, guard, cond):
        """returns the new path guard"""
        if cond is TRUE:
            return guard
        if guard is TRUE:
            self.assumes.append(cond)
            return FALSE if cond is FALSE else guard
        return and_b(guard, cond)

    def candidates(self, off, o, n):
        """offsets inside the object the symbolic offset can have"""
        base = 0
        rest = off
        if off.op == "add" and off.args[1].op == "c":
            base = off.args[1].p
            rest = off.args[0]
        z = t.tz(rest)
        stride = 1 << min(z, 12)
        out = []
        if rest.op == "ite" or off.op == "ite":
            vals = self._ite_vals(off)
            if vals is not None:
                return sorted(v for v in vals if v + n <= o.size)
        lo, hi = t.urange(rest)
        M = 1 << 64
        for k in range(0, o.size - n + 1):
            d = (k - base) % M
            if d % stride:
                continue
            if d < lo or d > hi:
                continue
            out.append(k)
        return out

    def _ite_vals(self, x, lim=64):
        out = set()
        st = [x]
        seen = set()
        while st:
            a = st.pop()
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.op == "c":
                out.add(a.p)
            elif a.op == "ite":
                st.append(a.args[1])
                st.append(a.args[2])
            elif a.op == "add" and a.args[1].op == "c":
                sub = self._ite_vals(a.args[0], lim)
                if sub is None:
                    return None
                out |= set((v + a.args[1].p) & t.ones(64) for v in sub)
            else:
                return None
            if len(out) > lim:
                return None
        return out

    def resolve(self, p, n, align, guard, what, mem):
        """list of (cond, obj, concrete offset); records bounds and alignment obligations"""
        out = []
        many = len(p.alts) > 1
        for g, o, off in p.alts:
            ga = and_b(guard, g)
            if ga is FALSE:
                continue
            if o is None:
                self.check(ga, FALSE, "%s through a null or wild pointer" % what, "mem")
                continue
            if o.kind == "fn":
                self.check(ga, FALSE, "%s of a function" % what, "mem")
                continue
            if o.id in mem.dead:
                self.check(ga, not_(mem.dead[o.id]), "%s of %d bytes in %s after it was freed" % (what, n, o.name), "mem")
            if o.const and what == "store":
                self.check(ga, FALSE, "store to constant %s" % o.name, "mem")
                continue
            if align > 8:   # narrower accesses may be misaligned on x86
                k = align.bit_length() - 1
                a = t.extract(k - 1, 0, t.add(o.addr, off))
                self.check(ga, eq(a, const(0, k)), "%s of %s not aligned to %d" % (what, o.name, align), "align")
            if o.size < n:
                self.check(ga, FALSE, "%s of %d bytes outside %s (%d bytes)" % (what, n, o.name, o.size), "mem")
                continue
            if off.op == "c":
                if off.p + n > o.size:
                    self.check(ga, FALSE, "%s of %d bytes at offset %d outside %s (%d bytes)" % (
                        what, n, t.sgn(off.p, 64), o.name, o.size), "mem")
                    continue
                self.nobl += 1
                out.append((g, o, off.p))
            else:
                cand = self.candidates(off, o, n)
                conds = [eq(off, const(k, 64)) for k in cand]
                if len(cand) == 0:
                    self.check(ga, FALSE, "%s outside %s" % (what, o.name), "mem")
                    continue
                self.check(ga, or_b(*conds), "%s of %d bytes at a symbolic offset outside %s (%d bytes)" % (
                    what, n, o.name, o.size), "mem")
                for k, c in zip(cand, conds):
                    if c is not FALSE:
                        out.append((and_b(g, c), o, k))
        return out

    def load(self, mem, p, ty, align, guard):
        n = self.access_size(ty)
        if n == 0:
            return ()
        a0 = p.alts[0]
        if len(p.alts) == 1 and a0[2].op == "c" and a0[1] is not None and a0[1].kind != "fn":
            o = a0[1]
            off = a0[2].p
            if off + n <= o.size and (align <= 1 or (align <= o.align and off % align == 0)) and o.id not in mem.dead:
                self.nobl += 1
                return self._get(o, self.cells(mem, o), off, ty)
        r = self.resolve(p, n, align, guard, "load", mem)
        if not r:
            return self.fresh_of(ty)
        v = None
        for c, o, k in reversed(r):
            x = self._get(o, self.cells(mem, o), k, ty)
            v = x if v is None else val_ite(c, x, v)
        return v

    def store(self, mem, p, ty, v, align, guard):
        n = self.access_size(ty)
        if n == 0:
            return
        r = None
        a0 = p.alts[0]
        if len(p.alts) == 1 and a0[2].op == "c" and a0[1] is not None and a0[1].kind != "fn":
            o = a0[1]
            off = a0[2].p
            if off + n <= o.size and (align <= 1 or (align <= o.align and off % align == 0)) and o.id not in mem.dead and not o.const:
                self.nobl += 1
                self._put(self.wcells(mem, o), off, ty, v)
                return
        r = self.resolve(p, n, align, guard, "store", mem)
        # a store happens only where the path guard holds; the state itself is guarded, so no extra condition
        if len(r) == 1 and r[0][0] is TRUE:
            c, o, k = r[0]
            self._put(self.wcells(mem, o), k, ty, v)
            return
        for c, o, k in r:
            cs = self.wcells(mem, o)
            old = self._get(o, cs, k, ty)
            self._put(cs, k, ty, val_ite(c, v, old))

    # untyped access used by memcpy and the harness interface
    def load_cells(self, mem, p, n, guard):
        r = self.resolve(p, n, 1, guard, "load", mem)
        if not r:
            return [(self.fresh(8), 0) for _ in range(n)]
        if len(r) == 1:
            c, o, k = r[0]
            return self._cells_out(o, self.cells(mem, o), k, n)
        ty = ("i", n * 8)
        v = None
        for c, o, k in reversed(r):
            x = self._bits(o, self.cells(mem, o), k, n)
            v = x if v is None else ite(c, x, v)
        return [(v, i) for i in range(n)]

    def _cells_out(self, o, cs, k, n):
        return cs[k:k + n]

    def store_cells(self, mem, p, cells, guard):
        n = len(cells)
        r = self.resolve(p, n, 1, guard, "store", mem)
        if len(r) == 1:
            c, o, k = r[0]
            if c is TRUE or len(p.alts) == 1 and p.alts[0][2].op == "c":
                cs = self.wcells(mem, o)
                cs[k:k + n] = cells
                return
        tmp = Obj.__new__(Obj)
        tmp.id = -1
        tmp.name = "tmp"
        v = self._bits(tmp, cells, 0, n)
        for c, o, k in r:
            cs = self.wcells(mem, o)
            old = self._bits(o, cs, k, n)
            nv = ite(c, v, old)
            for i in range(n):
                cs[k + i] = (nv, i)

    def load_bits(self, mem, p, n, guard):
        r = self.resolve(p, n, 1, guard, "load", mem)
        if not r:
            return self.fresh(8 * n)
        v = None
        for c, o, k in reversed(r):
            x = self._bits(o, self.cells(mem, o), k, n)
            v = x if v is None else ite(c, x, v)
        return v

    def merge_mem(self, conds, mems):
        """conds: remainders per state (last is the default)"""
        res = mems[-1].fork()
        keys = set()
        for m in mems:
            keys |= set(m.d)
            for k, g in m.dead.items():
                pass
        dead = {}
        for i, m in enumerate(mems):
            for k in m.dead:
                dead.setdefault(k, None)
        for k in dead:
            v = mems[-1].dead.get(k, FALSE)
            for i in range(len(mems) - 2, -1, -1):
                v = ite(conds[i], mems[i].dead.get(k, FALSE), v)
            res.dead[k] = v
        for k in keys:
            o = self.objs[k]
            lists = []
            for m in mems:
                c = m.d.get(k)
                lists.append(c if c is not None or o.kind != "global" else self.cells(m, o))
            first = next(c for c in lists if c is not None)
            if all(c is None or c is first for c in lists):
                res.d[k] = first
                res.owned.discard(k)
                continue
            if o.kind in ("alloca", "heap") and any(c is None for c in lists):
                # object created on some paths only
                pass
            base = lists[-1] if lists[-1] is not None else [None] * o.size
            cur = base
            for i in range(len(mems) - 2, -1, -1):
                b = lists[i]
                if b is None or b is cur:
                    continue
                cur = self.merge_cells(conds[i], b, cur, o)
            res.d[k] = cur
            res.owned.add(k)
        return res

    def merge_cells(self, c, a, b, o):
        n = len(b)
        out = list(b)
        i = 0
        while i < n:
            x = a[i]
            y = b[i]
            if x is y or x == y:
                i += 1
                continue
            if x is None or y is None:
                u = t.var("uninit!%d!%s!%d" % (o.id, o.name, i), 8)
                x = x or (u, 0)
                y = y or (u, 0)
                vx = ptr_addr(x[0]) if isinstance(x[0], Ptr) else x[0]
                vy = ptr_addr(y[0]) if isinstance(y[0], Ptr) else y[0]
                out[i] = (ite(c, t.extract(x[1] * 8 + 7, x[1] * 8, vx), t.extract(y[1] * 8 + 7, y[1] * 8, vy)), 0)
                i += 1
                continue
            # maximal run in both
            j = i + 1
            while j < n and a[j] is not None and b[j] is not None and a[j][0] is x[0] and a[j][1] == x[1] + j - i \
                    and b[j][0] is y[0] and b[j][1] == y[1] + j - i:
                j += 1
            m = j - i
            if isinstance(x[0], Ptr) and isinstance(y[0], Ptr) and x[1] == 0 and y[1] == 0 and m == 8:
                v = ptr_ite(c, x[0], y[0])
            elif (isinstance(x[0], Ptr) and x[1] == 0 or isinstance(y[0], Ptr) and y[1] == 0) and m == 8:
                px = x[0] if isinstance(x[0], Ptr) else int_ptr(t.extract(x[1] * 8 + 63, x[1] * 8, x[0]))
                py = y[0] if isinstance(y[0], Ptr) else int_ptr(t.extract(y[1] * 8 + 63, y[1] * 8, y[0]))
                v = ptr_ite(c, px, py)
            else:
                vx = ptr_addr(x[0]) if isinstance(x[0], Ptr) else x[0]
                vy = ptr_addr(y[0]) if isinstance(y[0], Ptr) else y[0]
                v = ite(c, t.extract((x[1] + m) * 8 - 1, x[1] * 8, vx), t.extract((y[1] + m) * 8 - 1, y[1] * 8, vy))
            for q in range(m):
                out[i + q] = (v, q)
            i = j
        return out

    # ------------------------------------------------------------------ values
    def to_bits(self, v, ty):
        k = ty[0]
        if k == "i":
            return t.bool2bv(v, 1) if ty[1] == 1 else v
        if k == "f":
            return v
        if k == "p":
            return ptr_addr(v)
        if k == "v":
            return t.concat(*[self.to_bits(x, ty[2]) for x in v])
        raise Unsupported("to_bits %r" % (ty,))

    def from_bits(self, b, ty):
        k = ty[0]
        if k == "i":
            return eq(b, const(1, 1)) if ty[1] == 1 else b
        if k == "f":
            return b
        if k == "p":
            return int_ptr(b)
        if k == "v":
            w = bitwidth(ty[2])
            return tuple(self.from_bits(t.extract(i * w + w - 1, i * w, b), ty[2]) for i in range(ty[1]))
        raise Unsupported("from_bits %r" % (ty,))

    def operand(self, v, env):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "c":
            return v[1]
        if k == "null":
            return NULL
        if k == "g":
            return self.global_ptr(v[1])
        if k == "u":
            return self.fresh_of(v[1])
        if k == "agg":
            return tuple(self.operand(x, env) for x in v[1])
        if k == "gep":
            return self.gep(v[1], self.operand(v[2], env), [(ty, self.operand(x, env)) for ty, x in v[3]])
        if k == "cast":
            return self.cast(v[1], v[3], v[4], self.operand(v[2], env))
        if k == "bin":
            return self.binop(v[1], v[4], self.operand(v[2], env), self.operand(v[3], env))
        if k == "cmp":
            return self.icmp(v[1], v[4], self.operand(v[2], env), self.operand(v[3], env))
        if k == "sel":
            return val_ite(self.operand(v[1], env), self.operand(v[2], env), self.operand(v[3], env))
        raise Unsupported("operand %r" % (v,))

    def gep(self, st, base, idx):
        if isinstance(base, tuple) or any(isinstance(i, tuple) for _, i in idx):
            n = len(base) if isinstance(base, tuple) else next(len(i) for _, i in idx if isinstance(i, tuple))
            return tuple(self.gep(st, base[j] if isinstance(base, tuple) else base,
                                  [(ty[2] if ty[0] == "v" else ty, i[j] if isinstance(i, tuple) else i) for ty, i in idx])
                         for j in range(n))
        off = None
        ty = st
        for n, (it, i) in enumerate(idx):
            if n == 0:
                d = self._scale(i, sizeof(ty))
            elif ty[0] == "s":
                f = i.p
                d = const(ir.field_offset(ty, f), 64)
                ty = ty[1][f]
            else:
                es = sizeof(ty[2]) if ty[0] == "a" else bitwidth(ty[2]) // 8
                d = self._scale(i, es)
                ty = ty[2]
            off = d if off is None else t.add(off, d)
        if off.op == "c" and off.p == 0:
            return base
        return Ptr(tuple((g, o, t.add(f, off)) for g, o, f in base.alts))

    def _scale(self, i, s):
        if i.w < 64:
            i = t.sext(i, 64)
        elif i.w > 64:
            i = t.extract(63, 0, i)
        return t.mul(i, const(s, 64))

    def binop(self, op, ty, a, b):
        if ty[0] == "v":
            et = ty[2]
            f = self.bin1
            return tuple([f(op, et, x, y) for x, y in zip(a, b)])
        return self.bin1(op, ty, a, b)

    def bin1(self, op, ty, a, b):
        if ty == ("i", 1):
            if op == "and" or op == "mul":
                return and_b(a, b)
            if op == "or":
                return or_b(a, b)
            if op in ("xor", "add", "sub"):
                return not_(eq(a, b))
            raise Unsupported("i1 " + op)
        r = BIN.get(op)
        if r is not None:
            return r(a, b)
        w = ty[1]
        if op in ("udiv", "sdiv", "urem", "srem"):
            ok = not_(eq(b, const(0, w)))
            if op[0] == "s":
                ok = and_b(ok, not_(and_b(eq(b, const(-1, w)), eq(a, const(1 << (w - 1), w)))))
            self.check(self.guard, ok, "%s i%d traps (division by zero or overflow)" % (op, w), "ub")
            return getattr(t, op)(a, b)
        if op == "fadd":
            return t.fadd(a, b)
        if op == "fsub":
            return t.fsub(a, b)
        if op == "fmul":
            return t.fmul(a, b)
        if op == "fdiv":
            return t.fdiv(a, b)
        if op == "frem":
            return t.fp("rem", w, (a, b))
        raise Unsupported(op)

    def icmp(self, pred, ty, a, b):
        if ty[0] == "v":
            return tuple(self.icmp(pred, ty[2], x, y) for x, y in zip(a, b))
        if ty == PTR:
            return self.pcmp(pred, a, b)
        if ty == ("i", 1):
            if pred == "eq":
                return eq(a, b)
            if pred == "ne":
                return not_(eq(a, b))
            a = t.bool2bv(a, 1)
            b = t.bool2bv(b, 1)
        return ICMP[pred](a, b)

    def pcmp(self, pred, a, b):
        r = None
        for g, o, f in reversed(a.alts):
            for h, q, e in reversed(b.alts):
                if o is not None and o is q:
                    c = ICMP[pred](f, e) if pred in ("eq", "ne") else PSAME[pred](f, e)
                elif pred in ("eq", "ne") and (o is None) != (q is None) and (
                        (e if q is None else f).op == "c" and (e if q is None else f).p < 1 << 45):
                    c = t.boolc(pred == "ne")
                elif pred in ("eq", "ne") and o is not None and q is not None and f.op == "c" and e.op == "c" \
                        and f.p <= o.size and e.p <= q.size and not (f.p == o.size or e.p == q.size):
                    c = t.boolc(pred == "ne")
                else:
                    x = t.add(o.addr, f) if o else f
                    y = t.add(q.addr, e) if q else e
                    c = ICMP[pred](x, y)
                r = c if r is None else ite(and_b(g, h), c, r)
        return r

    def fcmp(self, pred, ty, a, b):
        if ty[0] == "v":
            return tuple(fcmp1(pred, x, y) for x, y in zip(a, b))
        return fcmp1(pred, a, b)

    def cast(self, op, ft, tt, v):
        if op == "bitcast":
            if ft == tt:
                return v
            if ft[0] == "v" and tt[0] == "v" and ft[1] == tt[1] and ft[2][0] in "if" and tt[2][0] in "if":
                return v
            if ft[0] in ("i", "f") and tt[0] in ("i", "f") and ft[1] > 1:
                return v
            return self.from_bits(self.to_bits(v, ft), tt)
        if op == "addrspacecast":
            return v
        if ft[0] == "v":
            return tuple(self.cast1(op, ft[2], tt[2], x) for x in v)
        return self.cast1(op, ft, tt, v)

    def cast1(self, op, ft, tt, v):
        if op == "trunc":
            if tt[1] == 1:
                return eq(t.extract(0, 0, v), const(1, 1))
            return t.extract(tt[1] - 1, 0, v)
        if op == "zext":
            if ft[1] == 1:
                return t.bool2bv(v, tt[1])
            return t.zext(v, tt[1])
        if op == "sext":
            if ft[1] == 1:
                return ite(v, const(-1, tt[1]), const(0, tt[1]))
            return t.sext(v, tt[1])
        if op == "fptrunc":
            return t.fp("trunc", tt[1], (v,))
        if op == "fpext":
            return t.fp("ext", tt[1], (v,))
        if op == "sitofp":
            if ft[1] == 1:
                return ite(v, const(struct_bits(-1.0, tt[1]), tt[1]), const(0, tt[1]))
            return t.fp("fromsi", tt[1], (v,))
        if op == "uitofp":
            if ft[1] == 1:
                return ite(v, const(struct_bits(1.0, tt[1]), tt[1]), const(0, tt[1]))
            return t.fp("fromui", tt[1], (v,))
        if op == "fptosi" or op == "fptoui":
            # out-of-range is undefined in C++; modelled as what x86-64 code generation produces
            w = tt[1]
            if op == "fptoui":
                if w < 32:
                    return t.extract(w - 1, 0, t.fp("cvt_rtz", 32, (v,)))
                if w == 32:
                    return t.extract(31, 0, t.fp("cvt_rtz", 64, (v,)))
                return t.fp("cvtu_rtz", 64, (v,))
            if w < 32:
                return t.extract(w - 1, 0, t.fp("cvt_rtz", 32, (v,)))
            return t.fp("cvt_rtz", w, (v,))
        if op == "ptrtoint":
            a = ptr_addr(v)
            return t.extract(tt[1] - 1, 0, a) if tt[1] < 64 else t.zext(a, tt[1])
        if op == "inttoptr":
            return int_ptr(t.zext(v, 64) if v.w < 64 else v)
        raise Unsupported(op)

    # ------------------------------------------------------------------ control
    def feasible(self, g):
        if g is FALSE:
            return False
        if g is TRUE or self.feasible_cb is None:
            return True
        r = self.feasible_cb(g)
        self.solver_prunes += 1
        return r

    def run(self, name):
        self.nobl = 0
        mem = Mem()
        f = self.find_func("@" + name)
        if f is None or f.is_decl:
            raise Unsupported("no harness " + name)
        r, mem, g = self.call_func(f, [], mem, TRUE)
        self.final_guard = g
        self.final_mem = mem
        return g

    def call_func(self, f, args, mem, guard):
        f.parse()
        if len(self.stack) > 60:
            raise Budget("call depth in " + f.name)
        self.stack.append(f.name)
        frame = []
        self.frames.append(frame)
        env = {}
        for (ty, nm, at), v in zip(f.params, args):
            if "byval" in at:
                o = self.new_obj(f.name[1:] + nm, sizeof(at["byval"]), max(at.get("align", 1), ir.alignof(at["byval"])), "alloca")
                cells = self.load_cells(mem, v, o.size, guard)
                mem.d[o.id] = list(cells)
                mem.owned.add(o.id)
                frame.append(o)
                v = mkptr(o, 0)
            env[nm] = v
        if f.vararg:
            pass
        self.funcs_seen[f.name] = self.funcs_seen.get(f.name, 0) + 1
        pos = f.pos
        wto = f.wto
        pending = {f.entry: [(guard, env, mem, None)]}
        iters = {}
        lastg = {}
        rets = []
        comp = f.comp_end
        while pending:
            b = min(pending, key=pos.__getitem__)
            # a loop header re-entered only by back edges waits for the rest of its body
            while b in comp and all(s[3] is not None and pos[s[3]] >= pos[b] and pos[s[3]] <= comp[b] for s in pending[b]):
                p0 = pos[b]
                inner = [x for x in pending if p0 < pos[x] <= comp[b]]
                if not inner:
                    break
                b = min(inner, key=pos.__getitem__)
            sts = pending.pop(b)
            blk = f.blocks[b]
            back = b in comp and any(s[3] is not None and pos[b] <= pos[s[3]] <= comp[b] for s in sts)
            if back:
                iters[b] = iters.get(b, 0) + 1
                self.maxiter = max(self.maxiter, iters[b])
                g = t.or_guards([s[0] for s in sts])
                if g is not lastg.get(b):
                    if not self.feasible(g):
                        continue
                    lastg[b] = g
                if iters[b] > self.max_unroll:
                    self.check(g, FALSE, "loop in %s not unwound completely after %d iterations" % (f.name, self.max_unroll), "unwind")
                    continue
            elif b in comp:
                iters[b] = 0
            guard, env, mem = self.enter(blk, sts)
            if b in comp and not back:
                lastg[b] = guard
            self.nstates += 1
            if guard is FALSE:
                continue
            guard = self.block(f, blk, env, mem, guard)
            if guard is FALSE:
                continue
            mem = self.curmem      # a call may have returned another memory state
            tm = blk.term
            k = tm[0]
            if k == "br":
                self.nedges += 1
                pending.setdefault(tm[1], []).append((guard, env, mem, b))
            elif k == "cbr":
                c = self.operand(tm[1], env)
                if c is TRUE or tm[2] == tm[3]:
                    outs = [(guard, tm[2])]
                elif c is FALSE:
                    outs = [(guard, tm[3])]
                else:
                    outs = [(and_b(guard, c), tm[2]), (and_b(guard, not_(c)), tm[3])]
                    outs = [x for x in outs if x[0] is not FALSE]
                self.branch(pending, outs, env, mem, b)
            elif k == "switch":
                c = self.operand(tm[1], env)
                outs = {}
                rest = []
                for v, tgt in tm[3]:
                    e = eq(c, self.operand(v, env))
                    if e is FALSE:
                        continue
                    rest.append(not_(e))
                    outs.setdefault(tgt, []).append(e)
                dflt = and_b(*rest)
                if dflt is not FALSE:
                    outs.setdefault(tm[2], []).append(dflt)
                lst = []
                for tgt, es in outs.items():
                    g = and_b(guard, or_b(*es))
                    if g is not FALSE:
                        lst.append((g, tgt))
                self.branch(pending, lst, env, mem, b)
            elif k == "ret":
                v = None if tm[2] is None else self.operand(tm[2], env)
                # the local objects end with the call: what is read through a pointer kept to them is undefined
                for o in frame:
                    mem.d[o.id] = [None] * o.size
                    mem.owned.add(o.id)
                rets.append((guard, v, mem))
            elif k == "unreachable":
                self.check(guard, FALSE, "unreachable code reached in %s" % f.name, "ub")
            else:
                raise Unsupported(k)
        self.stack.pop()
        self.frames.pop()
        if not rets:
            return None, Mem(), FALSE
        if len(rets) == 1:
            g, v, mem = rets[0]
            return v, mem, g
        common, rest = t.factor([r[0] for r in rets])
        acc = t.or_guards([r[0] for r in rets])
        v = rets[-1][1]
        if v is not None:
            for i in range(len(rets) - 2, -1, -1):
                v = val_ite(rest[i], rets[i][1], v)
        mem = self.merge_mem(rest, [r[2] for r in rets])
        return v, mem, acc

    def branch(self, pending, outs, env, mem, b):
        n = len(outs)
        for i, (g, tgt) in enumerate(outs):
            self.nedges += 1
            if i == n - 1:
                e, m = env, mem
            else:
                e, m = dict(env), mem.fork()
            pending.setdefault(tgt, []).append((g, e, m, b))

    def enter(self, blk, sts):
        if len(sts) == 1:
            g, env, mem, pred = sts[0]
            if blk.phis:
                vals = [(d, self.operand(inc[pred], env)) for d, ty, inc in blk.phis]
                for d, v in vals:
                    env[d] = v
            return g, env, mem
        gs = [s[0] for s in sts]
        common, rest = t.factor(gs)
        guard = t.or_guards(gs)
        live = blk.livein
        env = {}
        last = sts[-1][1]
        for nme in live:
            v = last.get(nme)
            for i in range(len(sts) - 2, -1, -1):
                x = sts[i][1].get(nme)
                if x is None or x is v:
                    continue
                if v is None:
                    v = x
                    continue
                v = val_ite(rest[i], x, v)
            env[nme] = v
        for d, ty, inc in blk.phis:
            v = None
            for i in range(len(sts) - 1, -1, -1):
                o = inc[sts[i][3]]
                if o[0] == "u" and v is not None:
                    continue
                x = self.operand(o, sts[i][1])
                v = x if v is None else val_ite(rest[i], x, v)
            env[d] = v
        mem = self.merge_mem(rest, [s[2] for s in sts])
        return guard, env, mem

    def block(self, f, blk, env, mem, guard):
        self.guard = guard
        self.curmem = mem
        op = self.operand
        for ins in blk.ins:
            self.steps += 1
            k = ins[0]
            if k == "bin":
                env[ins[1]] = self.binop(ins[2], ins[3], op(ins[4], env), op(ins[5], env))
            elif k == "load":
                env[ins[1]] = self.load(mem, op(ins[3], env), ins[2], ins[4], guard)
            elif k == "store":
                self.store(mem, op(ins[4], env), ins[2], op(ins[3], env), ins[5], guard)
            elif k == "cast":
                env[ins[1]] = self.cast(ins[2], ins[3], ins[4], op(ins[5], env))
            elif k == "gep":
                env[ins[1]] = self.gep(ins[2], op(ins[4], env), [(ty, op(x, env)) for ty, x in ins[5]])
            elif k == "icmp":
                env[ins[1]] = self.icmp(ins[2], ins[3], op(ins[4], env), op(ins[5], env))
            elif k == "fcmp":
                env[ins[1]] = self.fcmp(ins[2], ins[3], op(ins[4], env), op(ins[5], env))
            elif k == "select":
                c = op(ins[4], env)
                a = op(ins[5], env)
                b = op(ins[6], env)
                if isinstance(c, tuple):
                    env[ins[1]] = tuple([val_ite(x, y, z) for x, y, z in zip(c, a, b)])
                else:
                    env[ins[1]] = val_ite(c, a, b)
            elif k == "extractelement":
                v = op(ins[3], env)
                i = op(ins[4], env)
                env[ins[1]] = self.vec_get(v, i)
            elif k == "insertelement":
                v = op(ins[3], env)
                e = op(ins[4], env)
                i = op(ins[5], env)
                if i.op == "c":
                    l = list(v)
                    l[i.p] = e
                    env[ins[1]] = tuple(l)
                else:
                    env[ins[1]] = tuple(val_ite(eq(i, const(j, i.w)), e, x) for j, x in enumerate(v))
            elif k == "shuffle":
                a = op(ins[3], env)
                b = op(ins[4], env) if ins[4][0] != "u" else None
                n = len(a)
                r = []
                et = ins[2][2]
                for m in ins[5]:
                    if m < 0 or m >= n and b is None:
                        r.append(self.fresh_of(et))
                    else:
                        r.append(a[m] if m < n else b[m - n])
                env[ins[1]] = tuple(r)
            elif k == "call":
                mem, guard = self.call(ins, env, mem, guard)
                self.curmem = mem
                if guard is FALSE:
                    return FALSE
                self.guard = guard
            elif k == "fneg":
                v = op(ins[3], env)
                env[ins[1]] = tuple(t.fneg(x) for x in v) if isinstance(v, tuple) else t.fneg(v)
            elif k == "alloca":
                n = 1
                if ins[3] is not None:
                    q = op(ins[3][1], env)
                    if q.op != "c":
                        raise Unsupported("variable alloca")
                    n = q.p
                o = self.new_obj("local" + ins[1], sizeof(ins[2]) * n, ins[4], "alloca")
                mem.d[o.id] = [None] * o.size
                mem.owned.add(o.id)
                self.frames[-1].append(o)
                env[ins[1]] = mkptr(o, 0)
            elif k == "extractvalue":
                v = op(ins[3], env)
                for i in ins[4]:
                    v = v[i]
                env[ins[1]] = v
            elif k == "insertvalue":
                env[ins[1]] = self._insval(op(ins[3], env), ins[5], op(ins[4], env))
            elif k == "freeze":
                env[ins[1]] = op(ins[3], env)
            elif k == "atomicrmw":
                p = op(ins[4], env)
                old = self.load(mem, p, ins[3], 1, guard)
                v = op(ins[5], env)
                nv = {"xchg": lambda a, b: b, "add": t.add, "sub": t.sub, "and": t.bvand, "or": t.bvor, "xor": t.bvxor}[ins[2]](old, v)
                self.store(mem, p, ins[3], nv, 1, guard)
                env[ins[1]] = old
            elif k == "cmpxchg":
                p = op(ins[3], env)
                old = self.load(mem, p, ins[2], 1, guard)
                c = op(ins[4], env)
                n = op(ins[5], env)
                e = eq(old, c) if not isinstance(old, Ptr) else self.pcmp("eq", old, c)
                self.store(mem, p, ins[2], val_ite(e, n, old), 1, guard)
                env[ins[1]] = (old, e)
            else:
                raise Unsupported(str(ins[2] if k == "unsupported" else k))
        if self.steps > self.max_steps:
            raise Budget("instruction budget")
        return guard

    def _insval(self, v, idx, e):
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            l[idx[0]] = self._insval(l[idx[0]], idx[1:], e)
        return tuple(l)

    def vec_get(self, v, i):
        if i.op == "c":
            return v[i.p] if i.p < len(v) else v[0]
        r = v[-1]
        for j in range(len(v) - 2, -1, -1):
            r = val_ite(eq(i, const(j, i.w)), v[j], r)
        return r

    def call(self, ins, env, mem, guard):
        _, dst, rty, callee, args = ins
        if callee[0] == "asm":
            import x86
            vals = [self.operand(v, env) for ty, v, at in args if v is not None]
            env[dst] = x86.inline_asm(self, callee[1], callee[2], rty, vals, mem, guard)
            return mem, guard
        if callee[0] == "g":
            name = callee[1]
            r = self.call_named(name, dst, rty, args, env, mem, guard)
            return r
        p = self.operand(callee, env)
        if len(p.alts) == 1:
            g, o, off = p.alts[0]
            if o is None or o.kind != "fn":
                self.check(guard, FALSE, "call through a wild pointer", "mem")
                return mem, FALSE
            return self.call_named(o.fn.name, dst, rty, args, env, mem, guard)
        outs = []
        for g, o, off in p.alts:
            gg = and_b(guard, g)
            if gg is FALSE:
                continue
            if o is None or o.kind != "fn":
                self.check(gg, FALSE, "call through a wild pointer", "mem")
                continue
            e2 = dict(env)
            m2, g2 = self.call_named(o.fn.name, dst, rty, args, e2, mem.fork(), gg)
            if g2 is not FALSE:
                outs.append((g2, e2.get(dst), m2))
        if not outs:
            return mem, FALSE
        common, rest = t.factor([o[0] for o in outs])
        v = outs[-1][1]
        for i in range(len(outs) - 2, -1, -1):
            if v is not None:
                v = val_ite(rest[i], outs[i][1], v)
        if dst:
            env[dst] = v
        return self.merge_mem(rest, [o[2] for o in outs]), t.or_guards([o[0] for o in outs])

    def call_named(self, name, dst, rty, args, env, mem, guard):
        import x86
        h = x86.EXTERN.get(name[1:])
        if h is not None and name[1:4] in ("_Zn", "_Zd"):
            f = self.find_func(name)       # the harness may replace operator new and delete
            if f is not None and not f.is_decl:
                h = None
        if h is None:
            if name.startswith("@llvm."):
                h = x86.intrinsic(name[1:])
                if h is None:
                    raise Unsupported("intrinsic " + name)
            else:
                f = self.find_func(name)
                if f is not None and not f.is_decl:
                    vals = [self.operand(v, env) for ty, v, at in args if v is not None]
                    # byval on the call site
                    g0 = guard
                    v, mem, guard = self.call_func(f, vals, mem, guard)
                    if dst is not None:
                        env[dst] = v
                    return mem, guard
                h = x86.libm(name[1:])
                if h is None:
                    raise Unsupported("external function " + name)
        vals = [self.operand(v, env) if v is not None else None for ty, v, at in args]
        self.guard = guard
        self.curmem = mem
        c = Ctx(self, name, rty, [a[0] for a in args], vals, mem, guard)
        r = h(c)
        if dst is not None:
            env[dst] = r
        return c.mem, c.guard


class Ctx:
    __slots__ = ("ex", "name", "rty", "tys", "v", "mem", "guard")

    def __init__(self, ex, name, rty, tys, v, mem, guard):
        self.ex = ex
        self.name = name
        self.rty = rty
        self.tys = tys
        self.v = v
        self.mem = mem
        self.guard = guard


def struct_bits(v, w):
    import struct
    if w == 64:
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return struct.unpack("<I", struct.pack("<f", v))[0]


def _shift(f, kind):
    return f


BIN = {"add": t.add, "sub": t.sub, "mul": t.mul, "and": t.bvand, "or": t.bvor, "xor": t.bvxor, "shl": t.shl, "lshr": t.lshr,
       "ashr": t.ashr}
ICMP = {"eq": eq, "ne": lambda a, b: not_(eq(a, b)), "ult": t.ult, "ule": t.ule, "ugt": lambda a, b: t.ult(b, a),
        "uge": lambda a, b: t.ule(b, a), "slt": t.slt, "sle": t.sle, "sgt": lambda a, b: t.slt(b, a), "sge": lambda a, b: t.sle(b, a)}
PSAME = {"ult": t.slt, "ule": t.sle, "ugt": lambda a, b: t.slt(b, a), "uge": lambda a, b: t.sle(b, a),
         "slt": t.slt, "sle": t.sle, "sgt": lambda a, b: t.slt(b, a), "sge": lambda a, b: t.sle(b, a)}


def fcmp1(pred, a, b):
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    if pred == "oeq":
        return t.foeq(a, b)
    if pred == "une":
        return not_(t.foeq(a, b))
    if pred == "olt":
        return t.folt(a, b)
    if pred == "ole":
        return t.fole(a, b)
    if pred == "ogt":
        return t.folt(b, a)
    if pred == "oge":
        return t.fole(b, a)
    if pred == "ult":
        return not_(t.fole(b, a))
    if pred == "ule":
        return not_(t.folt(b, a))
    if pred == "ugt":
        return not_(t.fole(a, b))
    if pred == "uge":
        return not_(t.folt(a, b))
    un = or_b(t.fnan(a), t.fnan(b))
    if pred == "uno":
        return un
    if pred == "ord":
        return not_(un)
    if pred == "one":
        return and_b(not_(un), not_(t.foeq(a, b)))
    if pred == "ueq":
        return or_b(un, t.foeq(a, b))
    raise Unsupported(pred)
