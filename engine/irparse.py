"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that clang emits for our harnesses.

Function bodies are parsed lazily.  Operands are tuples:
  ('l', name)            SSA value
  ('c', value)           constant, already an executor value (term / tuple of terms)
  ('u', type)            undef / poison
  ('null',)              null pointer
  ('g', name)            address of a global or a function
  ('gep', srcty, base, [(ty, idx)...])    constant expressions
  ('cast', op, operand, fromty, toty)
  ('bin', op, a, b, ty)
  ('agg', [operands])    aggregate/vector containing non-plain constants
"""
import re
import struct
from terms import const, boolc, FALSE, TRUE

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+)
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[=,(){}\[\]<>*|:])
 | (?P<cmt>;[^\n]*)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if r is None:
            raise SyntaxError("token: %r" % s[pos:pos + 60])
        k = r.lastgroup
        if k != "ws" and k != "cmt":
            out.append((k, r.group()))
        pos = r.end()
    out.append(("eof", ""))
    return out


PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "nofpclass",
                   "allocsize", "memory", "preallocated", "inalloca", "byref", "range", "initializes", "captures", "vscale_range",
                   "allocalign", "alignstack", "allockind"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "fast", "volatile", "atomic", "tail", "musttail", "notail", "inrange"}
VOID = ("void",)
PTR = ("p",)


def unquote(n):
    return n[0] + n[2:-1] if len(n) > 1 and n[1] == '"' else n


class Module:
    def __init__(self, path=None, text=None):
        self.path = path
        if text is None:
            text = open(path).read()
        self.types = {}
        self.globals = {}     # name -> dict(type, init_tokens, const, align, external)
        self.funcs = {}       # name -> Func
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ";" or l[0] == "!":
                i += 1
                continue
            c = l[0]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Func(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith("declare "):
                f = Func(self, l, None)
                self.funcs.setdefault(f.name, f)
            elif c == "%":
                k, v = l.split(" = type ", 1)
                self.types[unquote(k.strip())] = v
            elif c == "@":
                self._global(l)
            i += 1

    def _global(self, l):
        name, rest = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l).groups()
        name = unquote(name)
        m = re.match(r'(.*?)\b(global|constant|alias|ifunc) (.*)$', rest)
        pre, kind, body = m.groups()
        if kind in ("alias", "ifunc"):
            t = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', body)
            self.aliases[name] = unquote(t[-1])
            return
        al = re.search(r', align (\d+)', body)
        self.globals[name] = {"body": body, "const": kind == "constant", "align": int(al.group(1)) if al else 1,
                              "external": bool(re.search(r'\b(external|extern_weak)\b', pre)), "parsed": None, "mod": self,
                              "weak": "linkonce" in pre or "weak" in pre}

    def type_of(self, name):
        v = self.types.get(name)
        if isinstance(v, str):
            if v.strip() == "opaque":
                v = ("opaque",)
            else:
                v = Parser(self, tokenize(v)).type()
            self.types[name] = v
        return v

    def global_info(self, name):
        g = self.globals[name]
        if g["parsed"] is None:
            p = Parser(self, tokenize(g["body"]))
            ty = p.type()
            init = None
            if not g["external"] and p.tok[p.i][1] not in (",", ""):
                init = p.value(ty)
            g["parsed"] = (ty, init)
        return g["parsed"]


# ------------------------------------------------------------------ type layout
def align_up(x, a):
    return (x + a - 1) // a * a


_lay = {}


def sizeof(t):
    """alloc size in bytes"""
    r = _lay.get(t)
    if r is None:
        r = _lay[t] = _sizeof(t)
    return r


def store_size(t):
    return (bitwidth(t) + 7) // 8 if t[0] in ("i", "v", "f") else sizeof(t)


def bitwidth(t):
    k = t[0]
    if k == "i" or k == "f":
        return t[1]
    if k == "p":
        return 64
    if k == "v":
        return t[1] * bitwidth(t[2])
    raise TypeError(t)


def alignof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if k == "f":
        return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == "p":
        return 8
    if k == "v":
        n = (bitwidth(t) + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return a
    if k == "a":
        return alignof(t[2])
    if k == "s":
        if t[2]:
            return 1
        return max([alignof(x) for x in t[1]] or [1])
    raise TypeError(t)


def _sizeof(t):
    k = t[0]
    if k == "i":
        return align_up((t[1] + 7) // 8, alignof(t))
    if k == "f":
        return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == "p":
        return 8
    if k == "v":
        return align_up((bitwidth(t) + 7) // 8, alignof(t))
    if k == "a":
        return t[1] * sizeof(t[2])
    if k == "s":
        o = 0
        for x in t[1]:
            if not t[2]:
                o = align_up(o, alignof(x))
            o += sizeof(x)
        return align_up(o, alignof(t)) if not t[2] else o
    raise TypeError(t)


def field_offset(t, i):
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            o = align_up(o, alignof(x))
        if j == i:
            return o
        o += sizeof(x)
    raise IndexError


# ------------------------------------------------------------------ parser
class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.tok = toks
        self.i = 0

    def peek(self):
        return self.tok[self.i][1]

    def kind(self):
        return self.tok[self.i][0]

    def next(self):
        t = self.tok[self.i][1]
        self.i += 1
        return t

    def expect(self, s):
        t = self.next()
        if t != s:
            raise SyntaxError("expected %r got %r near %r" % (s, t, [x[1] for x in self.tok[max(0, self.i - 12):self.i + 8]]))

    def accept(self, s):
        if self.tok[self.i][1] == s:
            self.i += 1
            return True
        return False

    # ---- types
    def type(self):
        t = self._type0()
        while True:
            if self.peek() == "(":          # function type
                self.next()
                args = []
                while not self.accept(")"):
                    if self.accept("..."):
                        args.append("...")
                    else:
                        args.append(self.type())
                    self.accept(",")
                t = ("fn", t, tuple(args))
            elif self.peek() == "*":
                self.next()
                t = PTR
            else:
                return t

    def _type0(self):
        k, s = self.tok[self.i]
        self.i += 1
        if k == "word":
            if s[0] == "i" and s[1:].isdigit():
                return ("i", int(s[1:]))
            if s == "ptr":
                if self.accept("addrspace"):
                    self.expect("(")
                    self.next()
                    self.expect(")")
                return PTR
            if s == "float":
                return ("f", 32)
            if s == "double":
                return ("f", 64)
            if s == "half":
                return ("f", 16)
            if s == "x86_fp80":
                return ("f", 80)
            if s == "fp128":
                return ("f", 128)
            if s == "void":
                return VOID
            if s in ("label", "metadata", "token", "x86_mmx"):
                return (s,)
            if s == "opaque":
                return ("opaque",)
        if k == "loc":
            return self.m.type_of(unquote(s))
        if s == "[":
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect("]")
            return ("a", n, t)
        if s == "<":
            if self.accept("{"):
                f = []
                while not self.accept("}"):
                    f.append(self.type())
                    self.accept(",")
                self.expect(">")
                return ("s", tuple(f), True)
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect(">")
            return ("v", n, t)
        if s == "{":
            f = []
            while not self.accept("}"):
                f.append(self.type())
                self.accept(",")
            return ("s", tuple(f), False)
        raise SyntaxError("type: %r near %r" % (s, [x[1] for x in self.tok[max(0, self.i - 8):self.i + 8]]))

    # ---- attributes between type and value
    def skip_attrs(self):
        out = {}
        while True:
            k, s = self.tok[self.i]
            if k == "word" and s not in CONSTWORDS and s not in ("i1",):
                nxt = self.tok[self.i + 1][1]
                if s in PARAM_ATTRS_ARG or nxt == "(" and s in PARAM_ATTRS_ARG:
                    self.i += 1
                    if self.accept("("):
                        if s in ("byval", "sret", "elementtype"):
                            out[s] = self.type()
                            self.expect(")")
                        else:
                            d = 1
                            while d:
                                q = self.next()
                                d += (q == "(") - (q == ")")
                            out[s] = True
                    else:
                        out[s] = int(self.next())
                    continue
                if s in PLAIN_ATTRS:
                    self.i += 1
                    out[s] = True
                    continue
                return out
            if k == "str":
                self.i += 1
                if self.accept("="):
                    self.next()
                continue
            return out

    # ---- values
    def value(self, ty):
        k, s = self.tok[self.i]
        if k == "loc":
            self.i += 1
            return ("l", unquote(s))
        if k == "glob":
            self.i += 1
            return ("g", unquote(s))
        if k == "num":
            self.i += 1
            if ty[0] == "i":
                if ty[1] == 1:
                    return ("c", boolc(int(s) & 1))
                return ("c", const(int(s), ty[1]))
            if ty[0] == "f":
                return ("c", fconst(float(s), ty[1]))
            raise SyntaxError("num for %r" % (ty,))
        if k == "hex":
            self.i += 1
            if ty[0] == "f":
                if s[2] == "H":
                    return ("c", const(int(s[3:], 16), 16))
                if s[2] in "KLM":
                    return ("c", const(int(s[3:], 16), ty[1]))
                v = int(s, 16)
                if ty[1] == 64:
                    return ("c", const(v, 64))
                return ("c", fconst_from_double_bits(v, ty[1]))
            return ("c", const(int(s, 16), ty[1]))
        if k == "word":
            if s == "true":
                self.i += 1
                return ("c", TRUE)
            if s == "false":
                self.i += 1
                return ("c", FALSE)
            if s == "null":
                self.i += 1
                return ("null",)
            if s in ("undef", "poison"):
                self.i += 1
                return ("u", ty)
            if s == "zeroinitializer":
                self.i += 1
                return zero_of(ty)
            if s == "none":
                self.i += 1
                return ("u", ty)
            if s == "getelementptr":
                self.i += 1
                while self.peek() in FLAGS:
                    self.next()
                    if self.peek() == "(":      # inrange(..)
                        pass
                self.expect("(")
                st = self.type()
                self.expect(",")
                bt = self.type()
                b = self.value(bt)
                idx = []
                while self.accept(","):
                    self.accept("inrange")
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(")")
                return ("gep", st, b, idx)
            if s in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.i += 1
                self.expect("(")
                ft = self.type()
                v = self.value(ft)
                self.expect("to")
                tt = self.type()
                self.expect(")")
                return ("cast", s, v, ft, tt)
            if s in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "icmp", "select", "fcmp"):
                self.i += 1
                while self.peek() in FLAGS:
                    self.next()
                pred = None
                if s in ("icmp", "fcmp"):
                    pred = self.next()
                self.expect("(")
                at = self.type()
                a = self.value(at)
                self.expect(",")
                bt = self.type()
                b = self.value(bt)
                c = None
                if s == "select":
                    self.expect(",")
                    c = self.value(self.type())
                self.expect(")")
                if s == "icmp":
                    return ("cmp", pred, a, b, at)
                if s == "select":
                    return ("sel", a, b, c)
                return ("bin", s, a, b, at)
            if s == "blockaddress" or s == "asm":
                raise SyntaxError("unsupported constant " + s)
            if s in ("dso_local_equivalent", "no_cfi"):
                self.i += 1
                return self.value(ty)
        if k == "cstr":
            self.i += 1
            raw = s[2:-1]
            by = []
            j = 0
            while j < len(raw):
                if raw[j] == "\\":
                    by.append(int(raw[j + 1:j + 3], 16))
                    j += 3
                else:
                    by.append(ord(raw[j]))
                    j += 1
            return ("c", tuple(const(b, 8) for b in by))
        if s in ("<", "[", "{"):
            self.i += 1
            packed = False
            if s == "<" and self.peek() == "{":
                self.i += 1
                packed = True
                close = "}"
            else:
                close = {"<": ">", "[": "]", "{": "}"}[s]
            vals = []
            while not self.accept(close):
                t = self.type()
                vals.append(self.value(t))
                self.accept(",")
            if packed:
                self.expect(">")
            if all(v[0] == "c" for v in vals):
                return ("c", tuple(v[1] for v in vals))
            return ("agg", vals)
        raise SyntaxError("value: %r (%r) near %r" % (s, ty, [x[1] for x in self.tok[max(0, self.i - 8):self.i + 8]]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


CONSTWORDS = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr",
              "bitcast", "trunc", "zext", "sext", "addrspacecast", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr",
              "icmp", "select", "asm", "blockaddress", "dso_local_equivalent", "no_cfi", "x"}
PLAIN_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "zeroext", "signext",
               "inreg", "immarg", "nest", "nofree", "swiftself", "swifterror", "noreturn", "nounwind", "allocptr", "writable",
               "dead_on_unwind", "noext"}


def fconst(v, w):
    if w == 64:
        return const(struct.unpack("<Q", struct.pack("<d", v))[0], 64)
    if w == 32:
        return const(struct.unpack("<I", struct.pack("<f", v))[0], 32)
    raise SyntaxError("fp const width %d" % w)


def fconst_from_double_bits(v, w):
    if w == 32:
        # exact narrowing, keep NaN payload
        s = v >> 63
        e = v >> 52 & 0x7ff
        m = v & (1 << 52) - 1
        if e == 0x7ff:
            return const(s << 31 | 0xff << 23 | m >> 29, 32)
        d = struct.unpack("<d", struct.pack("<Q", v))[0]
        return const(struct.unpack("<I", struct.pack("<f", d))[0], 32)
    if w == 80:
        return const(0, 80)
    raise SyntaxError("fp const width")


def zero_of(ty):
    z = _zero(ty)
    return z


def _zero(ty):
    k = ty[0]
    if k == "i":
        return ("c", const(0, ty[1]) if ty[1] != 1 else FALSE)
    if k == "f":
        return ("c", const(0, ty[1]))
    if k == "p":
        return ("null",)
    if k in ("v", "a"):
        z = _zero(ty[2])
        if z[0] == "c":
            return ("c", (z[1],) * ty[1])
        return ("agg", [z] * ty[1])
    if k == "s":
        zs = [_zero(t) for t in ty[1]]
        if all(z[0] == "c" for z in zs):
            return ("c", tuple(z[1] for z in zs))
        return ("agg", zs)
    raise SyntaxError("zeroinitializer %r" % (ty,))


class Block:
    __slots__ = ("name", "phis", "ins", "term", "idx", "livein", "succs")


class Func:
    def __init__(self, mod, header, body):
        self.m = mod
        self.header = header
        self.body = body
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', header)
        self.name = unquote(m.group(1))
        self.parsed = False
        self.hpos = m.start()
        self.weak = "linkonce" in header[:m.start()] or " weak" in header[:m.start()]
        self.attrs_parsed = False

    @property
    def is_decl(self):
        return self.body is None

    def parse_header(self):
        if self.attrs_parsed:
            return
        self.attrs_parsed = True
        p = Parser(self.m, tokenize(self.header[self.hpos:]))
        p.next()
        p.expect("(")
        self.params = []      # (type, name, attrs)
        self.vararg = False
        n = 0
        while not p.accept(")"):
            if p.accept("..."):
                self.vararg = True
            else:
                t = p.type()
                a = p.skip_attrs()
                if p.kind() == "loc":
                    nm = unquote(p.next())
                else:
                    nm = "%" + str(n)
                self.params.append((t, nm, a))
                n += 1
            p.accept(",")

    def parse(self):
        if self.parsed:
            return
        self.parse_header()
        self.parsed = True
        # statements
        stm = []
        acc = None
        for l in self.body:
            c = l.find(" ;") if ";" in l and '"' not in l else -1
            s = l[:c] if c >= 0 else l
            s = s.strip()
            if not s or s[0] == ";":
                continue
            if acc is not None:
                acc += " " + s
                if s == "]" or s.startswith("]"):
                    stm.append(acc)
                    acc = None
                continue
            if stm and re.match(r"to label \S+ unwind label", s):
                stm[-1] += " " + s          # second line of invoke
                continue
            if re.match(r"(cleanup$|catch |filter )", s):
                continue                    # rest of landingpad
            if s.startswith("switch ") and "]" not in s:
                acc = s
                continue
            if s.startswith("switch ") and s.endswith("["):
                acc = s
                continue
            stm.append(s)
        self.blocks = {}
        order = []
        cur = None
        nparam_unnamed = len(self.params)
        for s in stm:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                nm = "%" + m.group(1).strip('"')
                cur = self._newblock(nm, order)
                continue
            if cur is None:
                # entry without label: numbered after the unnamed params
                cnt = sum(1 for t, n, a in self.params if n[1:].isdigit())
                cur = self._newblock("%" + str(cnt), order)
            self._ins(cur, s)
        self.order = order
        self.entry = order[0]
        self._analyse()

    def _newblock(self, nm, order):
        b = Block()
        b.name = nm
        b.phis = []
        b.ins = []
        b.term = None
        self.blocks[nm] = b
        order.append(nm)
        return b

    def _ins(self, b, s):
        # strip metadata suffix
        k = s.find(", !")
        if k >= 0:
            s = s[:k]
        p = Parser(self.m, tokenize(s))
        dst = None
        if p.kind() == "loc":
            dst = unquote(p.next())
            p.expect("=")
        op = p.next()
        flags = set()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BINOPS:
            while p.peek() in FLAGS:
                flags.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(",")
            c = p.value(t)
            b.ins.append(("bin", dst, op, t, a, c))
        elif op == "fneg":
            while p.peek() in FLAGS:
                p.next()
            t, a = p.tv()
            b.ins.append(("fneg", dst, t, a))
        elif op in ("icmp", "fcmp"):
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            c = p.value(t)
            b.ins.append((op, dst, pred, t, a, c))
        elif op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            t, a = p.tv()
            p.expect("to")
            tt = p.type()
            b.ins.append(("cast", dst, op, t, tt, a))
        elif op == "phi":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                inc[unquote(p.next())] = v
                p.expect("]")
                if not p.accept(","):
                    break
            b.phis.append((dst, t, inc))
        elif op == "select":
            while p.peek() in FLAGS:
                p.next()
            ct, c = p.tv()
            p.expect(",")
            t, x = p.tv()
            p.expect(",")
            t2, y = p.tv()
            b.ins.append(("select", dst, ct, t, c, x, y))
        elif op == "load":
            at = False
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.expect(",")
            pt, a = p.tv()
            b.ins.append(("load", dst, t, a, self._align(p, t)))
        elif op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t, v = p.tv()
            p.expect(",")
            pt, a = p.tv()
            b.ins.append(("store", None, t, v, a, self._align(p, t)))
        elif op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = None
            al = alignof(t)
            while p.accept(","):
                if p.accept("align"):
                    al = int(p.next())
                elif p.peek() == "addrspace":
                    break
                else:
                    n = p.tv()
            b.ins.append(("alloca", dst, t, n, al))
        elif op == "getelementptr":
            while p.peek() in FLAGS:
                p.next()
            st = p.type()
            p.expect(",")
            bt, base = p.tv()
            idx = []
            while p.accept(","):
                idx.append(p.tv())
            b.ins.append(("gep", dst, st, bt, base, idx))
        elif op == "extractelement":
            t, v = p.tv()
            p.expect(",")
            it, i = p.tv()
            b.ins.append(("extractelement", dst, t, v, i))
        elif op == "insertelement":
            t, v = p.tv()
            p.expect(",")
            et, e = p.tv()
            p.expect(",")
            it, i = p.tv()
            b.ins.append(("insertelement", dst, t, v, e, i))
        elif op == "shufflevector":
            t, v = p.tv()
            p.expect(",")
            t2, w = p.tv()
            p.expect(",")
            mt = p.type()
            mask = []
            if p.accept("zeroinitializer"):
                mask = [0] * mt[1]
            elif p.peek() in ("poison", "undef"):
                mask = [-1] * mt[1]
            else:
                p.expect("<")
                while not p.accept(">"):
                    p.type()
                    x = p.next()
                    mask.append(-1 if x in ("poison", "undef") else int(x))
                    p.accept(",")
            b.ins.append(("shuffle", dst, t, v, w, mask))
        elif op == "extractvalue":
            t, v = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            b.ins.append(("extractvalue", dst, t, v, idx))
        elif op == "insertvalue":
            t, v = p.tv()
            p.expect(",")
            et, e = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            b.ins.append(("insertvalue", dst, t, v, e, idx))
        elif op == "freeze":
            t, v = p.tv()
            b.ins.append(("freeze", dst, t, v))
        elif op == "call":
            b.ins.append(self._call(p, dst))
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p.accept("volatile")
            rop = p.next()
            pt, a = p.tv()
            p.expect(",")
            t, v = p.tv()
            b.ins.append(("atomicrmw", dst, rop, t, a, v))
        elif op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.next()
            pt, a = p.tv()
            p.expect(",")
            t, c = p.tv()
            p.expect(",")
            t2, n = p.tv()
            b.ins.append(("cmpxchg", dst, t, a, c, n))
        elif op == "br":
            if p.accept("label"):
                b.term = ("br", unquote(p.next()))
            else:
                t, c = p.tv()
                p.expect(",")
                p.expect("label")
                x = unquote(p.next())
                p.expect(",")
                p.expect("label")
                y = unquote(p.next())
                b.term = ("cbr", c, x, y)
        elif op == "switch":
            t, c = p.tv()
            p.expect(",")
            p.expect("label")
            d = unquote(p.next())
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct, v = p.tv()
                p.expect(",")
                p.expect("label")
                cases.append((v, unquote(p.next())))
            b.term = ("switch", c, d, cases)
        elif op == "ret":
            t = p.type()
            if t == VOID:
                b.term = ("ret", t, None)
            else:
                p.skip_attrs()
                b.term = ("ret", t, p.value(t))
        elif op == "unreachable":
            b.term = ("unreachable",)
        elif op == "invoke":
            c = self._call(p, dst)
            while p.next() != "to":
                pass
            p.expect("label")
            ok = unquote(p.next())
            b.ins.append(c)
            b.term = ("br", ok)
        elif op in ("landingpad", "resume", "va_arg", "indirectbr"):
            b.ins.append(("unsupported", dst, op))
            if op in ("resume", "indirectbr"):
                b.term = ("unreachable",)
        else:
            raise SyntaxError("instruction %r in %s: %s" % (op, self.name, s))

    def _align(self, p, t):
        al = 1
        while p.accept(","):
            if p.accept("align"):
                al = int(p.next())
            else:
                break
        return al

    def _call(self, p, dst):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "coldcc", "ccc", "cc"):
            p.next()
        p.skip_attrs()
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        p.skip_attrs()
        if p.peek() == "asm":
            p.next()
            while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                p.next()
            txt = p.next()
            p.expect(",")
            cons = p.next()
            callee = ("asm", txt.strip('"'), cons.strip('"'))
        else:
            callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            aa = p.skip_attrs()
            if at == ("metadata",):
                # skip
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    q = p.next()
                    d += (q in "([{") - (q in ")]}")
                args.append((at, None, aa))
            else:
                args.append((at, p.value(at), aa))
            p.accept(",")
        return ("call", dst, t, callee, args)

    # ---- analysis
    def _analyse(self):
        for b in self.blocks.values():
            t = b.term
            if t[0] == "br":
                b.succs = [t[1]]
            elif t[0] == "cbr":
                b.succs = [t[2], t[3]]
            elif t[0] == "switch":
                b.succs = [t[2]] + [x for _, x in t[3]]
            else:
                b.succs = []
            b.succs = list(dict.fromkeys(b.succs))
        self._wto()
        self._live()

    def _wto(self):
        """Bourdoncle weak topological order -> linear position plus component ranges"""
        import sys
        dfn = {}
        stack = []
        num = [0]
        blocks = self.blocks

        INF = 1 << 60

        def component(v):
            part = []
            for w in blocks[v].succs:
                if dfn.get(w, 0) == 0:
                    visit(w, part)
            part.reverse()
            return ("c", v, part)

        def visit(v, part):
            stack.append(v)
            num[0] += 1
            head = dfn[v] = num[0]
            loop = False
            for w in blocks[v].succs:
                m = visit(w, part) if dfn.get(w, 0) == 0 else dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                else:
                    part.append(("v", v))
            return head

        old = sys.getrecursionlimit()
        sys.setrecursionlimit(max(old, 20000))
        top = []
        visit(self.entry, top)
        top.reverse()
        self.pos = {}
        self.comp_end = {}
        order = []

        def lin(parts):
            for x in parts:
                if x[0] == "v":
                    self.pos[x[1]] = len(order)
                    order.append(x[1])
                else:
                    h = x[1]
                    self.pos[h] = len(order)
                    order.append(h)
                    lin(x[2])
                    self.comp_end[h] = len(order) - 1
        lin(top)
        self.wto = order

    def _live(self):
        use = {}
        dfs = {}
        for n, b in self.blocks.items():
            u = set()
            d = set()
            for ph in b.phis:
                d.add(ph[0])
            for ins in b.ins:
                for x in ins_uses(ins):
                    if x not in d:
                        u.add(x)
                if ins[1] is not None:
                    d.add(ins[1])
            for x in term_uses(b.term):
                if x not in d:
                    u.add(x)
            use[n] = u
            dfs[n] = d
        live = {n: set() for n in self.blocks}
        changed = True
        rev = list(reversed(self.wto))
        while changed:
            changed = False
            for n in rev:
                b = self.blocks[n]
                out = set()
                for s in b.succs:
                    out |= live[s]
                    for dst, t, inc in self.blocks[s].phis:
                        v = inc.get(n)
                        if v is not None:
                            op_uses(v, out)
                new = use[n] | (out - dfs[n])
                if new != live[n]:
                    live[n] = new
                    changed = True
        for n, b in self.blocks.items():
            # phi destinations of n are not live-in of n (they are defined at entry)
            b.livein = live.get(n, set())


def op_uses(v, out):
    k = v[0]
    if k == "l":
        out.add(v[1])
    elif k == "agg":
        for x in v[1]:
            op_uses(x, out)


def ins_uses(ins):
    out = set()
    _walk(ins[2:], out)
    return out


def _walk(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "l" and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            if isinstance(y, (tuple, list)):
                _walk(y, out)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (tuple, list)):
                _walk(y, out)


def term_uses(t):
    out = set()
    if t is not None:
        _walk(t[1:], out)
    return out


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul",
          "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast",
         "addrspacecast"}
