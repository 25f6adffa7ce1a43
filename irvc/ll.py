"""Reader for textual LLVM IR (LLVM 17/18, opaque pointers) as emitted by clang -O0.

Only the constructs clang emits for the drivers are understood; anything else raises
Unsupported, which the checker reports as "not within reach" -- never as proved.
"""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "fs", "packed", "name")

    def __init__(self, k, n=0, e=None, fs=None, packed=False, name=None):
        self.k = k; self.n = n; self.e = e; self.fs = fs; self.packed = packed; self.name = name

    def __repr__(self):
        if self.k == "i": return "i%d" % self.n
        if self.k == "arr": return "[%d x %r]" % (self.n, self.e)
        if self.k == "vec": return "<%d x %r>" % (self.n, self.e)
        if self.k == "st": return self.name or "{%s}" % ", ".join(map(repr, self.fs or []))
        return self.k


VOID = Ty("void"); PTR = Ty("ptr"); DOUBLE = Ty("double"); FLOAT = Ty("float")
LABEL = Ty("label"); META = Ty("metadata"); X86FP80 = Ty("x86_fp80")
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("i", n)
    return t


TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<fhex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<qstr>"(?:[^"\\]|\\.)*")
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<p>[][(){}<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("token: " + s[i:i + 40])
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


PARAM_ATTRS_PAREN = {"sret", "byval", "byref", "dereferenceable", "dereferenceable_or_null", "inalloca",
                     "preallocated", "elementtype", "align", "memory", "nofpclass", "range", "captures", "initializes"}
SIMPLE_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "nofree", "nest",
                "returned", "immarg", "readonly", "readnone", "writeonly", "writable", "dead_on_unwind", "swiftself",
                "swifterror", "allocalign", "allocptr", "noreturn", "nounwind", "local_unnamed_addr", "unnamed_addr"}
FAST = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class P:
    """Token cursor."""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise Unsupported("expected %r got %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)[:200]))

    def done(self):
        return self.i >= len(self.t)

    # types
    def is_type(self):
        p = self.peek()
        if p is None: return False
        if p in ("void", "ptr", "double", "float", "label", "metadata", "x86_fp80", "{", "[", "<", "half", "fp128", "token"):
            return True
        if self.kind() == "word" and re.fullmatch(r"i\d+", p): return True
        if self.kind() == "name" and p[0] == "%": return p in self.mod.types or True
        return False

    def type(self):
        p = self.next()
        if p == "void": t = VOID
        elif p == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif p == "double": t = DOUBLE
        elif p == "float": t = FLOAT
        elif p == "x86_fp80": t = X86FP80
        elif p == "label": t = LABEL
        elif p == "metadata": t = META
        elif p == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]")
            t = Ty("arr", n, e)
        elif p == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"): break
                    self.expect(",")
            t = Ty("st", fs=fs)
        elif p == "<":
            if self.peek() == "{":
                t = self.type(); t = Ty("st", fs=t.fs, packed=True); self.expect(">")
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">")
                t = Ty("vec", n, e)
        elif p[0] == "%":
            t = self.mod.named(p)
        elif re.fullmatch(r"i\d+", p):
            t = INT(int(p[1:]))
        else:
            raise Unsupported("type " + p)
        # function type suffix  "ret (args...)"
        if self.peek() == "(" and t is not LABEL and self._looks_fnty():
            depth = 0
            while True:
                q = self.next()
                if q == "(": depth += 1
                if q == ")":
                    depth -= 1
                    if depth == 0: break
        return t

    def _looks_fnty(self):
        # a function type is followed (after the parens) by a callee name
        d = 0; j = self.i
        while j < len(self.t):
            q = self.t[j][1]
            if q == "(": d += 1
            elif q == ")":
                d -= 1
                if d == 0: break
            j += 1
        if j + 1 < len(self.t):
            k, v = self.t[j + 1]
            return k == "name" or v == "asm"
        return False

    def attrs(self):
        """Skip parameter attributes; return dict of those with a type."""
        out = {}
        while True:
            p = self.peek()
            if p in ("sret", "byval", "byref"):
                self.next(); self.expect("("); out[p] = self.type(); self.expect(")")
            elif p == "align":
                self.next()
                if self.eat("("):
                    self.next(); self.expect(")")
                else:
                    self.next()
            elif p in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        q = self.next()
                        if q == "(": d += 1
                        if q == ")":
                            d -= 1
                            if d == 0: break
            elif p in SIMPLE_ATTRS:
                self.next()
            elif self.kind() == "qstr":
                self.next()
                if self.eat("="): self.next()
            elif self.kind() == "attr":
                self.next()
            else:
                return out

    # values -> ('reg',name) | ('const', ty, payload)
    def value(self, ty):
        k = self.kind(); p = self.next()
        if k == "name":
            if p[0] == "%": return ("reg", p)
            return ("glob", p)
        if k == "num":
            if ty.k in ("double", "float"): return ("fp", Fraction(p))
            return ("int", int(p))
        if k == "fhex":
            if p[2] in "HKLMR":
                return ("fpraw", p)
            return ("fp", hexfp(p))
        if p == "true": return ("int", 1)
        if p == "false": return ("int", 0)
        if p == "null": return ("null",)
        if p in ("undef", "poison"): return ("undef",)
        if p in ("zeroinitializer",): return ("zero",)
        if k == "str": return ("bytes", unescape(p[2:-1]))
        if p == "[" or p == "{" or (p == "<"):
            close = {"[": "]", "{": "}", "<": ">"}[p]
            if p == "<" and self.peek() == "{":
                v = self.value(ty); self.expect(">"); return v
            items = []
            if not self.eat(close):
                while True:
                    t = self.type(); self.attrs()
                    items.append((t, self.value(t)))
                    if self.eat(close): break
                    self.expect(",")
            return ("agg", items)
        if p == "getelementptr":
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1][1] == "inrange":
                    while self.next() != ")": pass
            self.expect("(")
            bt = self.type(); self.expect(",")
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.eat(","):
                if self.peek() == "inrange": self.next()
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", bt, base, idx)
        if p in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("("); t = self.type(); v = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("cast", p, t, v, t2)
        if p in ("add", "sub", "mul", "shl", "xor", "and", "or"):
            while self.peek() in ("nsw", "nuw"): self.next()
            self.expect("("); t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2)
            self.expect(")")
            return ("bin", p, t, a, b)
        if p in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        if k == "meta" or ty.k == "metadata":
            # swallow metadata operand
            d = 0
            while self.i < len(self.t):
                q = self.peek()
                if q in ("(", "{"): d += 1
                if q in (")", "}"):
                    if d == 0: break
                    d -= 1
                if q == "," and d == 0: break
                self.next()
            return ("meta",)
        raise Unsupported("value %r" % p)


def hexfp(p):
    bits = int(p, 16)
    d = struct.unpack(">d", struct.pack(">Q", bits))[0]
    if d != d: return "nan"
    if d in (float("inf"), float("-inf")): return "inf" if d > 0 else "-inf"
    if d == 0 and (bits >> 63): return Fraction(0)
    return Fraction(d)


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "body", "defined", "parsed", "entry", "vararg", "nregs")

    def __init__(self, name, ret, params, vararg=False):
        self.name = name; self.ret = ret; self.params = params
        self.blocks = None; self.body = None; self.defined = False; self.parsed = False; self.vararg = vararg


class Module:
    def __init__(self, text):
        self.types = {}
        self._rawtypes = {}
        self.funcs = {}
        self.globs = {}
        self.datalayout = ""
        self.triple = ""
        self.ptrbits = 64
        self._sz = {}
        self._read(text)

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = self.types[nm] = Ty("st", name=nm)
        return t

    def _read(self, text):
        lines = text.split("\n")
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln or ln[0] in ";!" : continue
            if ln.startswith("target datalayout"):
                self.datalayout = ln.split('"')[1]
                for part in self.datalayout.split("-"):
                    m = re.match(r"p:(\d+)", part)
                    if m: self.ptrbits = int(m.group(1))
                    if part.startswith("P1"): pass
            elif ln.startswith("target triple"):
                self.triple = ln.split('"')[1]
            elif ln[0] == "%":
                nm, rest = ln.split(" = type ", 1)
                self.named(nm)
                self._rawtypes[nm] = rest
            elif ln[0] == "@":
                self._global(ln)
            elif ln.startswith("define"):
                body = []
                hdr = ln
                while i < n and lines[i] != "}":
                    body.append(lines[i]); i += 1
                i += 1
                self._func(hdr, body)
            elif ln.startswith("declare"):
                self._func(ln, None)
        for nm, rest in self._rawtypes.items():
            if rest.startswith("opaque"): continue
            p = P(tokenize(rest), self)
            t = p.type()
            d = self.types[nm]; d.fs = t.fs; d.packed = t.packed

    def _global(self, ln):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
        self.globs[m.group(1)] = [m.group(2), None, None, None]

    def ctors(self):
        """the functions that initialise the unit's objects of static storage"""
        g = self.globs.get("@llvm.global_ctors")
        return [] if g is None else re.findall(r"\{ i32 \d+, ptr (@[\w.\"$]+),", g[0])

    def glob(self, nm):
        g = self.globs.get(nm)
        if g is None: return None
        if g[1] is None:
            toks = tokenize(g[0])
            p = P(toks, self)
            ext = False; const = False
            while True:
                w = p.peek()
                if w in ("constant", "global"):
                    const = (p.next() == "constant"); break
                if w in ("external", "extern_weak"): ext = True
                if w == "alias": raise Unsupported("alias " + nm)
                if w == "addrspace":
                    p.next(); p.expect("("); p.next(); p.expect(")"); continue
                if w == "thread_local":
                    p.next()
                    if p.eat("("): p.next(); p.expect(")")
                    continue
                p.next()
            t = p.type()
            v = None
            if not ext and not p.done() and p.peek() != ",":
                v = p.value(t)
            g[1] = t; g[2] = v; g[3] = const
        return g

    def _func(self, hdr, body):
        # name and params
        s = hdr
        k = s.rfind("{")
        if body is not None: s = s[:k]
        p = P(tokenize(s.split(" !dbg ")[0]), self)
        p.next()
        while not p.is_type():
            w = p.next()
            if p.peek() == "(" and w in PARAM_ATTRS_PAREN:
                while p.next() != ")": pass
            if w == "align": p.next()
            if w in ("cc",): p.next()
        # is_type may catch 'name' token: return type named struct
        ret = p.type()
        p.attrs()
        nm = p.next()
        p.expect("(")
        params = []; va = False
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    va = True
                else:
                    t = p.type(); at = p.attrs()
                    reg = None
                    if p.kind() == "name": reg = p.next()
                    params.append((t, at, reg))
                if p.eat(")"): break
                p.expect(",")
        f = Func(nm, ret, params, va)
        if body is not None:
            f.defined = True
            f.body = body
        if nm not in self.funcs or f.defined:
            self.funcs[nm] = f

    # -------- layout
    def align(self, t):
        if t.k == "i":
            if t.n <= 8: return 1
            if self.ptrbits == 16: return 1
            return min(16, 1 << ((t.n + 7) // 8 - 1).bit_length()) if t.n <= 128 else 16
        if t.k == "ptr": return 1 if self.ptrbits == 16 else self.ptrbits // 8
        if t.k == "double": return 1 if self.ptrbits == 16 else 8
        if t.k == "float": return 1 if self.ptrbits == 16 else 4
        if t.k == "x86_fp80": return 16
        if t.k == "arr": return self.align(t.e)
        if t.k == "vec": return self.size(t)
        if t.k == "st":
            if t.packed: return 1
            return max([self.align(f) for f in t.fs] or [1])
        raise Unsupported("align %r" % t)

    def size(self, t):
        if t.k == "i": 
            s = (t.n + 7) // 8
            a = self.align(t)
            return (s + a - 1) // a * a
        if t.k == "ptr": return self.ptrbits // 8
        if t.k == "double": return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "arr": return t.n * self.size(t.e)
        if t.k == "vec": return t.n * self.size(t.e)
        if t.k == "st":
            return self.layout(t)[1]
        raise Unsupported("size %r" % t)

    def layout(self, t):
        key = id(t)
        r = self._sz.get(key)
        if r is None:
            if t.fs is None: raise Unsupported("opaque " + str(t.name))
            off = 0; offs = []; al = 1
            for f in t.fs:
                a = 1 if t.packed else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            off = (off + al - 1) // al * al
            r = (offs, off, t)
            self._sz[key] = r
        return r

    # -------- instructions
    def parse_body(self, f):
        if f.parsed: return
        f.parsed = True
        blocks = {}
        cur = None
        order = []
        body = f.body
        # number of unnamed params determines entry label number
        entry = None
        i = 0
        label_re = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        while i < len(body):
            ln = body[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(";"): continue
            m = label_re.match(ln)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                if entry is None: entry = cur
                continue
            if cur is None:
                # implicit entry label
                np = sum(1 for (_, _, r) in f.params)
                cur = "%" + str(np)
                entry = cur
                blocks[cur] = []
            s = ln.strip()
            if s.startswith("switch") and "]" not in s:
                while True:
                    s += " " + body[i].strip(); i += 1
                    if "]" in s: break
            blocks[cur].append(self._instr(s))
        f.blocks = blocks; f.entry = entry

    def _instr(self, s):
        p = P(tokenize(s), self)
        dst = None
        if p.kind() == "name" and p.peek(1) == "=":
            dst = p.next(); p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            p.eat("inalloca")
            t = p.type(); cnt = None
            if p.eat(","):
                if p.is_type():
                    ct = p.type(); cnt = (ct, p.value(ct))
            return ("alloca", dst, t, cnt)
        if op == "load":
            vol = False
            while p.peek() in ("volatile", "atomic"):
                if p.next() == "volatile": vol = True
            t = p.type(); p.expect(","); pt = p.type(); v = p.value(pt)
            return ("load", dst, t, v, vol)
        if op == "store":
            vol = False
            while p.peek() in ("volatile", "atomic"):
                if p.next() == "volatile": vol = True
            t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); a = p.value(pt)
            return ("store", t, v, a, vol)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.expect(","); pt = p.type(); base = p.value(pt)
            idx = []
            while p.eat(","):
                if p.kind() == "meta": break
                it = p.type(); idx.append((it, p.value(it)))
            return ("gep", dst, bt, base, idx)
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "or", "xor"):
            fl = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"): fl.add(p.next())
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("bin", dst, op, t, a, b, fl)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in FAST: p.next()
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("fbin", dst, op, t, a, b)
        if op == "fneg":
            while p.peek() in FAST: p.next()
            t = p.type(); a = p.value(t)
            return ("fneg", dst, t, a)
        if op in ("icmp", "fcmp"):
            while p.peek() in FAST or p.peek() == "samesign": p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return (op, dst, pred, t, a, b)
        if op in ("trunc", "zext", "sext", "bitcast", "inttoptr", "ptrtoint", "sitofp", "uitofp", "fptosi", "fptoui",
                  "fpext", "fptrunc", "addrspacecast"):
            while p.peek() in ("nneg", "nsw", "nuw"): p.next()
            t = p.type(); a = p.value(t); p.expect("to"); t2 = p.type()
            return ("cast", dst, op, t, a, t2)
        if op == "br":
            if p.peek() == "label":
                p.next(); return ("jmp", p.next())
            t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label")
            b = p.next()
            return ("br", c, a, b)
        if op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
            cs = []
            while not p.eat("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cs.append((cv, p.next()))
            return ("switch", t, v, d, cs)
        if op == "phi":
            while p.peek() in FAST: p.next()
            t = p.type(); ins = []
            while True:
                p.expect("["); v = p.value(t); p.expect(","); b = p.next(); p.expect("]"); ins.append((v, b))
                if not p.eat(","): break
                if p.kind() == "meta": break
            return ("phi", dst, t, ins)
        if op == "select":
            while p.peek() in FAST: p.next()
            ct = p.type(); c = p.value(ct); p.expect(","); t = p.type(); a = p.value(t); p.expect(","); t2 = p.type()
            b = p.value(t2)
            return ("select", dst, t, c, a, b)
        if op == "ret":
            t = p.type()
            if t is VOID: return ("ret", None, None)
            return ("ret", t, p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "extractvalue":
            t = p.type(); v = p.value(t); ix = []
            while p.eat(","):
                if p.kind() == "meta": break
                ix.append(int(p.next()))
            return ("extractvalue", dst, t, v, ix)
        if op == "insertvalue":
            t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); e = p.value(t2); ix = []
            while p.eat(","):
                if p.kind() == "meta": break
                ix.append(int(p.next()))
            return ("insertvalue", dst, t, v, t2, e, ix)
        if op == "extractelement":
            t = p.type(); v = p.value(t); p.expect(","); it = p.type(); ix = p.value(it)
            return ("extractelement", dst, t, v, ix)
        if op == "insertelement":
            t = p.type(); v = p.value(t); p.expect(","); et = p.type(); e = p.value(et); p.expect(","); it = p.type()
            ix = p.value(it)
            return ("insertelement", dst, t, v, et, e, ix)
        if op == "freeze":
            t = p.type(); v = p.value(t)
            return ("freeze", dst, t, v)
        if op in ("call", "invoke"):
            while p.peek() in FAST: p.next()
            if p.peek() == "cc" or (p.peek() or "").endswith("cc"): p.next()
            p.attrs()
            if p.peek() == "addrspace":
                p.next(); p.expect("("); p.next(); p.expect(")")
            rt = p.type()
            if p.peek() == "asm":
                p.next()
                while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): p.next()
                code = p.next(); p.expect(","); cons = p.next()
                args = self._args(p)
                return ("asm", dst, rt, code, cons, args)
            callee = p.value(PTR)
            args = self._args(p)
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.next(); p.expect("label"); nb = p.next()
                return ("invoke", dst, rt, callee, args, nb)
            return ("call", dst, rt, callee, args)
        return ("unsupported", s)

    def _args(self, p):
        p.expect("(")
        args = []
        if p.eat(")"): return args
        while True:
            t = p.type(); at = p.attrs()
            if t is META:
                v = p.value(t)
            else:
                v = p.value(t)
            args.append((t, at, v))
            if p.eat(")"): break
            p.expect(",")
        return args
