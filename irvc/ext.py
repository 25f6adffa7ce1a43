"""Contracts assumed on functions outside /repo (libm, allocation, compiler intrinsics) and the
specification intrinsics vc_*."""
import re
from fractions import Fraction
from . import term as tm, poly
from .term import T, TRUE, FALSE, bv, isk, kval
from .ll import Unsupported, INT, PTR, DOUBLE, FLOAT
from . import sym

NOSET = object()

UNARY = {"sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan",
         "asin", "acos", "ceil", "floor", "round", "trunc", "cbrt", "exp2", "rint", "nearbyint"}
BINARY = {"pow", "atan2", "hypot", "fmod"}

ANY = {"vc_any_i8": 8, "vc_any_i16": 16, "vc_any_i32": 32, "vc_any_i64": 64}


def cstr(ex, st, p):
    o = st.mem[p.o]
    out = []
    i = p.off
    while True:
        c = o.cells.get(i)
        if c is None: break
        b = kval(c[1])
        if b == 0: break
        out.append(chr(b)); i += 1
    return "".join(out)


def mathname(b):
    if b.startswith("llvm."):
        p = b.split(".")
        return p[1]
    return b


def infer_mode(st):
    for f in reversed(st.frames):
        if f.mode: return f.mode
    return "verify"


def fresh(ex, st, kind, s):
    n = len(st.inputs)
    v = tm.var("in%d_%s" % (n, kind), s)
    st.inputs.append((kind, v))
    return v


def has_var(t): return any(x.op == "var" for x in tm.walk([t]))


def isint(t): return isinstance(t, T) and isinstance(t.s, int)


def fapp(ex, st, nm, args):
    """uninterpreted mathematical function with its axioms (declared in the trusted base)"""
    ex.externals[nm] = ex.externals.get(nm, 0) + 1
    if nm == "fabs":
        x = args[0]
        d = ex.sv.decide(st, tm.rle(tm.ZERO_R, x))
        if d is None and any(y.op in ("s2r", "u2r") for y in tm.walk([x])):
            if ex.sv.valid(st, tm.rle(tm.ZERO_R, x)): d = True
            elif ex.sv.valid(st, tm.rle(x, tm.ZERO_R)): d = False
        if d is True: return x
        if d is False: return tm.rneg(x)
        return tm.Ite(tm.rlt(x, tm.ZERO_R), tm.rneg(x), x)
    if all(isk(a) for a in args):
        v = [kval(a) for a in args]
        if nm == "sqrt":
            import math
            p, q = v[0].numerator, v[0].denominator
            if p >= 0 and math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
                return tm.real(Fraction(math.isqrt(p), math.isqrt(q)))
        if nm in ("sin", "tan", "sinh", "asinh", "atan") and v[0] == 0: return tm.ZERO_R
        if nm == "acosh" and v[0] == 1: return tm.ZERO_R
        if nm in ("cos", "cosh", "exp") and v[0] == 0: return tm.ONE_R
        if nm == "ceil": return tm.real(-((-v[0].numerator) // v[0].denominator))
        if nm == "floor": return tm.real(v[0].numerator // v[0].denominator)
        if nm == "pow" and v[1].denominator == 1 and abs(v[1]) < 64 and v[0] != 0: return tm.real(v[0] ** int(v[1]))
    if nm in ("ceil", "floor"):
        # the value, where the path condition fixes it between two neighbours; one case each where it leaves a few
        x = args[0]; d = ex.sv.decide
        up = (lambda k: tm.rle(x, tm.real(k))) if nm == "ceil" else (lambda k: tm.rlt(x, tm.real(k + 1)))
        for n in range(-2, 33):
            if d(st, up(n)) is True and d(st, tm.Not(up(n - 1))) is True: return tm.real(n)
        if st.pc and has_var(x):
            lo, hi = -3, 33
            if ex.sv.valid(st, up(hi)) and ex.sv.valid(st, tm.Not(up(lo))):
                a, b = lo, hi
                while b - a > 1:
                    m = (a + b) // 2
                    if ex.sv.valid(st, up(m)): b = m
                    else: a = m
                hi = b; a, b = lo, hi
                while b - a > 1:
                    m = (a + b) // 2
                    if ex.sv.valid(st, tm.Not(up(m))): a = m
                    else: b = m
                lo = a
                if hi - lo <= 4:
                    r = tm.real(hi)
                    for k in range(hi - 1, lo, -1): r = tm.Ite(up(k), tm.real(k), r)
                    return r
    if nm == "pow" and isk(args[1]):
        e = kval(args[1])
        if e == 1: return args[0]
        if e == 0: return tm.ONE_R
        if e == -1: return tm.rdiv(tm.ONE_R, args[0])
        if e == 2: return tm.rmul(args[0], args[0])
    if nm in ("log", "log10", "log2") and args[0].op in ("rdiv", "rmul"):
        # of a product of positive factors
        a, b = args[0].a
        pos = lambda x: ex.sv.decide(st, tm.rlt(tm.ZERO_R, x)) is True or ex.sv.valid(st, tm.rlt(tm.ZERO_R, x))
        if pos(a) and pos(b):
            u, v = fapp(ex, st, nm, [a]), fapp(ex, st, nm, [b])
            return tm.rsub(u, v) if args[0].op == "rdiv" else tm.radd(u, v)
    if nm == "hypot":
        return tm.app("sqrt", (tm.radd(tm.rmul(args[0], args[0]), tm.rmul(args[1], args[1])),))
    return tm.app(nm, tuple(args))


# Insertion into a stream: what is inserted is recorded, in order.  The contract assumed on the standard library is that the
# text of a value depends on the value (and its being a character, an integer, or a real) alone; a complex number is "(re,im)".
OSTR = "St13basic_ostream"
INSERT = re.compile(r"_ZNSolsE(?P<mem>[bstijlmxydfe])\Z|_ZNSo9_M_insertI(?P<ins>[bmlxyde])EERSoT_\Z|_ZStlsI?St11char_traitsIcEERSt13basic_ostreamIcT_ES5_(?P<txt>PKc|c|h|a|PKh|PKa)\Z"
                    r"|(?P<txt2>_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc)\Z|_ZStlsI(?P<cx>[dfe])cSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complexIT_E\Z"
                    r"|(?P<man>_ZNSolsEPFRSoS_E)\Z|(?P<put>_ZNSo3putEc)\Z|(?P<write>_ZNSo5writeEPKcl)\Z|(?P<flush>_ZNSo5flushEv|_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_)\Z"
                    r"|(?P<endl>_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_)\Z")


def emit(st, o, piece):
    if isinstance(piece, str):
        for i in range(len(st.out) - 1, -1, -1):
            if st.out[i][0] == o:
                if isinstance(st.out[i][1], str): st.out[i] = (o, st.out[i][1] + piece); return
                break
    st.out.append((o, piece))


def insertion(ex, st, b, m, vals):
    g = lambda k: m.groupdict().get(k)
    os = vals[0][1]; o = os.o
    if not isinstance(o, str) or not o.startswith("stream:"): raise Unsupported("a stream the contract does not know")
    ex.externals["operator<<(std::ostream)"] = ex.externals.get("operator<<(std::ostream)", 0) + 1
    F = lambda i: ex.use(st, vals[i][1], vals[i][0], "inserted value")
    k = g("mem") or g("ins")
    if k:
        v = F(1)
        if k in "dfe": emit(st, o, ("real", v))
        else:
            if not isinstance(v.s, int): v = tm.Ite(v, bv(1, 64), bv(0, 64)) if v.s == "B" else v
            v = tm.sext(v, 66) if k in "silx" else tm.zext(v, 66)
            emit(st, o, str(sgn(kval(v), 66)) if isk(v) else ("int", v))
    elif g("txt2") or g("txt") == "PKc": emit(st, o, cstr(ex, st, vals[1][1]))
    elif g("txt") or g("put"):
        v = F(1)
        emit(st, o, chr(kval(v)) if isk(v) else ("char", v))
    elif g("write"):
        n = F(2)
        if not isk(n): raise Unsupported("text of symbolic length")
        emit(st, o, cstr(ex, st, vals[1][1])[:kval(n)])
    elif g("cx"):
        p = vals[1][1]; w = 8 if g("cx") == "d" else 4
        if g("cx") == "e": raise Unsupported("complex<long double>")
        ty = DOUBLE if g("cx") == "d" else FLOAT
        re_, im = (ex.use(st, ex.load(st, sym.Ptr(p.o, p.off + i * w), ty), ty, "inserted value") for i in (0, 1))
        emit(st, o, "("); emit(st, o, ("real", re_)); emit(st, o, ","); emit(st, o, ("real", im)); emit(st, o, ")")
    elif g("man"):
        f = vals[1][1]
        if not isinstance(f.o, str) or not f.o.startswith("fn:"): raise Unsupported("manipulator")
        if f.o[4:].startswith("_ZSt4endl"): emit(st, o, "\n")
        elif not f.o[4:].startswith("_ZSt5flush"): raise Unsupported("manipulator " + f.o)
    elif g("endl"): emit(st, o, "\n")
    return os


def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v


def text_same(ex, st, i, j, nm):
    a, b = ([p for o, p in st.out if o == "stream:%d" % k] for k in (i, j))
    n = 0
    for k in range(max(len(a), len(b))):
        x = a[k] if k < len(a) else ""; y = b[k] if k < len(b) else ""
        if isinstance(x, str) or isinstance(y, str) or x[0] != y[0]:
            if x != y:
                ex.oblige(st, nm + ": %s instead of %s" % tuple("text %r" % z if isinstance(z, str) else "a value (%s)" % z[0] for z in (x, y)), "equal", FALSE)
                return
            continue
        n += 1
        ex.oblige(st, "%s: value %d" % (nm, n), "equal", tm.req(x[1], y[1]) if x[1].s == "R" else tm.mk("fp.id", (x[1], y[1]), "B") if not isinstance(x[1].s, int) else tm.eq(x[1], y[1]))
    ex.oblige(st, nm, "equal", TRUE)


def call(ex, st, b, vals, rty, dst):
    m = INSERT.match(b)
    if m: return insertion(ex, st, b, m, vals)
    F = lambda i: ex.use(st, vals[i][1], vals[i][0], "argument of " + b)
    # ---------------- specification intrinsics
    if b.startswith("vc_"):
        return spec(ex, st, b, vals, rty, F)
    if b.startswith("llvm."):
        if b.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore",
                         "llvm.invariant", "llvm.prefetch")):
            return sym.NULL if "stacksave" in b else NOSET
        if b.startswith(("llvm.memcpy", "llvm.memmove")):
            n = F(2)
            if not isk(n):
                d = ex.sv.unique(st, n)
                if d is None: raise Unsupported("memcpy of symbolic length")
                n = bv(d, n.s)
            ex.copybytes(st, vals[0][1], vals[1][1], kval(n)); return NOSET
        if b.startswith("llvm.memset"):
            n = F(2)
            if not isk(n): raise Unsupported("memset of symbolic length")
            n = kval(n)
            if n == 0: return NOSET
            p = vals[0][1]
            o = ex.chk(st, p, n, "write"); o = ex.wobj(st, p.o)
            v = F(1)
            if isk(v) and kval(v) == 0:
                ex.wr_raw(o, p.off, n, sym.UNDEF)
                # zeros are represented bytewise so that any typed read works
                for k in range(n): o.cells[p.off + k] = (1, bv(0, 8))
            else:
                for k in range(n): ex.wr_raw(o, p.off + k, 1, v)
            return NOSET
        if b.startswith("llvm.fmuladd") or b.startswith("llvm.fma."):
            if ex.fp != "real": return ex.fbin(st, "fadd", rty, ex.fbin(st, "fmul", rty, F(0), F(1)), F(2))
            return tm.radd(tm.rmul(F(0), F(1)), F(2))
        if b.startswith("llvm.is.constant"): return FALSE
        if b.startswith("llvm.expect"): return F(0)
        if b.startswith("llvm.trap"): ex.fail(st, "no trap", "trap", "trap reached")
        if b.startswith("llvm.abs."):
            x = F(0); return tm.Ite(tm.cmp("slt", x, bv(0, x.s)), tm.neg(x), x)
        for nm, op in (("smax", "slt"), ("umax", "ult")):
            if b.startswith("llvm." + nm):
                x, y = F(0), F(1); return tm.Ite(tm.cmp(op, x, y), y, x)
        for nm, op in (("smin", "slt"), ("umin", "ult")):
            if b.startswith("llvm." + nm):
                x, y = F(0), F(1); return tm.Ite(tm.cmp(op, x, y), x, y)
        if ".with.overflow" in b:
            x, y = F(0), F(1); n = x.s; p = b.split(".")[1]
            w = 2 * n
            e = tm.sext if p[0] == "s" else tm.zext
            f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[p[1:]]
            r = f(x, y); wide = f(e(x, w), e(y, w))
            return sym.Agg([r, tm.Not(tm.eq(e(r, w), wide))])
        if b.startswith("llvm.fabs"):
            if ex.fp != "real": return tm.mk("fp.abs", (F(0),), ex.fty(rty))
            return fapp(ex, st, "fabs", [F(0)])
        if b.startswith("llvm.copysign"):
            raise Unsupported(b)
        if b.startswith(("llvm.maxnum", "llvm.minnum")):
            x, y = F(0), F(1)
            c = tm.rlt(x, y)
            return tm.Ite(c, y, x) if "max" in b else tm.Ite(c, x, y)
        nm = mathname(b)
        if nm in UNARY or nm in BINARY or nm == "powi":
            return fapp(ex, st, nm, [F(i) for i in range(len(vals))])
        raise Unsupported("intrinsic " + b)
    # ---------------- allocation
    if b in ("_Znwm", "_Znam", "malloc", "_Znwj"):
        n = F(0)
        if not isk(n):
            d = ex.sv.unique(st, n)
            if d is None: raise Unsupported("symbolic allocation size")
            n = bv(d, n.s)
        ex.externals["operator new"] = ex.externals.get("operator new", 0) + 1
        o = ex.newobj(st, kval(n), "heap", "heap block")
        return sym.Ptr(o.id, 0)
    if b in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm"):
        p = vals[0][1]
        if p.o is None: return NOSET
        o = ex.wobj(st, p.o)
        if o.dead: ex.fail(st, "memory safety", "mem", "double free")
        o.dead = True; o.cells = {}
        return NOSET
    if b in ("memcpy", "memmove"):
        n = F(2)
        if not isk(n):
            d = ex.sv.unique(st, n)
            if d is None: raise Unsupported("memcpy of symbolic length")
            n = bv(d, n.s)
        ex.copybytes(st, vals[0][1], vals[1][1], kval(n)); return vals[0][1]
    if b == "__assert_fail":
        ex.fail(st, "assertion in the code", "assert", cstr(ex, st, vals[0][1]))
    if b.startswith("_ZSt") and "__throw" in b or b in ("abort", "_ZSt9terminatev", "__cxa_throw", "__cxa_pure_virtual", "exit", "__cxa_throw_bad_array_new_length"):
        ex.fail(st, "no abnormal termination", "throw", b)
    # ---------------- libm
    base = b[:-1] if b.endswith(("f", "l")) and b[:-1] in (UNARY | BINARY | {"fabs", "csqrt", "cabs", "cacosh", "ccosh"}) else b
    if base in UNARY or base in BINARY or base == "fabs":
        if ex.fp != "real": raise Unsupported("libm in IEEE mode")
        return fapp(ex, st, base, [F(i) for i in range(len(vals))])
    if base in ("csqrt", "cabs", "cexp", "carg", "cacosh", "ccosh", "__muldc3", "__divdc3", "__mulsc3", "__divsc3") or b in ("__muldc3", "__divdc3", "__mulsc3", "__divsc3", "csqrtf", "cabsf"):
        if ex.fp != "real": raise Unsupported("libm in IEEE mode")
        flat = []
        for t, v in vals:
            if t.k == "vec": flat += [ex.use(st, x, t.e, b) for x in ex.vecvals(st, v, t)]
            else: flat.append(ex.use(st, v, t, b))
        ex.externals[base] = ex.externals.get(base, 0) + 1
        if base == "cabs":
            x, y = flat
            return fapp(ex, st, "sqrt", [tm.radd(tm.rmul(x, x), tm.rmul(y, y))])
        if base == "csqrt":
            re, im = tm.app("csqrt_re", flat), tm.app("csqrt_im", flat)
        elif base == "ccosh":
            x, y = flat
            sh, ch = (tm.ZERO_R, tm.ONE_R) if isk(x) and kval(x) == 0 else (fapp(ex, st, "sinh", [x]), fapp(ex, st, "cosh", [x]))
            sn, cs = (tm.ZERO_R, tm.ONE_R) if isk(y) and kval(y) == 0 else (fapp(ex, st, "sin", [y]), fapp(ex, st, "cos", [y]))
            re, im = tm.rmul(ch, cs), tm.rmul(sh, sn)
        elif base == "cacosh":
            x, y = flat
            if not poly.is_zero(poly.nf(y)): raise Unsupported("cacosh off the real axis")
            one = tm.ONE_R
            if ex.sv.decide(st, tm.rle(one, x)) is True: re, im = fapp(ex, st, "acosh", [x]), tm.ZERO_R
            elif ex.sv.decide(st, tm.rle(x, one)) is True and ex.sv.decide(st, tm.rle(tm.ZERO_R, x)) is True: re, im = tm.ZERO_R, fapp(ex, st, "acos", [x])
            else: re, im = tm.app("cacosh_re", (x,)), tm.app("cacosh_im", (x,))
        elif b in ("__muldc3", "__mulsc3"):
            a, bb, c, d = flat
            re = tm.rsub(tm.rmul(a, c), tm.rmul(bb, d)); im = tm.radd(tm.rmul(a, d), tm.rmul(bb, c))
        elif b in ("__divdc3", "__divsc3"):
            a, bb, c, d = flat
            den = tm.radd(tm.rmul(c, c), tm.rmul(d, d))
            re = tm.rdiv(tm.radd(tm.rmul(a, c), tm.rmul(bb, d)), den)
            im = tm.rdiv(tm.rsub(tm.rmul(bb, c), tm.rmul(a, d)), den)
        else: raise Unsupported(b)
        if rty.k == "vec": return ex.mkvec(rty, [re, im])
        return sym.Agg([re, im])
    if b in ("__cxa_guard_acquire",): return bv(1, 32)
    if b in ("__cxa_guard_release", "__cxa_atexit"): return NOSET if b.endswith("release") else bv(0, 32)
    if b.startswith("_ZNSt8ios_base4Init"): return NOSET
    raise Unsupported("call of undefined function " + b)


def spec(ex, st, b, vals, rty, F):
    if b in ANY: return fresh(ex, st, "i%d" % ANY[b], ANY[b])
    if b == "vc_any_bool":
        v = fresh(ex, st, "b", 8)
        if not ex.assume(st, tm.cmp("ule", v, bv(1, 8))): raise sym.PathEnd()
        return tm.eq(v, bv(1, 8))
    if b in ("vc_any_double", "vc_any_float"):
        s = "R" if ex.fp == "real" else ("F64" if b.endswith("double") else "F32")
        return fresh(ex, st, "d" if b.endswith("double") else "f", s)
    if b == "vc_choose":
        n = F(0)
        if not isk(n): raise Unsupported("vc_choose of symbolic bound")
        n = kval(n)
        for k in range(n - 1, 0, -1):
            o = st.fork()
            o.inputs.append(("c", bv(k, 32)))
            fr = o.frames[-1]
            # destination register of this call: filled through the pending marker
            o.frames[-1].regs["%!choose"] = bv(k, 32)
            ins = fr.f.blocks[fr.blk][fr.ix - 1]
            fr.regs[ins[1]] = bv(k, 32)
            ex.work.append(o)
        st.inputs.append(("c", bv(0, 32)))
        return bv(0, 32)
    if b == "vc_assume":
        c = F(0)
        d = ex.sv.decide(st, c)
        if d is False: raise sym.PathEnd()
        if not ex.assume(st, c): raise sym.PathEnd()
        return NOSET
    if b in ("vc_requires", "vc_ensures"):
        c = F(0); nm = cstr(ex, st, vals[1][1])
        mode = infer_mode(st)
        if (b == "vc_requires") == (mode == "verify"):
            d = ex.sv.decide(st, c)
            if d is False or not ex.assume(st, c): raise sym.PathEnd()
        else:
            ex.oblige(st, nm, "requires" if b == "vc_requires" else "ensures", c)
            if not ex.assume(st, c): raise sym.PathEnd()
        return NOSET
    if b in ("vc_assert", "vc_eq_d", "vc_eq_f", "vc_eq_i") and any(x.mode == "use" and x.f.name.startswith("@vc_lemma_") for x in st.frames):
        return NOSET
    if b == "vc_assert":
        c = F(0); nm = cstr(ex, st, vals[1][1])
        ex.oblige(st, nm, "assert", c)
        if not ex.assume(st, c): raise sym.PathEnd()
        return NOSET
    if b in ("vc_eq_d", "vc_eq_f"):
        x, y = F(0), F(1); nm = cstr(ex, st, vals[2][1])
        g = tm.req(x, y) if x.s == "R" else tm.mk("fp.id", (x, y), "B")
        ex.oblige(st, nm, "equal", g)
        return NOSET
    if b in ("vc_eq_i",):
        x, y = F(0), F(1); nm = cstr(ex, st, vals[2][1])
        ex.oblige(st, nm, "equal", tm.eq(x, y))
        return NOSET
    if b == "vc_cover":
        nm = cstr(ex, st, vals[0][1])
        if ex.covers.get(nm) is not True:
            ex.covers[nm] = True if ex.sv.reachable(st) else ex.covers.get(nm, False)
        return NOSET
    if b == "vc_havoc":
        p = vals[0][1]; n = kval(F(1))
        o = ex.chk(st, p, n, "havoc"); o = ex.wobj(st, p.o)
        src = "h%d" % len(st.inputs)
        st.inputs.append(("h", src)); ex.havocked = True
        ex.wr_raw(o, p.off, n, sym.Lazy(src, 0, n))
        return NOSET
    if b == "vc_generalize":
        if ex.nogen: return NOSET
        ex.generalized = True
        p = vals[0][1]; n = kval(F(1))
        o = ex.chk(st, p, n, "generalize"); o = ex.wobj(st, p.o)
        memo = {}
        def gen(v):
            if isinstance(v, T) and not isk(v) and v.op != "var":
                if v.id not in memo: memo[v.id] = tm.var("g%d_%d" % (len(st.path), len(memo)), v.s)
                return memo[v.id]
            return v
        for a in sorted(o.cells):
            if p.off <= a < p.off + n: o.cells[a] = (o.cells[a][0], gen(o.cells[a][1]))
        st.path.append("g")
        return NOSET
    # device register model
    if b == "vc_ev_count": return bv(len(st.events), 32)
    if b in ("vc_ev_kind", "vc_ev_addr", "vc_ev_size", "vc_ev_val"):
        i = kval(F(0))
        if i >= len(st.events): return bv(0xFFFF, 32)
        k, a, n, v = st.events[i]
        if b == "vc_ev_kind":
            return bv({"r": 1, "w": 2, "asm": {"cli": 3, "sei": 4}.get(a, 5)}[k], 32)
        if b == "vc_ev_addr": return bv(a if k != "asm" else 0xFFFF, 32)
        if b == "vc_ev_size": return bv(n, 32)
        return tm.zext(v, 32) if v is not None else bv(0, 32)
    if b == "vc_ev_clear":
        st.events = []; return NOSET
    if b == "vc_mmio_poll":
        st.poll[kval(F(0))] = None; return NOSET
    if b == "vc_mmio_set":
        a = kval(F(0)); v = F(1)
        o = ex.mmio_obj(st); ex.wr_raw(o, a, 1, tm.extract(v, 7, 0)); return NOSET
    if b == "vc_mmio_get":
        a = kval(F(0)); o = ex.mmio_obj(st)
        if not ex.pieces(o, a, 1): o.cells[a] = (1, tm.var("mmio%s_%04x" % ("2" if st.round else "", a), 8))
        return tm.zext(ex.force(st, ex.rd(st, o, a, 1, INT(8)), INT(8)), 32)
    # uninterpreted helper functions usable in specifications
    if b.startswith("vc_fn_"):
        return fapp(ex, st, b[6:], [F(i) for i in range(len(vals))])
    if b == "vc_is_native": return FALSE
    if b == "vc_out": return sym.Ptr("stream:%d" % kval(F(0)), 0)
    if b == "vc_text_same":
        text_same(ex, st, kval(F(0)), kval(F(1)), cstr(ex, st, vals[2][1])); return NOSET
    if b == "vc_loop_visit": return bv(ex.loop_visit(st), 32)
    if b == "vc_loop_hint": st.hints.append(F(0)); return NOSET
    if b == "vc_loop_cut": ex.loop_cut(st); return NOSET
    if b == "vc_loop_settle": ex.loop_settle(st); return NOSET
    if b == "vc_loop_back": ex.loop_back(st)
    raise Unsupported("intrinsic " + b)
