"""Hash-consed terms: booleans, bit-vectors, mathematical reals and (optionally) IEEE floats."""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "a", "s", "id", "nfc")

    def __repr__(self):
        return show(self)


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = a; t.s = s; t.id = _cnt[0]; t.nfc = None
        _cnt[0] += 1
        _tab[k] = t
    return t


def show(t, d=4):
    if t.op in ("var",): return str(t.a[0])
    if t.op in ("k",): return str(t.a[0])
    if d == 0: return "..."
    return "(%s %s)" % (t.op, " ".join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))


TRUE = mk("k", (True,), "B")
FALSE = mk("k", (False,), "B")


def boolk(v): return TRUE if v else FALSE


def var(name, s): return mk("var", (name,), s)


def bv(v, n): return mk("k", (v & ((1 << n) - 1),), n)


def real(v): return mk("k", (Fraction(v),), "R")


ZERO_R = real(0); ONE_R = real(1)


def isk(t): return t.op == "k"


def kval(t): return t.a[0]


def signed(v, n): return v - (1 << n) if v >> (n - 1) else v


# ------------------------------------------------------------------ booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.a[0]
    if a.op == "slt": return mk("sle", (a.a[1], a.a[0]), "B")
    if a.op == "sle": return mk("slt", (a.a[1], a.a[0]), "B")
    if a.op == "ult": return mk("ule", (a.a[1], a.a[0]), "B")
    if a.op == "ule": return mk("ult", (a.a[1], a.a[0]), "B")
    if a.op == "rlt": return mk("rle", (a.a[1], a.a[0]), "B")
    if a.op == "rle": return mk("rlt", (a.a[1], a.a[0]), "B")
    return mk("not", (a,), "B")


def And(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == "and":
            for y in x.a:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Xor(a, b):
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE: return Not(b)
    if b is TRUE: return Not(a)
    if a is b: return FALSE
    if a is Not(b): return TRUE
    return Not(Iff(a, b))


def Iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if a is Not(b): return FALSE
    if a.id > b.id: a, b = b, a
    return mk("iff", (a, b), "B")


def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return Ite(c.a[0], b, a)
    if a.s == "B":
        return Or(And(c, a), And(Not(c), b))
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.s)


# ------------------------------------------------------------------ bit-vectors
def add(a, b):
    n = a.s
    if isk(a) and isk(b): return bv(kval(a) + kval(b), n)
    if isk(a): a, b = b, a
    if isk(b):
        if kval(b) == 0: return a
        if a.op == "add" and isk(a.a[1]): return add(a.a[0], bv(kval(a.a[1]) + kval(b), n))
        if a.op == "ite" and (isk(a.a[1]) or isk(a.a[2])):
            return Ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
        return mk("add", (a, b), n)
    if a.op == "neg" and a.a[0] is b: return bv(0, n)
    if b.op == "neg" and b.a[0] is a: return bv(0, n)
    if a.op == "add" and isk(a.a[1]): return add(add(a.a[0], b), a.a[1])
    if b.op == "add" and isk(b.a[1]): return add(add(a, b.a[0]), b.a[1])
    # x + (y - x)
    if b.op == "add":
        x, y = b.a
        if x.op == "neg" and x.a[0] is a: return y
        if y.op == "neg" and y.a[0] is a: return x
    if a.op == "add":
        x, y = a.a
        if x.op == "neg" and x.a[0] is b: return y
        if y.op == "neg" and y.a[0] is b: return x
        if b.op == "neg":
            if x is b.a[0]: return y
            if y is b.a[0]: return x
    if b.op == "add" and a.op == "neg":
        x, y = b.a
        if x is a.a[0]: return y
        if y is a.a[0]: return x
    if a.id > b.id: a, b = b, a
    return mk("add", (a, b), n)


def neg(a):
    n = a.s
    if isk(a): return bv(-kval(a), n)
    if a.op == "neg": return a.a[0]
    if a.op == "add" and isk(a.a[1]): return add(neg(a.a[0]), bv(-kval(a.a[1]), n))
    if a.op == "ite" and (isk(a.a[1]) or isk(a.a[2])): return Ite(a.a[0], neg(a.a[1]), neg(a.a[2]))
    return mk("neg", (a,), n)


def sub(a, b):
    if a is b: return bv(0, a.s)
    return add(a, neg(b))


def mul(a, b):
    n = a.s
    if isk(a) and isk(b): return bv(kval(a) * kval(b), n)
    if isk(a): a, b = b, a
    if isk(b):
        v = kval(b)
        if v == 0: return b
        if v == 1: return a
        if v == (1 << n) - 1: return neg(a)
        if a.op == "mul" and isk(a.a[1]): return mul(a.a[0], bv(v * kval(a.a[1]), n))
        if a.op == "add" and isk(a.a[1]): return add(mul(a.a[0], b), bv(kval(a.a[1]) * v, n))
        if a.op == "ite" and (isk(a.a[1]) and isk(a.a[2])): return Ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
        return narrow(mk("mul", (a, b), n))
    if a.id > b.id: a, b = b, a
    return narrow(mk("mul", (a, b), n))


def sdivq(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def bin2(op, a, b):
    """udiv sdiv urem srem shl lshr ashr and or xor"""
    n = a.s
    if isk(a) and isk(b):
        x, y = kval(a), kval(b)
        if op == "udiv" and y: return bv(x // y, n)
        if op == "urem" and y: return bv(x % y, n)
        if op in ("sdiv", "srem") and y:
            sx, sy = signed(x, n), signed(y, n)
            q = sdivq(sx, sy)
            return bv(q if op == "sdiv" else sx - q * sy, n)
        if op == "shl": return bv(x << y, n) if y < n else bv(0, n)
        if op == "lshr": return bv(x >> y, n) if y < n else bv(0, n)
        if op == "ashr": return bv(signed(x, n) >> min(y, n - 1), n)
        if op == "and": return bv(x & y, n)
        if op == "or": return bv(x | y, n)
        if op == "xor": return bv(x ^ y, n)
    if op in ("and", "or", "xor"):
        if isk(a): a, b = b, a
        full = (1 << n) - 1
        if isk(b):
            v = kval(b)
            if op == "and":
                if v == 0: return b
                if v == full: return a
                if a.op == "and" and isk(a.a[1]): return bin2("and", a.a[0], bv(v & kval(a.a[1]), n))
            if op == "or":
                if v == 0: return a
                if v == full: return b
                if a.op == "or" and isk(a.a[1]): return bin2("or", a.a[0], bv(v | kval(a.a[1]), n))
            if op == "xor" and v == 0: return a
            if a.op == "ite" and isk(a.a[1]) and isk(a.a[2]):
                return Ite(a.a[0], bin2(op, a.a[1], b), bin2(op, a.a[2], b))
        if a is b: return a if op != "xor" else bv(0, n)
        if not isk(b) and a.id > b.id: a, b = b, a
        return mk(op, (a, b), n)
    if isk(b):
        v = kval(b)
        if op in ("shl", "lshr", "ashr") and v == 0: return a
        if op in ("udiv", "sdiv") and v == 1: return a
        if op in ("shl", "lshr") and v >= n: return bv(0, n)
        if op == "shl": return mul(a, bv(1 << v, n))
        if a.op == "ite" and isk(a.a[1]) and isk(a.a[2]) and v:
            return Ite(a.a[0], bin2(op, a.a[1], b), bin2(op, a.a[2], b))
    return narrow(mk(op, (a, b), n)) if op in ("sdiv", "ashr") else mk(op, (a, b), n)


def zext(a, m):
    n = a.s
    if m == n: return a
    if isk(a): return bv(kval(a), m)
    if a.op == "zext": return mk("zext", (a.a[0],), m)
    if a.op == "ite" and isk(a.a[1]) and isk(a.a[2]): return Ite(a.a[0], zext(a.a[1], m), zext(a.a[2], m))
    return mk("zext", (a,), m)


def sext(a, m):
    n = a.s
    if m == n: return a
    if isk(a): return bv(signed(kval(a), n), m)
    if a.op == "sext": return mk("sext", (a.a[0],), m)
    if a.op == "zext": return mk("zext", (a.a[0],), m)
    if a.op == "ite" and isk(a.a[1]) and isk(a.a[2]): return Ite(a.a[0], sext(a.a[1], m), sext(a.a[2], m))
    return mk("sext", (a,), m)


def extract(a, hi, lo):
    n = a.s
    w = hi - lo + 1
    if w == n: return a
    if isk(a): return bv(kval(a) >> lo, w)
    if a.op == "extract": return extract(a.a[0], hi + a.a[2], lo + a.a[2])
    if a.op in ("zext", "sext"):
        m = a.a[0].s
        if hi < m: return extract(a.a[0], hi, lo)
        if lo >= m and a.op == "zext": return bv(0, w)
        if lo == 0:
            return (zext if a.op == "zext" else sext)(a.a[0], w)
    if a.op == "concat":
        x, y = a.a
        if hi < y.s: return extract(y, hi, lo)
        if lo >= y.s: return extract(x, hi - y.s, lo - y.s)
    if a.op == "ite" and isk(a.a[1]) and isk(a.a[2]): return Ite(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo))
    if lo == 0:
        if a.op == "add": return add(extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
        if a.op == "neg": return neg(extract(a.a[0], hi, 0))
        if a.op == "mul": return mul(extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
    if a.op in ("and", "or", "xor"):
        return bin2(a.op, extract(a.a[0], hi, lo), extract(a.a[1], hi, lo))
    return mk("extract", (a, hi, lo), w)


def concat(a, b):
    if isk(a) and isk(b): return bv((kval(a) << b.s) | kval(b), a.s + b.s)
    if a.op == "extract" and b.op == "extract" and a.a[0] is b.a[0] and a.a[2] == b.a[1] + 1:
        return extract(a.a[0], a.a[1], b.a[2])
    if isk(a) and kval(a) == 0: return zext(b, a.s + b.s)
    return mk("concat", (a, b), a.s + b.s)


def eq(a, b):
    if a is b: return TRUE
    if a.s == "B": return Iff(a, b)
    if isk(a) and isk(b): return boolk(kval(a) == kval(b))
    if a.s == "R": return req(a, b)
    if isk(a): a, b = b, a
    if isk(b):
        if a.op == "ite":
            return Ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b)) if (isk(a.a[1]) or isk(a.a[2])) else mk("eq", (a, b), "B")
        if a.op == "zext":
            m = a.a[0].s
            if kval(b) >> m: return FALSE
            return eq(a.a[0], bv(kval(b), m))
        if a.op == "sext":
            m = a.a[0].s
            if sext(bv(kval(b), m), a.s) is not b: return FALSE
            return eq(a.a[0], bv(kval(b), m))
        if a.op == "add" and isk(a.a[1]): return eq(a.a[0], bv(kval(b) - kval(a.a[1]), a.s))
        if a.op == "neg": return eq(a.a[0], bv(-kval(b), a.s))
        return mk("eq", (a, b), "B")
    if a.op == "zext" and b.op == "zext" and a.a[0].s == b.a[0].s: return eq(a.a[0], b.a[0])
    if a.op == "sext" and b.op == "sext" and a.a[0].s == b.a[0].s: return eq(a.a[0], b.a[0])
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), "B")


def cmp(op, a, b):
    """ult ule slt sle"""
    n = a.s
    if a is b: return boolk(op in ("ule", "sle"))
    if isk(a) and isk(b):
        x, y = kval(a), kval(b)
        if op[0] == "s": x, y = signed(x, n), signed(y, n)
        return boolk(x < y if op[1:] == "lt" else x <= y)
    if op == "ult":
        if isk(b) and kval(b) == 0: return FALSE
        if isk(b) and kval(b) == 1: return eq(a, bv(0, n))
    if op == "ule" and isk(a) and kval(a) == 0: return TRUE
    if op == "ule" and isk(b) and kval(b) == (1 << n) - 1: return TRUE
    if isk(b) and a.op == "ite" and (isk(a.a[1]) and isk(a.a[2])):
        return Ite(a.a[0], cmp(op, a.a[1], b), cmp(op, a.a[2], b))
    if isk(a) and b.op == "ite" and (isk(b.a[1]) and isk(b.a[2])):
        return Ite(b.a[0], cmp(op, a, b.a[1]), cmp(op, a, b.a[2]))
    if a.op == "sext" and b.op == "sext" and a.a[0].s == b.a[0].s and op[0] == "s":
        return cmp(op, a.a[0], b.a[0])
    if a.op == "zext" and b.op == "zext" and a.a[0].s == b.a[0].s:
        return cmp("u" + op[1:], a.a[0], b.a[0])
    return mk(op, (a, b), "B")


# signed width: t lies in [-2^(k-1), 2^(k-1)) for k = sbits(t)
_sb = {}


def sbits(t):
    r = _sb.get(t.id)
    if r is None: r = _sb[t.id] = min(t.s, _sbits(t))
    return r


def _sbits(t):
    n = t.s; op = t.op
    if op == "k":
        v = signed(kval(t), n)
        return (v if v >= 0 else ~v).bit_length() + 1
    if op == "sext": return sbits(t.a[0])
    if op == "zext": return t.a[0].s + 1
    if op == "ite": return max(sbits(t.a[1]), sbits(t.a[2]))
    # no wrap-around as long as the exact result fits
    if op == "add":
        r = max(sbits(t.a[0]), sbits(t.a[1])) + 1
        return r if r <= n else n
    if op == "neg":
        r = sbits(t.a[0]) + 1
        return r if r <= n else n
    if op == "mul":
        r = sbits(t.a[0]) + sbits(t.a[1])
        if isk(t.a[1]):
            v = signed(kval(t.a[1]), n)
            if v > 0 and v & (v - 1) == 0: r -= 1
        return r if r <= n else n
    if op == "ashr" and isk(t.a[1]): return max(1, sbits(t.a[0]) - kval(t.a[1]))
    if op == "sdiv":
        r = sbits(t.a[0]) + 1
        return r if r <= n else n
    return n


def low(t, n):
    """t, which fits n bits, cut to n bits"""
    return extract(t, n - 1, 0)


def narrow(t):
    """t of width 2n whose operands and result fit n < t.s bits, as the extension of the operation at that width"""
    m = t.s
    if m <= 8 or t.op not in ("mul", "sdiv", "ashr", "add", "neg"): return t
    k = max([sbits(x) for x in t.a] + [_sbits(t)])
    for n in (8, 16, 32):
        if k <= n < m:
            if t.op == "mul": return mk("sext", (mul(low(t.a[0], n), low(t.a[1], n)),), m)
            if t.op == "add": return mk("sext", (add(low(t.a[0], n), low(t.a[1], n)),), m)
            if t.op == "neg": return mk("sext", (neg(low(t.a[0], n)),), m)
            if t.op == "ashr" and not isk(t.a[1]): return t
            return mk("sext", (bin2(t.op, low(t.a[0], n), low(t.a[1], n)),), m)
    return t


# ------------------------------------------------------------------ reals
def radd(a, b):
    if isk(a) and isk(b): return real(kval(a) + kval(b))
    if isk(a): a, b = b, a
    if isk(b) and kval(b) == 0: return a
    if not isk(b) and a.id > b.id: a, b = b, a
    if a.op == "rneg" and a.a[0] is b or b.op == "rneg" and b.a[0] is a: return ZERO_R
    return mk("radd", (a, b), "R")


def rneg(a):
    if isk(a): return real(-kval(a))
    if a.op == "rneg": return a.a[0]
    if a.op == "rmul" and isk(a.a[1]): return rmul(a.a[0], real(-kval(a.a[1])))
    return mk("rneg", (a,), "R")


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if isk(a) and isk(b): return real(kval(a) * kval(b))
    if isk(a): a, b = b, a
    if isk(b):
        v = kval(b)
        if v == 0: return ZERO_R      # reals: 0*x = 0 (declared assumption: no NaN/inf)
        if v == 1: return a
        if v == -1: return rneg(a)
        if a.op == "rmul" and isk(a.a[1]): return rmul(a.a[0], real(v * kval(a.a[1])))
        return mk("rmul", (a, b), "R")
    if a.id > b.id: a, b = b, a
    return mk("rmul", (a, b), "R")


def rdiv(a, b):
    if isk(b) and kval(b) != 0: return rmul(a, real(1 / kval(b)))
    return mk("rdiv", (a, b), "R")


def rlt(a, b):
    if a is b: return FALSE
    if isk(a) and isk(b): return boolk(kval(a) < kval(b))
    return mk("rlt", (a, b), "B")


def rle(a, b):
    if a is b: return TRUE
    if isk(a) and isk(b): return boolk(kval(a) <= kval(b))
    return mk("rle", (a, b), "B")


def req(a, b):
    if a is b: return TRUE
    if isk(a) and isk(b): return boolk(kval(a) == kval(b))
    if a.id > b.id: a, b = b, a
    return mk("req", (a, b), "B")


def app(name, args, s="R"):
    return mk("app", (name,) + tuple(args), s)


def pi(): return app("pi", ())


def litreal(v, isfloat=False):
    """the real number a floating literal stands for: a small fraction, a rational multiple of pi or of a square root, or its shortest decimal"""
    import math, struct
    from decimal import Decimal
    d = float(v)
    if v.denominator <= 4096 or abs(d) < 1e-300: return real(v)
    rnd = (lambda x: struct.unpack("f", struct.pack("f", x))[0]) if isfloat else (lambda x: x)
    q = Fraction(d).limit_denominator(1000)
    if rnd(float(q)) == d: return real(q)
    for b, t in ((math.pi, pi), (math.sqrt(2), lambda: app("sqrt", (real(2),))), (math.sqrt(3), lambda: app("sqrt", (real(3),)))):
        q = Fraction(d / b).limit_denominator(360)
        if q and (rnd(float(q) * b) == d or rnd(float(q.numerator) * b / q.denominator) == d): return rmul(real(q), t())
    if isfloat:
        for n in range(1, 10):
            r = "%.*g" % (n, d)
            if rnd(float(r)) == d: break
        return real(Fraction(Decimal(r)))
    return real(Fraction(Decimal(repr(d))))


def children(t):
    return [x for x in t.a if isinstance(x, T)]


def walk(ts):
    seen = set(); st = list(ts); out = []
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        for x in t.a:
            if isinstance(x, T): st.append(x)
    return out


BUILD = {"radd": radd, "rneg": rneg, "rmul": rmul, "rdiv": rdiv, "rlt": rlt, "rle": rle, "req": req, "not": Not,
         "iff": Iff, "ite": Ite, "eq": eq, "add": add, "neg": neg, "mul": mul}
BV2 = ("udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor")
CMP = ("slt", "sle", "ult", "ule")


def subst(t, sub):
    """replace variables (id -> term)"""
    memo = {}
    st = [(t, 0)]
    while st:
        x, ph = st.pop()
        if x.id in memo: continue
        if x.id in sub: memo[x.id] = sub[x.id]; continue
        ch = children(x)
        if ph == 0:
            if not ch: memo[x.id] = x; continue
            st.append((x, 1))
            for c in ch:
                if c.id not in memo: st.append((c, 0))
        else:
            a = tuple(memo[y.id] if isinstance(y, T) else y for y in x.a)
            if all(p is q for p, q in zip(a, x.a)): memo[x.id] = x
            elif x.op == "and" and x.s == "B": memo[x.id] = And(*a)
            elif x.op in BV2: memo[x.id] = bin2(x.op, *a)
            elif x.op in CMP: memo[x.id] = cmp(x.op, *a)
            elif x.op in ("zext", "sext"): memo[x.id] = (zext if x.op == "zext" else sext)(a[0], x.s)
            elif x.op == "extract": memo[x.id] = extract(*a)
            elif x.op == "concat": memo[x.id] = concat(*a)
            elif x.op in BUILD: memo[x.id] = BUILD[x.op](*a)
            elif x.op == "app": memo[x.id] = app(a[0], a[1:], x.s)
            else: memo[x.id] = mk(x.op, a, x.s)
    return memo[t.id]
