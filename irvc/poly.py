"""Canonical forms.

Real terms -> Laurent polynomials over atoms (the ring normaliser).  Large sub-polynomials are
given a name (an atom standing for the canonical polynomial), so that equal sub-expressions are
recognised without expanding; names are expanded on demand when two terms are compared.

Bit-vector terms -> polynomials over Z/2^n.

A quotient p/q is p * name(q)^-1: identities proved here hold wherever the denominators are
non-zero, which the caller records (or establishes from the path condition).
"""
import mpmath
from fractions import Fraction
from . import term as tm
from .term import T

NAME_MIN = 2          # polynomials with >= this many monomials may be named
LIM = 64              # products with more terms than this name their operands


class TooBig(Exception):
    pass


class Atoms:
    def __init__(self):
        self.key = {}          # key -> id
        self.info = []         # id -> ('t', term) | ('n', poly-items)
        self.alg = {}          # atom -> (degree d, what its d-th power is)
        self.tan = {}          # monic arg key -> coeff -> normal form of the tangent
        self.pwof = {}        # power atom -> base and exponent
        self.pw = {}           # base and monic exponent key -> coefficient of the first exponent seen, halved
        self.trig = {}         # monic arg key -> (base coeff)

    def get(self, key, info):
        i = self.key.get(key)
        if i is None:
            i = len(self.info); self.key[key] = i; self.info.append(info)
        return i


AT = Atoms()
C1 = ((), )


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b, k=1):
    if len(b) > len(a) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0; out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e: out.append((a[0], e))
            i += 1; j += 1
        elif a[0] < b[0]:
            out.append(a); i += 1
        else:
            out.append(b); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


def pmul(a, b, limit=None):
    r = {}
    if len(a) > len(b): a, b = b, a
    if limit and len(a) * len(b) > limit: raise TooBig()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pkey(p):
    return tuple(sorted(p.items()))


def lead(p):
    return max(p)


def name(p):
    """coefficient, atom-monomial with  p == coefficient * monomial"""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m
    # divide by the gcd monomial? keep simple: make monic
    c = p[lead(p)]
    q = pscale(p, 1 / c)
    k = pkey(q)
    i = AT.get(("n", k), ("n", k))
    return c, ((i, 1),)


def named(p):
    if len(p) < NAME_MIN: return p
    c, m = name(p)
    return {m: c}


def mpow(m, e):
    return tuple((a, x * e) for a, x in m) if e else ()


def pinv(p):
    if not p: return None
    c, m = name(p)
    return {mpow(m, -1): 1 / c}


def ppow(p, n):
    r = const(1)
    for _ in range(n): r = pmul(r, p)
    return r


def _term_atom(t):
    return AT.get(("t", t.id), ("t", t))


def app_atom(nm, argkeys, t):
    return AT.get(("a", nm, argkeys), ("t", t))


ALGEBRAIC = ("sqrt", "csqrt_re", "csqrt_im", "cosh", "cos")


def nf(t):
    """normal form (named) of a real term"""
    if t.nfc is not None: return t.nfc
    # iterative post-order
    st = [(t, 0)]
    while st:
        x, ph = st.pop()
        if x.nfc is not None: continue
        if ph == 0:
            st.append((x, 1))
            for c in x.a:
                if isinstance(c, T) and c.nfc is None and c.s == "R": st.append((c, 0))
        else:
            x.nfc = _nf1(x)
    return t.nfc


def _nf1(t):
    op = t.op
    if op == "k": return const(t.a[0])
    if op == "radd": return padd(t.a[0].nfc, t.a[1].nfc)
    if op == "rneg": return pscale(t.a[0].nfc, -1)
    if op == "rmul":
        a, b = t.a[0].nfc, t.a[1].nfc
        if len(a) > 1 and len(b) > 1 and len(a) * len(b) > LIM:
            if len(a) > 4: a = named(a)
            if len(b) > 4: b = named(b)
            if len(a) > 1 and len(b) > 1 and len(a) * len(b) > LIM: a = named(a); b = named(b)
        return pmul(a, b)
    if op == "rdiv":
        a, b = t.a[0].nfc, t.a[1].nfc
        iv = pinv(b)
        if iv is None: return {((_term_atom(t), 1),): Fraction(1)}
        return pmul(a, iv)
    if op == "app":
        nm = t.a[0]; args = [x for x in t.a[1:]]
        if nm in ("sinh", "cosh", "cos"):
            r = multiple(nm, args[0].nfc, t)
            if r is not None: return r
        if nm in ("sin", "cos") and args[0].s == "R": return trig(nm, args[0].nfc, t)
        if nm == "pi": return {((app_atom("pi", (), t), 1),): Fraction(1)}
        if nm == "sqrt": return root(args[0].nfc, t)
        keys = tuple(pkey(x.nfc) if x.s == "R" else x.id for x in args)
        if nm == "tan":
            r = {((app_atom(nm, keys, t), 1),): Fraction(1)}
            p = args[0].nfc
            if p:
                c = p[lead(p)]
                if len(p) == 1 and len(lead(p)) == 1 and lead(p)[0][1] == 1:
                    kind, y = AT.info[lead(p)[0][0]]
                    if kind == "t" and y.op == "app" and y.a[0] == "atan" and c == 1: return nf(y.a[1])
                k = pkey(pscale(p, 1 / c))
                if abs(c) in AT.trig.get(k, ()) and c not in AT.tan.get(k, ()):        # sine and cosine of this angle are there already
                    iv = pinv(trig("cos", p, None))
                    if iv is not None: return pmul(trig("sin", p, None), iv)
                AT.tan.setdefault(pkey(pscale(p, 1 / c)), {}).setdefault(c, r)
            return r
        if nm == "pow":
            b, e = args[0].nfc, args[1].nfc
            if set(e) <= {()}:
                ev = e.get((), Fraction(0))
                if ev.denominator == 1 and 0 <= abs(ev) <= 8:
                    if ev >= 0: return ppow(b, int(ev))
                    iv = pinv(b)
                    if iv is not None: return ppow(iv, int(-ev))
            if set(b) == {()} and b[()] > 0 and e: return power(b[()], e)
        if nm == "exp" and args[0].nfc:
            p = args[0].nfc; l10 = app_atom("log", (pkey(const(10)),), tm.app("log", (tm.real(10),)))
            if all(dict(m).get(l10) == 1 for m in p): return power(Fraction(10), {tuple(x for x in m if x[0] != l10): c for m, c in p.items()})
            return power("e", p)
        i = app_atom(nm, keys, t)
        if nm == "atan": AT.tan.setdefault(pkey({((i, 1),): Fraction(1)}), {}).setdefault(Fraction(1), args[0].nfc)
        return {((i, 1),): Fraction(1)}
    if op == "ite":
        a, b = nf(t.a[1]), nf(t.a[2])
        i = AT.get(("ite", t.a[0].id, pkey(a), pkey(b)), ("t", t))
        return {((i, 1),): Fraction(1)}
    return {((_term_atom(t), 1),): Fraction(1)}


def pi_atom(): return app_atom("pi", (), tm.pi())


POSITIVE = ("pow", "exp", "pi", "cosh")


def isq(c):
    """root of a rational square"""
    import math
    if c <= 0: return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def root(p, t):
    """square root: squares and positive factors of a single term are taken out"""
    if not p: return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            out = const(1); rest = []; k = Fraction(1)
            n = c.numerator * c.denominator; d = 2
            while d * d <= n and d < 1000:
                while n % (d * d) == 0: n //= d * d; k *= d
                d += 1
            k /= c.denominator
            for a, e in m:
                kind, x = AT.info[a]
                if a in AT.pwof: out = pmul(out, power(AT.pwof[a][0], pscale(AT.pwof[a][1], Fraction(e, 2))))
                elif kind == "t" and x.op == "app" and x.a[0] in POSITIVE:
                    h = e // 2
                    if h: out = pmul(out, {((a, h),): Fraction(1)})
                    if e - 2 * h: out = pmul(out, {((app_atom("sqrt", (pkey({((a, 1),): Fraction(1)}),), tm.app("sqrt", (x,))), 1),): Fraction(1)})
                else: rest.append((a, e))
            d = 2
            while n > 1:
                while n % d and d < 1000: d += 1
                f = d if n % d == 0 else n
                n //= f
                out = pmul(out, {((app_atom("sqrt", (pkey(const(f)),), tm.app("sqrt", (tm.real(f),))), 1),): Fraction(1)})
            if rest:
                r = {tuple(rest): Fraction(1)}
                tt = t if len(rest) == len(m) and c == 1 else tm.app("sqrt", (poly_term(r),))
                out = pmul(out, {((app_atom("sqrt", (pkey(r),), tt), 1),): Fraction(1)})
            return pscale(out, k)
    return {((app_atom("sqrt", (pkey(p),), t), 1),): Fraction(1)}


def power(b, e):
    """b^e of a positive constant b: one atom for all rational multiples of an exponent"""
    r = const(1)
    if b != "e" and set(e) > {()} and e[()].denominator == 1 and abs(e[()]) <= 64:
        r = const(b ** int(e[()])); e = {m: c for m, c in e.items() if m}
    for m in list(e):                                             # 10^(k log10 x) = x^k
        if len(m) == 1 and m[0][1] == 1 and e[m].denominator == 1 and abs(e[m]) <= 8:
            kind, x = AT.info[m[0][0]]
            if kind == "t" and x.op == "app" and x.a[0] == {10: "log10", 2: "log2", "e": "log"}.get(b):
                y = nf(x.a[1]); n = int(e[m])
                if n < 0: y = pinv(y)
                if y is not None:
                    r = pmul(r, ppow(y, abs(n))); e = {k: v for k, v in e.items() if k != m}
    if not e: return r
    c = e[lead(e)]; q = pscale(e, 1 / c); k = (b, pkey(q))
    c0 = AT.pw.setdefault(k, c / 2)
    n = c / c0
    if n.denominator == 1 and abs(n) <= 64: ex = int(n)
    else: c0 = c; ex = 1
    x = poly_term(pscale(q, c0))
    a = app_atom("pow", (b, pkey(pscale(q, c0))), tm.app("exp", (x,)) if b == "e" else tm.app("pow", (tm.real(b), x)))
    AT.pwof[a] = (b, pscale(q, c0))
    return pmul(r, {((a, ex),): Fraction(1)})


SPECIAL = None


def special():
    """cosines of the rational multiples of pi that are constants or square roots: (cos(q pi) for 0 <= q <= 1/2)"""
    global SPECIAL
    if SPECIAL is None:
        s2, s3 = nf(tm.app("sqrt", (tm.real(2),))), nf(tm.app("sqrt", (tm.real(3),)))
        s6 = pmul(s2, s3); q4 = Fraction(1, 4)
        SPECIAL = {Fraction(1, 12): pscale(padd(s6, s2), q4), Fraction(5, 12): pscale(padd(s6, s2, -1), q4), Fraction(0): const(1), Fraction(1, 6): pscale(s3, Fraction(1, 2)), Fraction(1, 4): pscale(s2, Fraction(1, 2)), Fraction(1, 3): const(Fraction(1, 2)), Fraction(1, 2): {}}
    return SPECIAL


def pimult(t):
    """q where t is q pi"""
    p = nf(t)
    return p[((pi_atom(), 1),)] if len(p) == 1 and ((pi_atom(), 1),) in p else None


def minpoly(d):
    """coefficients of the (integral) minimal polynomial of cos(pi/d), ascending, d even"""
    from math import gcd
    with MPCTX.workprec(400):
        c = [MPCTX.mpf(1)]                                        # of 2 cos(pi/d): the product over its conjugates
        for k in range(1, d):
            if gcd(k, 2 * d) > 1: continue
            z = 2 * MPCTX.cos(MPCTX.pi * k / d)
            c = [(c[i - 1] if i else 0) - z * (c[i] if i < len(c) else 0) for i in range(len(c) + 1)]
        r = [int(MPCTX.nint(x)) for x in c]
        assert all(abs(x - y) < MPCTX.mpf(10) ** -40 for x, y in zip(c, r))
    return tuple(x * 2 ** i for i, x in enumerate(r))


MPCTX = mpmath.mp
MINPOLY = {d: minpoly(d) for d in (8, 10, 14, 16, 18, 20, 22, 24)}


def chebyshev(n, x):
    """T_n(x)"""
    a, b = const(1), x
    if n == 0: return a
    for _ in range(n - 1): a, b = b, padd(pmul(pscale(x, 2), b), a, -1)
    return b


def setalg(i, n, rel):
    """rel (a polynomial in the atom i of degree n, other atoms allowed) is zero"""
    top = {}; rest = {}
    for m, c in rel.items():
        d = dict(m).get(i, 0)
        if d == n and len(m) == 1: top[m] = c
        else: rest[m] = c
    c = top[((i, n),)]
    AT.alg[i] = (n, pscale(rest, -1 / c))


def cospi(c):
    """cos(c pi), 0 < c < 1/2"""
    d = c.denominator if c.denominator % 2 == 0 else 2 * c.denominator
    q = Fraction(1, d) if d in MINPOLY else c
    i = AT.get(("cospi", q), ("t", tm.app("cos", (tm.rmul(tm.real(q), tm.pi()),))))
    if d in MINPOLY and i not in AT.alg:
        n = len(MINPOLY[d]) - 1
        setalg(i, n, {((i, k),) if k else (): Fraction(v) for k, v in enumerate(MINPOLY[d]) if v})
    x = {((i, 1),): Fraction(1)}
    return chebyshev(int(c / q), x) if d in MINPOLY else x


def multiple(nm, p, t):
    """sinh, cosh, cos of a fraction of asinh, acosh, acos"""
    inv = {"sinh": "asinh", "cosh": "acosh", "cos": "acos", "sinh2": "asinh"}
    if len(p) != 1: return None
    (m, c), = p.items()
    if len(m) != 1 or m[0][1] != 1 or c <= 0 or c > 12: return None
    kind, y = AT.info[m[0][0]]
    if kind != "t" or y.op != "app" or len(y.a) != 2: return None
    n, k = c.denominator, c.numerator
    if n > 12 or k > 12: return None
    x = nf(y.a[1]); q = {m: Fraction(1, n)}
    if nm in ("cosh", "cos") and y.a[0] == inv[nm]:
        if n == 1: return chebyshev(k, x)
        i = app_atom(nm, (pkey(q),), tm.app(nm, (poly_term(q),))); a = {((i, 1),): Fraction(1)}
        if i not in AT.alg: setalg(i, n, padd(chebyshev(n, a), x, -1))
        return chebyshev(k, a)
    if nm in ("sinh", "cosh") and y.a[0] == "asinh":
        si = app_atom("sinh", (pkey(q),), tm.app("sinh", (poly_term(q),))); ci = app_atom("cosh", (pkey(q),), tm.app("cosh", (poly_term(q),)))
        S = x if n == 1 else {((si, 1),): Fraction(1)}; C = {((ci, 1),): Fraction(1)}
        if n > 1 and si not in AT.alg:
            # sinh(n u) = x or cosh(n u)^2 = 1 + x^2 in terms of S = sinh u
            C2 = padd(const(1), pmul(S, S))
            # sinh(k u) = S * U, cosh(k u) = C * V for odd k;  T_k(C) is a polynomial of C^2 for even k
            def even(poly1):         # polynomial of one atom ci with even exponents -> C2
                r = {}
                for mm, cc in poly1.items():
                    e = dict(mm).get(ci, 0)
                    r = padd(r, pscale(ppow(C2, e // 2), cc))
                return r
            if n % 2 == 0:
                T = even(chebyshev(n, C)); rel = padd(pmul(T, T), padd(const(1), pmul(x, x)), -1); setalg(si, 2 * n, rel)
            else:
                # sinh(n u) = S (2 T_{n-1}(C) + 2 T_{n-3}(C) + ... + 1)
                U = const(1)
                for e in range(2, n, 2): U = padd(U, pscale(even(chebyshev(e, C)), 2))
                setalg(si, n, padd(pmul(S, U), x, -1))
        if ci not in AT.alg: AT.alg[ci] = (2, padd(const(1), pmul(S, S)))
        s1, c1 = {}, const(1)
        for _ in range(k): s1, c1 = padd(pmul(s1, C), pmul(c1, S)), padd(pmul(c1, C), pmul(s1, S))
        return s1 if nm == "sinh" else c1
    return None


def trig(nm, p, t):
    if not p: return const(1 if nm == "cos" else 0)
    pm = ((pi_atom(), 1),)
    if pm in p:
        c = p[pm]; rest = {m: v for m, v in p.items() if m != pm}
        if not rest:
            if nm == "sin": c = Fraction(1, 2) - c                # sin x = cos(pi/2 - x)
            c = abs(c) % 2
            if c > 1: c = 2 - c
            sg = 1
            if c > Fraction(1, 2): c = 1 - c; sg = -1
            if c in special(): return pscale(special()[c], sg)
            return pscale(cospi(c), sg)
        if c.denominator <= 2 and c != 0:
            h = int(2 * c) % 4                                    # quarter turns
            other = "sin" if nm == "cos" else "cos"
            r = trig(nm if h % 2 == 0 else other, rest, None)
            neg = h in ((1, 2) if nm == "cos" else (2, 3))
            return pscale(r, -1) if neg else r
    c = p[lead(p)]
    q = pscale(p, 1 / c); k = pkey(q)
    for tc, tp in AT.tan.get(k, {}).items():
        n = c / (2 * tc)
        if n.denominator == 1 and 1 <= abs(n) <= 4:               # half-angle formulae
            iv = pinv(padd(const(1), pmul(tp, tp)))
            cs = pmul(padd(const(1), pmul(tp, tp), -1), iv); sn = pscale(pmul(tp, iv), 2)
            C, S = const(1), {}
            for _ in range(abs(int(n))):
                C, S = padd(pmul(C, cs), pmul(S, sn), -1), padd(pmul(S, cs), pmul(C, sn))
            return C if nm == "cos" else (S if n > 0 else pscale(S, -1))
    base = AT.trig.setdefault(k, [])
    n = None; b0 = None
    for b in base:
        r = c / b
        if r.denominator == 1 and abs(r) <= 8:
            n = int(r); b0 = b; break
    if n is None:
        # a smaller positive base that divides earlier ones is not searched for: new base
        base.append(abs(c)); b0 = abs(c); n = 1 if c > 0 else -1
    ci = AT.get(("trig", "cos", k, b0), ("t", tm.app("cos", (poly_term(pscale(q, b0)),))))
    si = AT.get(("trig", "sin", k, b0), ("t", tm.app("sin", (poly_term(pscale(q, b0)),))))
    cs = {((ci, 1),): Fraction(1)}; sn = {((si, 1),): Fraction(1)}
    for tc, tp in AT.tan.get(k, {}).items():
        if abs(tc) == b0:                                         # the tangent of this angle is there already
            sn = pmul(cs, pscale(tp, 1 if tc > 0 else -1))
            if ci not in AT.alg:
                iv = pinv(padd(const(1), pmul(tp, tp)))
                if iv is not None: AT.alg[ci] = (2, iv)
            break
    # multiple angle
    m = abs(n)
    C, S = const(1), {}
    for _ in range(m):
        C, S = padd(pmul(C, cs), pmul(S, sn), -1), padd(pmul(S, cs), pmul(C, sn))
    return C if nm == "cos" else (S if n > 0 else pscale(S, -1))


def atom_term(i):
    k, x = AT.info[i]
    if k == "t": return x
    return poly_term(dict(x))


def poly_term(p):
    r = None
    for m, c in sorted(p.items()):
        x = None
        for a, e in m:
            at = atom_term(a)
            for _ in range(abs(e)):
                if e > 0: x = at if x is None else tm.rmul(x, at)
                else: x = tm.rdiv(x if x is not None else tm.ONE_R, at)
        x = tm.real(c) if x is None else tm.rmul(x, tm.real(c))
        r = x if r is None else tm.radd(r, x)
    return r if r is not None else tm.ZERO_R


# ---------------------------------------------------------------- zero test
BIG = 400000


def clear_neg(p, denoms):
    mins = {}
    for m in p:
        for a, e in m:
            if e < 0 and e < mins.get(a, 0): mins[a] = e
    if not mins: return p
    for a in mins: denoms.add(a)
    mult = tuple(sorted((a, -e) for a, e in mins.items()))
    return {mmul(m, mult): c for m, c in p.items()}


def expand_atom(p, i, q):
    """substitute atom i by polynomial q (non-negative exponents)"""
    by = {}
    for m, c in p.items():
        e = 0; rest = m
        for k, (a, x) in enumerate(m):
            if a == i:
                e = x; rest = m[:k] + m[k + 1:]
                break
        by.setdefault(e, {})[rest] = c
    r = by.pop(0, {})
    pw = const(1); done = 0
    for e in sorted(by):
        while done < e:
            pw = pmul(pw, q, BIG); done += 1
        r = padd(r, pmul(by[e], pw, BIG))
        if len(r) > BIG: raise TooBig()
    return r


def algebraic(p):
    """apply sin^2+cos^2=1, sqrt(x)^2=x, cosh^2=1+sinh^2 and the csqrt relations"""
    changed = True
    rounds = 0
    while changed and rounds < 40:
        changed = False; rounds += 1
        r = {}
        for m, c in p.items():
            rw = None
            for k, (a, e) in enumerate(m):
                if e < 1: continue
                kind, x = AT.info[a]
                if kind != "t" or x.op != "app": continue
                nm = x.a[0]
                if a in AT.alg:
                    if e < AT.alg[a][0]: continue
                    rw = (k, AT.alg[a][0], AT.alg[a][1]); break
                if nm == "cos" and e >= 2:
                    si = partner(a, "sin")
                    rep = padd(const(1), {((si, 2),): Fraction(1)}, -1)
                    rw = (k, 2, rep); break
                if nm == "sqrt" and e >= 2:
                    rw = (k, 2, nf(x.a[1])); break
                if nm == "cosh" and e >= 2:
                    si = app_atom("sinh", (pkey(nf(x.a[1])),), tm.app("sinh", (x.a[1],)))
                    rw = (k, 2, padd(const(1), {((si, 2),): Fraction(1)})); break
                if nm == "csqrt_re":
                    ii = app_atom("csqrt_im", tuple(pkey(nf(y)) for y in x.a[1:]), tm.app("csqrt_im", x.a[1:]))
                    if e >= 2:
                        rw = (k, 2, padd(nf(x.a[1]), {((ii, 2),): Fraction(1)})); break
                    if any(b == ii and f >= 1 for b, f in m):
                        rest = tuple((b, f) if b != ii else (b, f - 1) for b, f in m if not (b == ii and f == 1))
                        rest = tuple((b, f) if b != a else (b, f - 1) for b, f in rest if not (b == a and f == 1))
                        rw = ("full", rest, pscale(nf(x.a[2]), Fraction(1, 2))); break
                if nm == "csqrt_im" and e >= 3:
                    ri = app_atom("csqrt_re", tuple(pkey(nf(y)) for y in x.a[1:]), tm.app("csqrt_re", x.a[1:]))
                    rep = padd(pmul({((ri, 1),): Fraction(1, 2)}, nf(x.a[2])),
                               pmul({((a, 1),): Fraction(1)}, nf(x.a[1])), -1)
                    rw = (k, 3, rep); break
            if rw is None:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
            else:
                changed = True
                if rw[0] == "full": rest, rep = rw[1], rw[2]
                else:
                    k, d, rep = rw
                    a, e = m[k]
                    rest = m[:k] + (((a, e - d),) if e > d else ()) + m[k + 1:]
                for m2, c2 in rep.items():
                    mm = mmul(rest, m2)
                    v = r.get(mm, 0) + c * c2
                    if v: r[mm] = v
                    else: r.pop(mm, None)
        p = r
    return p


def partner(a, other):
    for k, i in AT.key.items():
        if i == a and k[0] == "trig":
            return AT.key[("trig", other, k[2], k[3])]
    raise TooBig()


def is_zero(p, denoms=None):
    """True / False(when fully expanded over plain atoms) ; raises TooBig"""
    if denoms is None: denoms = set()
    for _ in range(200):
        if not p: return True
        p = clear_neg(p, denoms)
        # highest named atom
        best = -1
        for m in p:
            for a, e in m:
                if a > best and AT.info[a][0] == "n": best = a
        if best < 0:
            q = algebraic(p)
            if not q: return True
            if q == p: return False
            p = q
            continue
        p = expand_atom(p, best, dict(AT.info[best][1]))
    raise TooBig()


def canon_cmp(t):
    """comparison term -> (op, key) canonical; used for syntactic lookups"""
    op = t.op
    d = padd(nf(t.a[0]), nf(t.a[1]), -1)
    if not d: return (op, None)
    c = d[lead(d)]
    if op == "req":
        return ("req", pkey(pscale(d, 1 / c)))
    return (op, 1 if c > 0 else -1, pkey(pscale(d, 1 / abs(c))))


# ---------------------------------------------------------------- bit-vector ring
_bvc = {}


def bvnf(t, limit=3000):
    r = _bvc.get(t.id)
    if r is not None: return r
    n = t.s; M = 1 << n
    op = t.op
    if op == "k": r = {(): t.a[0]} if t.a[0] else {}
    elif op == "add":
        a, b = bvnf(t.a[0]), bvnf(t.a[1]); r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + c) % M
            if v: r[m] = v
            else: r.pop(m, None)
    elif op == "neg":
        r = {m: (-c) % M for m, c in bvnf(t.a[0]).items()}
    elif op == "mul":
        a, b = bvnf(t.a[0]), bvnf(t.a[1])
        if len(a) * len(b) > limit: r = {((t.id, 1),): 1}
        else:
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = mmul(m1, m2); v = (r.get(m, 0) + c1 * c2) % M
                    if v: r[m] = v
                    else: r.pop(m, None)
    else:
        r = {((t.id, 1),): 1}
    _bvc[t.id] = r
    return r
