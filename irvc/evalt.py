"""Evaluation of terms at sample points: finds a point where an obligation fails without a solver.
Reals are exact fractions unless the terms apply a transcendental function, then 60-digit numbers."""
import random, time
from fractions import Fraction
import mpmath
from . import term as tm
from .term import T, kval, signed

MP = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
MP.dps = 60
EPS = MP.mpf(10) ** -25


class Skip(Exception):
    """this point decides nothing"""


def fn(nm, x):
    m = MP
    if nm == "pi": return m.pi + 0
    a = x[0]
    if nm == "sqrt":
        if a < 0: raise Skip()
        return m.sqrt(a)
    if nm in ("log", "log10"):
        if a <= 0: raise Skip()
        return m.log(a) if nm == "log" else m.log10(a)
    if nm == "log2":
        if a <= 0: raise Skip()
        return m.log(a) / m.log(2)
    if nm in ("asin", "acos", "atanh") and abs(a) >= 1 or nm == "acosh" and a < 1: raise Skip()
    if nm in ("exp", "sinh", "cosh", "exp2") and abs(a) > 140: raise Skip()
    if nm in ("sin", "cos", "tan", "exp", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan", "asin", "acos"): return getattr(m, nm)(a)
    if nm == "exp2": return m.power(2, a)
    if nm == "ceil": return m.ceil(a)
    if nm == "floor": return m.floor(a)
    if nm == "trunc": return m.floor(a) if a >= 0 else m.ceil(a)
    if nm == "round": return m.floor(a + 0.5) if a >= 0 else m.ceil(a - 0.5)
    if nm == "cbrt": return m.cbrt(a) if a >= 0 else -m.cbrt(-a)
    if nm == "pow":
        if a <= 0 or abs(x[1] * m.log(a)) > 140: raise Skip()
        return m.power(a, x[1])
    if nm == "atan2":
        return m.atan2(a, x[1])
    if nm in ("csqrt_re", "csqrt_im"):
        z = m.sqrt(m.mpc(a, x[1]))
        return z.real if nm == "csqrt_re" else z.imag
    raise Skip()


class Eval:
    def __init__(self, env, exact):
        self.env = env; self.exact = exact; self.c = {}

    def __call__(self, t):
        c = self.c
        if t.id in c: return c[t.id]
        st = [(t, 0)]
        while st:
            x, ph = st.pop()
            if x.id in c: continue
            if ph == 0:
                if x.op == "ite":
                    # only the branch taken
                    st.append((x, 2)); st.append((x.a[0], 0)); continue
                st.append((x, 1))
                for y in x.a:
                    if isinstance(y, T) and y.id not in c: st.append((y, 0))
            elif ph == 2:
                st.append((x, 3)); st.append((x.a[1] if c[x.a[0].id] else x.a[2], 0))
            elif ph == 3:
                c[x.id] = c[(x.a[1] if c[x.a[0].id] else x.a[2]).id]
            else:
                c[x.id] = self.one(x)
        return c[t.id]

    def close(self, a, b):
        """equality; too near to tell decides nothing"""
        if self.exact: return a == b
        d = abs(a - b)
        if d == 0: return True
        if d <= max(1, abs(a), abs(b)) * EPS: raise Skip()
        return False

    def one(self, t):
        op, s = t.op, t.s
        g = lambda i: self.c[t.a[i].id]
        if op == "k":
            v = t.a[0]
            if s == "R": return v if self.exact else MP.mpf(v.numerator) / v.denominator
            if s in ("F32", "F64"): raise Skip()
            return v
        if op == "var":
            if t.id not in self.env: raise Skip()
            return self.env[t.id]
        if s == "B":
            if op == "not": return not g(0)
            if op == "and": return all(self.c[x.id] for x in t.a)
            if op == "or": return any(self.c[x.id] for x in t.a)
            if op == "iff": return g(0) == g(1)
            if op == "req": return self.close(g(0), g(1))
            if op == "rlt": return not self.close(g(0), g(1)) and g(0) < g(1)
            if op == "rle": return self.close(g(0), g(1)) or g(0) < g(1)
            if op == "eq": return g(0) == g(1)
            if op == "ult": return g(0) < g(1)
            if op == "ule": return g(0) <= g(1)
            n = t.a[0].s if isinstance(t.a[0], T) else None
            if op == "slt": return signed(g(0), n) < signed(g(1), n)
            if op == "sle": return signed(g(0), n) <= signed(g(1), n)
            raise Skip()
        if s == "R":
            if op == "radd": return g(0) + g(1)
            if op == "rneg": return -g(0)
            if op == "rmul": return g(0) * g(1)
            if op == "rdiv":
                if self.close(g(1), 0): raise Skip()
                return g(0) / g(1)
            if op in ("s2r", "u2r"):
                v = g(0)
                if op == "s2r": v = signed(v, t.a[0].s)
                return Fraction(v) if self.exact else MP.mpf(v)
            if op == "app":
                return fn(t.a[0], [self.c[x.id] for x in t.a[1:]])
            raise Skip()
        if isinstance(s, int):
            m = (1 << s) - 1
            if op == "add": return (g(0) + g(1)) & m
            if op == "neg": return -g(0) & m
            if op == "mul": return g(0) * g(1) & m
            if op == "and": return g(0) & g(1)
            if op == "or": return g(0) | g(1)
            if op == "xor": return g(0) ^ g(1)
            if op == "zext": return g(0)
            if op == "sext": return signed(g(0), t.a[0].s) & m
            if op == "extract": return (g(0) >> t.a[2]) & m
            if op == "concat": return (g(0) << t.a[1].s) | g(1)
            if op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
                x, y = g(0), g(1)
                if op == "shl": return (x << y) & m if y < s else 0
                if op == "lshr": return x >> y if y < s else 0
                if op == "ashr": return (signed(x, s) >> min(y, s - 1)) & m
                if y == 0: raise Skip()
                if op == "udiv": return x // y
                if op == "urem": return x % y
                a, b = signed(x, s), signed(y, s)
                q = tm.sdivq(a, b)
                return (q if op == "sdiv" else a - q * b) & m
            if op == "r2s":
                v = g(0)
                i = int(v)
                if not self.exact and abs(v - MP.nint(v)) < EPS: raise Skip()
                if not -(1 << (s - 1)) <= i < (1 << (s - 1)): raise Skip()
                return i & m
        raise Skip()


def draw(rnd, s, exact, k):
    if s == "R":
        m = rnd.random()
        if m < 0.25: v = Fraction(rnd.choice((0, 1, -1, 2, -2)))
        elif m < 0.6: v = Fraction(rnd.randint(-12, 12), rnd.choice((1, 2, 4, 8)))
        elif m < 0.9: v = Fraction(rnd.randint(1, 31), 32)
        else: v = Fraction(rnd.randint(-3000, 3000))
        return v if exact else MP.mpf(v.numerator) / v.denominator
    if s == "B": return rnd.random() < 0.5
    m = rnd.random()
    if m < 0.35: v = rnd.randint(-3, 12)
    elif m < 0.55: v = rnd.choice((1 << (s - 1), (1 << (s - 1)) - 1, (1 << s) - 1, (1 << (s // 2)), 1 << rnd.randrange(s))) + rnd.randint(-1, 1)
    elif m < 0.8: v = rnd.getrandbits(rnd.randint(1, s)) * rnd.choice((1, -1))
    else: v = rnd.getrandbits(s)
    return v & ((1 << s) - 1)


def counterexample(pc, goal, inputs, seed=1, tries=60, secs=2.0, fix=None, at=None):
    """values of the inputs at a point that satisfies pc and not goal, or None; fix: variable id -> term, substituted first"""
    ts = list(pc) + [goal]
    vs = []; apps = False; 
    for x in tm.walk(ts):
        if x.op == "var":
            if x.s in ("F32", "F64"): return None
            vs.append(x)
        elif x.op == "app": apps = True
        elif x.op.startswith("fp") or x.op == "bits2fp": return None
    ids = {v.id for v in vs}
    for kind, v in inputs:
        if isinstance(v, T) and v.op == "var" and v.id not in ids:
            if v.s in ("F32", "F64"): return None
            vs.append(v); ids.add(v.id)
    exact = not apps
    rnd = random.Random(seed)
    fix = fix or {}
    end = time.time() + secs
    free = [v for v in vs if v.id not in fix]
    for k in range(tries):
        if time.time() > end: return None
        if at is not None:
            env = {v.id: at.get(v.id, 0) for v in vs}
            if not exact: env = {i: (MP.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x) for i, x in env.items()}
        else:
            env = {v.id: draw(rnd, v.s, exact, k) for v in free}
        ev = Eval(env, exact)
        try:
            for v in vs:
                if v.id in fix: env[v.id] = ev(fix[v.id])
            if not all(ev(c) for c in pc): continue
            if ev(goal): continue
        except (Skip, ZeroDivisionError, OverflowError, ValueError):
            continue
        if not exact:
            # the same with five times the digits
            MP.dps = 300
            try:
                e2 = Eval(dict(env), exact)
                if not all(e2(c) for c in pc) or e2(goal): continue
            except (Skip, ZeroDivisionError, OverflowError, ValueError):
                continue
            finally: MP.dps = 60
        out = []
        for kind, v in inputs:
            if kind == "h": continue
            x = env.get(v.id) if isinstance(v, T) and v.op == "var" else (kval(v) if isinstance(v, T) and v.op == "k" else None)
            if x is None: out.append((kind, "0"))
            elif v.s == "R": out.append((kind, repr(float(x))))
            elif v.s == "B": out.append((kind, str(int(x))))
            else: out.append((kind, str(signed(x, v.s) if kind != "b" else x)))
        return out
    return None
