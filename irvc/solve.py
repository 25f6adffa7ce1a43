"""Discharging obligations: simplifier, ring normaliser, z3, cvc5."""
import time, subprocess, tempfile, os
from fractions import Fraction
import z3
from . import term as tm, poly, evalt
from .term import T, TRUE, FALSE, isk, kval

RM = z3.RNE()


class Case:
    """a path condition and one more condition"""
    def __init__(self, st, c):
        cs = list(c.a) if c.op == "and" and c.s == "B" else [c]
        self.pc = list(st.pc) + cs; self.pcset = set(st.pcset) | {x.id for x in cs} | {c.id}


class Tr:
    """term -> z3.  mode: 'abs' names are free variables; 'def' names are defined; 'raw' direct"""
    def __init__(self, mode="raw"):
        self.mode = mode; self.c = {}; self.side = []; self.names = {}; self.apps = set(); self.fnames = {}; self.logs = {}
        self.absmul = False; self.mulc = {}

    def b(self, t):
        r = self.c.get(t.id)
        if r is not None: return r
        # iterative post-order to avoid deep recursion
        st = [(t, 0)]
        while st:
            x, ph = st.pop()
            if x.id in self.c: continue
            if ph == 0:
                st.append((x, 1))
                if x.s == "B" and x.op in ("rlt", "rle", "req") and self.mode != "raw": continue
                for y in x.a:
                    if isinstance(y, T) and y.id not in self.c: st.append((y, 0))
            else:
                self.c[x.id] = self.one(x)
        return self.c[t.id]

    def fsort(self, s): return z3.Float64() if s == "F64" else z3.Float32()

    def one(self, t):
        op = t.op; s = t.s; g = lambda i: self.c[t.a[i].id]
        if op == "k":
            if s == "B": return z3.BoolVal(t.a[0])
            if s == "R": return z3.RealVal(str(t.a[0]))
            if s in ("F32", "F64"):
                v = t.a[0]
                if v == "nan": return z3.fpNaN(self.fsort(s))
                if v == "inf": return z3.fpPlusInfinity(self.fsort(s))
                if v == "-inf": return z3.fpMinusInfinity(self.fsort(s))
                return z3.FPVal(float(v), self.fsort(s))
            return z3.BitVecVal(t.a[0], s)
        if op == "var":
            n = str(t.a[0])
            if s == "B": return z3.Bool(n)
            if s == "R": return z3.Real(n)
            if s in ("F32", "F64"): return z3.FP(n, self.fsort(s))
            return z3.BitVec(n, s)
        if op == "not": return z3.Not(g(0))
        if op == "and": return z3.And(*[self.c[x.id] for x in t.a])
        if op == "iff": return g(0) == g(1)
        if op == "ite":
            return z3.If(g(0), g(1), g(2))
        if op in ("rlt", "rle", "req"):
            if self.mode == "raw": a, b = g(0), g(1)
            else:
                d = poly.padd(poly.nf(t.a[0]), poly.nf(t.a[1]), -1)
                pos = {m: c for m, c in d.items() if c > 0}; ne = {m: -c for m, c in d.items() if c < 0}
                a, b = self.pz(pos), self.pz(ne)
            return a < b if op == "rlt" else a <= b if op == "rle" else a == b
        if op == "eq": return g(0) == g(1)
        if op == "ult": return z3.ULT(g(0), g(1))
        if op == "ule": return z3.ULE(g(0), g(1))
        if op == "slt": return g(0) < g(1)
        if op == "sle": return g(0) <= g(1)
        if op == "add": return g(0) + g(1)
        if op == "neg": return -g(0)
        if op == "mul":
            if self.absmul and not isk(t.a[1]):
                return z3.BitVec("mul!%d" % t.id, s)
            return g(0) * g(1)
        if op == "udiv": return z3.UDiv(g(0), g(1))
        if op == "sdiv":
            if self.absmul: return z3.BitVec("div!%d" % t.id, s)
            return g(0) / g(1)
        if op == "urem": return z3.URem(g(0), g(1))
        if op == "srem":
            if self.absmul: return z3.BitVec("rem!%d" % t.id, s)
            return z3.SRem(g(0), g(1))
        if op == "shl": return g(0) << g(1)
        if op == "lshr": return z3.LShR(g(0), g(1))
        if op == "ashr": return g(0) >> g(1)
        if op == "and_": return g(0) & g(1)
        if op == "or": return g(0) | g(1)
        if op == "xor": return g(0) ^ g(1)
        if op == "zext": return z3.ZeroExt(s - t.a[0].s, g(0))
        if op == "sext": return z3.SignExt(s - t.a[0].s, g(0))
        if op == "extract": return z3.Extract(t.a[1], t.a[2], g(0))
        if op == "concat": return z3.Concat(g(0), g(1))
        if op == "radd": return g(0) + g(1)
        if op == "rneg": return -g(0)
        if op == "rmul": return g(0) * g(1)
        if op == "rdiv":
            q = z3.Real("q!%d" % t.id)
            self.side.append(z3.Implies(g(1) != 0, q * g(1) == g(0)))
            return q
        if op == "s2r": return z3.ToReal(z3.BV2Int(g(0), True))
        if op == "u2r": return z3.ToReal(z3.BV2Int(g(0), False))
        if op == "r2s":
            # truncation, assuming the value fits
            x = g(0); i = z3.Int("tr!%d" % t.id)
            self.side.append(z3.Implies(x >= 0, z3.And(z3.ToReal(i) <= x, x < z3.ToReal(i) + 1)))
            self.side.append(z3.Implies(x < 0, z3.And(z3.ToReal(i) >= x, x > z3.ToReal(i) - 1)))
            return z3.Int2BV(i, s)
        if op == "app":
            args = [self.c[x.id] for x in t.a[1:]]
            return self.appz(t.a[0], args, t)
        if op.startswith("fp"): return self.fpz(t, g)
        raise NotImplementedError(op)

    def fpz(self, t, g):
        op = t.op
        if op == "fp.add": return z3.fpAdd(RM, g(0), g(1))
        if op == "fp.sub": return z3.fpSub(RM, g(0), g(1))
        if op == "fp.mul": return z3.fpMul(RM, g(0), g(1))
        if op == "fp.div": return z3.fpDiv(RM, g(0), g(1))
        if op == "fp.neg": return z3.fpNeg(g(0))
        if op == "fp.abs": return z3.fpAbs(g(0))
        if op == "fp.isnan": return z3.fpIsNaN(g(0))
        if op == "fp.eq": return z3.fpEQ(g(0), g(1))
        if op == "fp.id": return g(0) == g(1)
        if op == "fp.lt": return z3.fpLT(g(0), g(1))
        if op == "fp.le": return z3.fpLEQ(g(0), g(1))
        if op == "fp.s": return z3.fpSignedToFP(RM, g(0), self.fsort(t.s))
        if op == "fp.u": return z3.fpUnsignedToFP(RM, g(0), self.fsort(t.s))
        if op == "fp.tos": return z3.fpToSBV(z3.RTZ(), g(0), z3.BitVecSort(t.s))
        if op == "fp.tou": return z3.fpToUBV(z3.RTZ(), g(0), z3.BitVecSort(t.s))
        if op == "fp.cvt": return z3.fpFPToFP(RM, g(0), self.fsort(t.s))
        if op == "fp2bits": return z3.fpToIEEEBV(g(0))
        if op == "bits2fp": return z3.fpBVToFP(g(0), self.fsort(t.s))
        raise NotImplementedError(op)

    def overpi(self, t):
        """t / pi where pi divides t"""
        if self.mode == "raw": return None
        p = poly.nf(t); i = poly.pi_atom()
        if not p or not all(any(a == i and e >= 1 for a, e in m) for m in p): return None
        return self.pz({tuple((a, e - (a == i)) for a, e in m if e - (a == i)): c for m, c in p.items()})

    def appz(self, nm, args, t):
        if nm == "pi":
            r = z3.Real("pi")
            self.side += [r > z3.Q(31415926535897932, 10**16), r < z3.Q(31415926535897933, 10**16)]
            return r
        f = self.fnames.get((nm, len(args)))
        if f is None:
            f = self.fnames[(nm, len(args))] = z3.Function("f_" + nm, *([z3.RealSort()] * (len(args) + 1)))
        r = f(*args)
        x = args[0]
        if nm == "sqrt":
            self.side += [r >= 0, z3.Implies(x >= 0, r * r == x), z3.Implies(x > 0, r > 0)]
            p = poly.nf(t.a[1]) if self.mode != "raw" else {}
            if len(p) == 1:
                (m, c), = p.items()
                if m and all(e % 2 == 0 for _, e in m) and poly.isq(c):           # the root of a square
                    h = self.pz({tuple((a, e // 2) for a, e in m): poly.isq(c)})
                    self.side.append(r == z3.If(h >= 0, h, -h))
        elif nm in ("sin", "cos"):
            fs = self.fnames.setdefault(("sin", 1), z3.Function("f_sin", z3.RealSort(), z3.RealSort()))
            fc = self.fnames.setdefault(("cos", 1), z3.Function("f_cos", z3.RealSort(), z3.RealSort()))
            self.side += [fs(x) * fs(x) + fc(x) * fc(x) == 1]
            y = self.overpi(t.a[1])
            if y is None: y, one = x, z3.Q(314159265, 100000000)
            else: one = z3.RealVal(1)
            q = poly.pimult(t.a[1])
            if q is not None:
                import math
                v = Fraction(getattr(math, nm)(math.pi * q))
                self.side += [r > z3.RealVal(str(v - Fraction(1, 10**10))), r < z3.RealVal(str(v + Fraction(1, 10**10)))]
            if nm == "sin": self.side += [z3.Implies(z3.And(y > 0, y < one), r > 0)]
            else: self.side += [z3.Implies(z3.And(y > -one / 2, y < one / 2), r > 0), z3.Implies(z3.And(y > one / 2 + z3.Q(1, 10**7), y < 3 * one / 2), r < 0)]
        elif nm == "tan":
            y = self.overpi(t.a[1])
            if y is None: y, one = x, z3.Q(314159265358979, 10**14)
            else: one = z3.RealVal(1)
            self.side += [z3.Implies(z3.And(y > 0, y < one / 2), r > 0)]
        elif nm == "exp":
            self.side += [r > 0, z3.Implies(x < 0, r < 1), z3.Implies(x > 0, r > 1), z3.Implies(x == 0, r == 1)]
        elif nm in ("log", "log10", "log2"):
            self.side += [z3.Implies(x > 1, r > 0), z3.Implies(z3.And(x > 0, x < 1), r < 0), z3.Implies(x == 1, r == 0)]
            for y, q in self.logs.setdefault(nm, []): self.side += [z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (r < q), (x == y) == (r == q)))]
            self.logs[nm].append((x, r))
        elif nm == "pow":
            y = args[1]
            self.side += [z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x > 1, y > 0), r > 1), z3.Implies(z3.And(x > 1, y < 0), r < 1),
                          z3.Implies(y == 0, r == 1)]
        elif nm == "csqrt_re":
            fi = self.fnames.setdefault(("csqrt_im", 2), z3.Function("f_csqrt_im", z3.RealSort(), z3.RealSort(), z3.RealSort()))
            im = fi(*args); a, b = args
            self.side += [r >= 0, r * r - im * im == a, 2 * r * im == b, z3.Implies(b == 0, z3.Or(im == 0, r == 0))]
        elif nm == "csqrt_im":
            fr = self.fnames.setdefault(("csqrt_re", 2), z3.Function("f_csqrt_re", z3.RealSort(), z3.RealSort(), z3.RealSort()))
            re = fr(*args); a, b = args
            self.side += [re >= 0, re * re - r * r == a, 2 * re * r == b, z3.Implies(b == 0, z3.Or(r == 0, re == 0)),
                          z3.Implies(b >= 0, r >= 0), z3.Implies(b < 0, r <= 0)]
        elif nm == "ceil":
            n = z3.Int("ceil!%d" % t.id)
            self.side += [r == z3.ToReal(n), r >= x, r < x + 1]
        elif nm == "floor":
            n = z3.Int("floor!%d" % t.id)
            self.side += [r == z3.ToReal(n), r <= x, r > x - 1]
        elif nm == "cosh": self.side += [r >= 1]
        elif nm in ("sinh", "asinh"): self.side += [z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)]
        return r

    # polynomials
    def pz(self, p):
        r = None
        for m, c in p.items():
            x = None
            for a, e in m:
                z = self.az(a) if e > 0 else self.iz(a)
                for _ in range(abs(e)): x = z if x is None else x * z
            cz = z3.RealVal(str(c))
            x = cz if x is None else (x if c == 1 else cz * x)
            r = x if r is None else r + x
        return r if r is not None else z3.RealVal(0)

    def iz(self, a):
        k = ("inv", a)
        r = self.names.get(k)
        if r is None:
            r = self.names[k] = z3.Real("inv!%d" % a)
            z = self.az(a)
            self.side.append(z3.Implies(z != 0, z * r == 1))
        return r

    def az(self, a):
        r = self.names.get(a)
        if r is None:
            k, x = poly.AT.info[a]
            if a in poly.AT.alg and self.mode != "abs":
                d, rep = poly.AT.alg[a]
                r = self.names[a] = self.b(x)
                self.side.append(self.pz({((a, d),): 1}) == self.pz(rep))
                return r
            if k == "t":
                r = self.b(x) if x.op != "ite" else self.iteatom(x)
            elif self.mode == "abs":
                r = z3.Real("n!%d" % a)
            else:
                r = z3.Real("n!%d" % a)
                self.names[a] = r
                self.side.append(r == self.pz(dict(x)))
            self.names[a] = r
        return r

    def iteatom(self, x):
        return z3.If(self.b(x.a[0]), self.pz(poly.nf(x.a[1])), self.pz(poly.nf(x.a[2])))


# 'and'/'or' exist both as boolean and bit-vector operators
_old = Tr.one


def _one(self, t):
    if t.op == "and" and t.s != "B": return self.c[t.a[0].id] & self.c[t.a[1].id]
    if t.op == "or" and t.s == "B": return z3.Or(*[self.c[x.id] for x in t.a])
    return _old(self, t)


Tr.one = _one


def has_real(ts):
    for t in tm.walk(ts):
        if t.s == "R": return True
    return False


EXACT = {"sqrt", "csqrt_re", "csqrt_im", "ceil", "floor"}       # functions whose axioms determine them


class Solver:
    def __init__(self, timeout=20, seed=1):
        self.timeout = timeout; self.cache = {}; self.fcache = {}
        self.stats = {}; self.secs = 0.0; self.queries = 0; self.seed = seed
        self.divassume = 0
        self.second = None            # thorough tier: counts of what a second, independent judgement says of proved obligations
        self.second_end = 0.0

    # -------------------------------------------------- syntactic facts
    def canon(self, t):
        d = poly.padd(poly.nf(t.a[0]), poly.nf(t.a[1]), -1)
        d = self.expand(d)
        if not d: return None, 0
        c = d[poly.lead(d)]
        return poly.pkey(poly.pscale(d, 1 / c)), (1 if c > 0 else -1)

    def expand(self, p):
        q = p
        try:
            for _ in range(30):
                best = -1
                for m in q:
                    for a, e in m:
                        if e < 0: return q      # keep quotients as they are
                        if a > best and poly.AT.info[a][0] == "n": best = a
                if best < 0: return q
                q = poly.expand_atom(q, best, dict(poly.AT.info[best][1]))
                if len(q) > 4000: return p
        except poly.TooBig:
            return p
        return q

    def rel(self, c):
        """canonical key and the set of signs of it that make c true"""
        neg = False
        t = c
        if t.op == "not": neg = True; t = t.a[0]
        if t.op not in ("rlt", "rle", "req"): return None
        k, s = self.canon(t)
        if k is None:
            v = t.op in ("rle", "req")
            return ("const", v != neg)
        if t.op == "req": al = "="
        elif t.op == "rlt": al = "<" if s > 0 else ">"
        else: al = "<=" if s > 0 else "=>"
        al = frozenset(al)
        if neg: al = frozenset("<=>") - al
        return k, al

    def facts(self, st):
        d = getattr(st, "rk", None)
        if d is None: d = st.rk = {}; st.rn = 0
        if st.rn > len(st.pc): d = st.rk = {}; st.rn = 0
        if st.rn < len(st.pc):
            d = dict(d)
            for c in st.pc[st.rn:]:
                r = self.rel(c)
                if r and r[0] != "const":
                    k, al = r
                    d[k] = d.get(k, frozenset("<=>")) & al
            st.rk = d; st.rn = len(st.pc)
        return d

    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c.id in st.pcset: return True
        n = tm.Not(c)
        if n.id in st.pcset: return False
        if c.op == "and":
            r = True
            for x in c.a:
                d = self.decide(st, x)
                if d is False: return False
                if d is None: r = None
            return r
        if c.op == "not" and c.a[0].op == "and":
            d = self.decide(st, c.a[0])
            return None if d is None else (not d)
        r = self.rel(c)
        if r:
            if r[0] == "const": return r[1]
            k, al = r
            f = self.facts(st).get(k)
            if f is not None:
                if f <= al: return True
                if not (f & al): return False
        return None

    # -------------------------------------------------- solver queries
    def slice(self, pc, goal):
        """only the path conditions sharing variables (transitively) with the goal"""
        def vars_(t):
            return frozenset(x.id for x in tm.walk([t]) if x.op == "var")
        gv = set(vars_(goal)); rest = [(c, self.vcache(c)) for c in pc]; out = []
        changed = True
        while changed:
            changed = False
            keep = []
            for c, v in rest:
                if v & gv or not v:
                    out.append(c); gv |= v; changed = True
                else: keep.append((c, v))
            rest = keep
        return out

    _vc = {}

    def vcache(self, t):
        r = self._vc.get(t.id)
        if r is None:
            r = self._vc[t.id] = frozenset(x.id for x in tm.walk([t]) if x.op == "var")
        return r

    def q(self, terms, mode, timeout, absmul=False, want_model=False):
        t0 = time.time()
        tr = Tr(mode); tr.absmul = absmul
        try:
            fs = [tr.b(t) for t in terms]
        except z3.Z3Exception as e:
            return "unknown", None, tr
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", self.seed)
        i = 0
        for f in fs: s.add(f)
        s.add(*tr.side)
        r = str(s.check())
        self.queries += 1
        self.secs += time.time() - t0
        m = s.model() if r == "sat" and want_model else None
        self._last = s
        return r, m, tr

    def feasible(self, st, c):
        key = (frozenset(st.pcset), c.id)
        r = self.fcache.get(key)
        if r is not None: return r
        pc = self.slice(st.pc, c)
        ts = pc + [c]
        real = has_real(ts)
        r, _, _ = self.q(ts, "abs" if real else "raw", 2.0)
        if r == "sat" and real:
            # the abstraction may be too coarse; try with definitions
            r2, _, _ = self.q(ts, "def", 2.0)
            if r2 == "unsat": r = r2
        ok = r != "unsat"
        self.fcache[key] = ok
        return ok

    def valid(self, st, c):
        return not self.feasible(st, tm.Not(c))

    def reachable(self, st):
        ts = list(st.pc)
        if not ts: return True
        try:
            if evalt.counterexample(ts, FALSE, [], seed=self.seed, tries=60, secs=1.0, fix=self.varsub(ts)) is not None: return True
        except RecursionError: pass
        r, _, _ = self.q(ts, "raw", 10.0)
        if r == "unknown":
            # concretise the inputs at random small values
            r = self.sample(ts)
        return r == "sat"

    def sample(self, ts):
        import random
        rnd = random.Random(self.seed)
        tr = Tr("raw")
        fs = [tr.b(t) for t in ts]
        vs = [x for x in tm.walk(ts) if x.op == "var" and x.s == "R"]
        for k in range(30):
            s = z3.Solver(); s.set("timeout", 1000)
            s.add(*fs); s.add(*tr.side)
            for v in vs: 
                if rnd.random() < 0.8: s.add(tr.b(v) == z3.Q(rnd.randint(-8, 8) if k % 2 else rnd.randint(1, 9), rnd.choice([1, 2, 4])))
            if str(s.check()) == "sat": return "sat"
        return "unknown"

    def unique(self, st, t):
        """the only value t can have on this path, or None"""
        s = z3.Solver(); s.set("timeout", 5000)
        tr = Tr("raw")
        for c in self.slice(st.pc, t): s.add(tr.b(c))
        e = tr.b(t)
        if str(s.check()) != "sat": return None
        v = s.model().eval(e, model_completion=True)
        s.add(e != v)
        if str(s.check()) == "unsat": return v.as_long()
        return None

    # -------------------------------------------------- obligations
    def discharge(self, ob, st):
        t0 = time.time()
        g = ob.goal
        key = (frozenset(st.pcset), g.id)
        c = self.cache.get(key)
        if c is not None:
            ob.status, ob.backend, ob.model = c
        else:
            ob.status, ob.backend, ob.model = self._dis(ob, st, g)
            if ob.status == "refuted" and g is not FALSE and st.pc and ob.backend in ("z3", "cvc5", "ring normaliser"):
                # the conditions the query left out must be satisfiable as well
                r, _, _ = self.q(list(st.pc), "raw", min(10, self.timeout))
                if r == "unsat": ob.status, ob.backend, ob.model = "proved", "z3", None
            if self.second is not None and ob.status == "proved" and g is not TRUE: self.confirm(ob, st)
            self.cache[key] = (ob.status, ob.backend, ob.model)
        ob.secs = time.time() - t0
        self.stats[(ob.status, ob.backend)] = self.stats.get((ob.status, ob.backend), 0) + 1
        if ob.status == "proved": ob.pc = None
        return ob

    def confirm(self, ob, st):
        """what was proved is judged again: by cvc5 (what z3 proved), by exact evaluation at points (the rest)"""
        def count(k): self.second[k] = self.second.get(k, 0) + 1
        if time.time() > self.second_end: return count("not judged again (time)")
        last = self._last if ob.backend == "z3" else None
        m = self.witness(ob, st, tries=20)
        if m is not None:
            count("falsified by evaluation"); ob.status = "unknown"; ob.model = m; ob.note = (ob.note or "") + " proved by %s but false at a point" % ob.backend
            return
        if last is None: return count("no counterexample by evaluation")
        r = self.cvc5(last, 5)
        if r == "sat" and not has_real(list(st.pc) + [ob.goal]):
            count("refuted by cvc5"); ob.status = "unknown"; ob.note = (ob.note or "") + " proved by z3 but refuted by cvc5"
        else: count("confirmed by cvc5" if r == "unsat" else "undecided by cvc5, no counterexample by evaluation")

    _last = None

    def _dis(self, ob, st, g):
        if g is TRUE: return "proved", "simplifier", None
        d = self.decide(st, g)
        if d is True: return "proved", "simplifier", None
        if g.op == "and":
            worst = ("proved", "simplifier", None)
            for x in g.a:
                r = self._dis(ob, st, x)
                if r[0] != "proved": return r
                if r[1] != "simplifier": worst = r
            return worst
        if g is not FALSE:
            ites = [x for x in tm.walk([g]) if x.op == "ite" and has_real([x])]
            if ites:
                sub = {}
                for x in ites:
                    d = self.decide(st, x.a[0])
                    if d is not None: sub[x.id] = x.a[1] if d else x.a[2]
                if sub: return self._dis(ob, st, tm.subst(g, sub))
                if any(x.op == "app" for x in tm.walk([g])) and len({x.a[0].id for x in ites}) <= 4:
                    # one case per outcome of the first condition
                    c = min(ites, key=lambda x: x.id).a[0]
                    worst = ("proved", "simplifier", None)
                    for y in (c, tm.Not(c)):
                        if not self.feasible(st, y): continue
                        r = self._dis(ob, Case(st, y), g)
                        if r[0] == "refuted": return r
                        if r[0] != "proved" or r[1] != "simplifier": worst = r if worst[0] == "proved" else worst
                    return worst
        pc = self.slice(st.pc, g) if g is not FALSE else list(st.pc)
        ringbad = False
        if g.op == "req" and sum(1 for _ in tm.walk([g])) > 250:
            m = self.witness(ob, st, tries=15)          # expanding a large difference takes long: first see whether it is one
            if m is not None: return "refuted", "evaluation", m
        if g.op == "req":
            try:
                den = set()
                sub = self.varsub(st.pc)
                if sub:
                    g = tm.req(tm.subst(g.a[0], sub), tm.subst(g.a[1], sub)) if g.op == "req" else g
                    if g is TRUE: return "proved", "simplifier", None
                    if g.op != "req": raise poly.TooBig()
                z = poly.is_zero(poly.padd(poly.nf(g.a[0]), poly.nf(g.a[1]), -1), den)
                if z:
                    self.divassume += len(den)
                    return "proved", "ring normaliser", None
                ringbad = True
            except poly.TooBig:
                pass
        if g.op == "eq" and isinstance(g.a[0].s, int):
            a, b = poly.bvnf(g.a[0]), poly.bvnf(g.a[1])
            if a == b: return "proved", "Z/2^n normaliser", None
        ng = tm.Not(g)
        real = has_real(pc + [ng])
        if g is FALSE:
            r, m, tr = self.q(pc, "raw", self.timeout, want_model=True)
            if r == "unsat": return "proved", "z3", None
            if r == "sat":
                if EXACT >= {x.a[0] for x in tm.walk(pc) if x.op == "app"}: return "refuted", "z3", self.modelvals(ob, m, tr)
                mv = self.witness(ob, st, at=(m, tr))
                if mv is None: mv = self.witness(ob, st)
                if mv is not None: return "refuted", "z3, evaluated", mv
                return "unknown", "z3", self.modelvals(ob, m, tr)
            if not has_real(pc):
                r = self.cvc5(self._last, self.timeout * 2)
                if r == "unsat": return "proved", "cvc5", None
            return "unknown", "z3+cvc5", None
        if real:
            if not ringbad:
                r, _, _ = self.q(pc + [ng], "abs", min(5, self.timeout))
                if r == "unsat": return "proved", "z3", None
            m = self.witness(ob, st)
            if m is not None: return "refuted", "evaluation", m
            r, m, tr = self.q(pc + [ng], "def", self.timeout, want_model=True)
            if r == "unsat": return "proved", "z3", None
            r, m, tr = self.q(pc + [ng], "raw", self.timeout, want_model=True)
            if r == "unsat": return "proved", "z3", None
            if r == "sat":
                if EXACT >= {x.a[0] for x in tm.walk(list(st.pc) + [g]) if x.op == "app"}: return "refuted", "z3", self.modelvals(ob, m, tr)
                # functions known by a few axioms only: the point has to be one where the obligation really fails
                mv = self.witness(ob, st, at=(m, tr))
                if mv is not None: return "refuted", "z3, evaluated", mv
                return "unknown", "z3", self.modelvals(ob, m, tr)
            if ringbad and not any(x.op == "app" for x in tm.walk([g])) and self.interior(pc):
                return "refuted", "ring normaliser", None
            return "unknown", "z3", None
        r, _, _ = self.q(pc + [ng], "raw", 5, absmul=True)
        if r == "unsat": return "proved", "z3", None
        m = self.witness(ob, st)
        if m is not None: return "refuted", "evaluation", m
        r, m, tr = self.q(pc + [ng], "raw", self.timeout, want_model=True)
        if r == "unsat": return "proved", "z3", None
        if r == "sat": return "refuted", "z3", self.modelvals(ob, m, tr)
        # second opinion
        r = self.cvc5(self._last, self.timeout * 2)
        if r == "unsat": return "proved", "cvc5", None
        if r == "sat": return "refuted", "cvc5", None
        return "unknown", "z3+cvc5", None

    def witness(self, ob, st, at=None, tries=80):
        t0 = time.time()
        try:
            if at is not None:
                m, tr = at; vals = {}
                for x in tm.walk(list(st.pc) + [ob.goal]):
                    if x.op != "var" or x.s in ("F32", "F64"): continue
                    e = m.eval(tr.b(x), model_completion=True)
                    if x.s == "R":
                        if z3.is_algebraic_value(e): e = e.approx(20)
                        vals[x.id] = Fraction(e.as_fraction())
                    elif x.s == "B": vals[x.id] = z3.is_true(e)
                    else: vals[x.id] = e.as_long()
                return evalt.counterexample(list(st.pc), ob.goal, ob.inputs, tries=1, at=vals)
            return evalt.counterexample(list(st.pc), ob.goal, ob.inputs, seed=self.seed, tries=tries, secs=2.0, fix=self.varsub(st.pc))
        except RecursionError:
            return None
        finally:
            self.secs += time.time() - t0

    def varsub(self, pc):
        """variables that the path condition equates with something not containing them"""
        sub = {}
        for c in pc:
            if c.op != "req": continue
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if x.op == "var" and x.id not in sub:
                    y = tm.subst(y, sub) if sub else y
                    if x.id in self.vcache(y): continue
                    for k in list(sub): sub[k] = tm.subst(sub[k], {x.id: y})
                    sub[x.id] = y
                    break
        return sub

    def interior(self, pc):
        """the path condition has interior points: a rational function that is not identically zero then fails on it"""
        def strict(t, pos):
            if t.op == "not": return strict(t.a[0], not pos)
            if t.op in ("and", "or") and t.s == "B":
                xs = [strict(x, pos) for x in t.a]
                if any(x is None for x in xs): return None
                return (tm.And(*xs) if (t.op == "and") == pos else tm.Or(*xs))
            if t.op == "req": return None if pos else tm.Not(t)
            if t.op in ("rlt", "rle"):
                return tm.rlt(t.a[0], t.a[1]) if pos else tm.rlt(t.a[1], t.a[0])
            if has_real([t]): return None
            return t if pos else tm.Not(t)
        xs = [strict(c, True) for c in pc]
        if any(x is None for x in xs): return False
        if not xs: return True
        return self.q(xs, "raw", 10)[0] == "sat"

    def cvc5(self, s, timeout):
        t0 = time.time()
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt); fn = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), fn], capture_output=True, text=True, timeout=timeout + 20)
            out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            out = "unknown"
        finally:
            os.unlink(fn)
        self.secs += time.time() - t0; self.queries += 1
        return out

    def modelvals(self, ob, m, tr):
        out = []
        for kind, v in ob.inputs:
            if kind == "h": continue
            if isk(v): out.append((kind, str(kval(v)))); continue
            try:
                e = m.eval(tr.b(v), model_completion=True)
                if v.s == "R":
                    if z3.is_algebraic_value(e): e = e.approx(20)
                    out.append((kind, repr(float(Fraction(e.as_fraction())))))
                elif v.s in ("F32", "F64"):
                    out.append((kind, repr(eval_fp(e))))
                else:
                    x = e.as_long(); out.append((kind, str(tm.signed(x, v.s) if kind != "b" else x)))
            except Exception as ex:
                out.append((kind, "0"))
        return out


def eval_fp(e):
    import struct
    b = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    if e.sort() == z3.Float64(): return struct.unpack(">d", struct.pack(">Q", b))[0]
    return struct.unpack(">f", struct.pack(">I", b))[0]
