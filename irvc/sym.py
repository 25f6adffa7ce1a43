"""Symbolic executor / verification-condition generator over LLVM IR."""
from fractions import Fraction
import math, re
from . import term as tm, poly
from .term import T, TRUE, FALSE, bv, isk, kval
from .ll import Unsupported, Ty, INT, PTR, DOUBLE, FLOAT, VOID


class Undef:
    def __repr__(self): return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o; self.off = off      # o: object id, None (null) or 'fn:<name>'; off: int or T

    def __repr__(self): return "&%s+%s" % (self.o, self.off)


NULL = Ptr(None, 0)


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ("p", "n")

    def __init__(self, p, n): self.p = p; self.n = n


class Agg:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v


class Blob:
    """uninterpreted bytes moved around as one value: [(off, size, val)]"""
    __slots__ = ("n", "c")

    def __init__(self, n, c): self.n = n; self.c = c


class Lazy:
    """bytes of a havocked object that nobody has looked at yet"""
    __slots__ = ("src", "off", "n")

    def __init__(self, src, off, n): self.src = src; self.off = off; self.n = n


class Obj:
    __slots__ = ("id", "size", "cells", "kind", "owner", "dead", "name", "ro")

    def __init__(self, id, size, kind, owner, name=""):
        self.id = id; self.size = size; self.cells = {}; self.kind = kind; self.owner = owner
        self.dead = False; self.name = name; self.ro = False


class Frame:
    __slots__ = ("f", "blk", "ix", "prev", "regs", "dst", "allocas", "mode", "rty", "nb")

    def __init__(self, f, dst, rty, mode=None, nb=None):
        self.f = f; self.blk = f.entry; self.ix = 0; self.prev = None; self.regs = {}; self.dst = dst
        self.allocas = []; self.mode = mode; self.rty = rty; self.nb = nb

    def copy(self):
        g = Frame.__new__(Frame)
        g.f = self.f; g.blk = self.blk; g.ix = self.ix; g.prev = self.prev; g.regs = dict(self.regs); g.dst = self.dst
        g.allocas = list(self.allocas); g.mode = self.mode; g.rty = self.rty; g.nb = self.nb
        return g


class Ob:
    __slots__ = ("name", "kind", "fn", "pc", "goal", "status", "backend", "secs", "model", "inputs", "note")

    def __init__(self, name, kind, fn, pc, goal, inputs):
        self.name = name; self.kind = kind; self.fn = fn; self.pc = pc; self.goal = goal; self.inputs = inputs
        self.status = None; self.backend = None; self.secs = 0; self.model = None; self.note = ""


class State:
    cnt = 0

    def __init__(self):
        State.cnt += 1
        self.sid = State.cnt
        self.frames = []; self.mem = {}; self.pc = []; self.pcset = set(); self.inputs = []; self.events = []
        self.path = []; self.dead = False; self.loops = {}
        self.poll = {}; self.seen = {}; self.cuts = {}; self.hints = []; self.out = []
        self.kept = False; self.round = 0

    def fork(self):
        State.cnt += 1
        s = State.__new__(State)
        s.sid = State.cnt
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.pcset = set(self.pcset)
        s.inputs = list(self.inputs); s.events = list(self.events); s.path = list(self.path); s.dead = False
        s.loops = dict(self.loops)
        s.poll = dict(self.poll); s.seen = dict(self.seen); s.cuts = dict(self.cuts); s.hints = list(self.hints); s.out = list(self.out)
        s.kept = self.kept; s.round = self.round
        if hasattr(self, "rk"): s.rk = self.rk; s.rn = self.rn
        # copy on write: both sides lose ownership
        State.cnt += 1
        self.sid = State.cnt
        return s


class PathEnd(Exception):
    pass


class Enough(Exception):
    """so many obligations failed that more of them add nothing"""


class Executor:
    def __init__(self, mod, solver, fpmode="real", nsw=False, subst=None, divzero=False, maxsteps=3000000, maxpaths=4000,
                 native_ok=True, uf=None, narrow=True):
        self.narrow = narrow
        self.m = mod; self.sv = solver; self.fp = fpmode; self.nsw = nsw; self.subst = subst or {}
        self.divzero = divzero
        self.maxsteps = maxsteps; self.maxpaths = maxpaths
        self.nrefuted = 0; self.maxrefuted = 4; self.obs = []; self.covers = {}; self.steps = 0; self.oid = 0; self.accesses = 0
        self.entered = {}; self.used_contracts = {}; self.externals = {}; self.paths = 0
        self.globobj = {}
        self.PB = mod.ptrbits
        self.assumed = []
        self.lemmas = {}
        self.uf = uf or {}
        self.nogen = self.generalized = self.havocked = False
        self.widen = {}; self.widened = False; self.restart = False     # loop cuts: place -> candidate invariants left; grown by restarts

    # ------------------------------------------------------------ objects
    def newobj(self, st, size, kind, name=""):
        self.oid += 1
        o = Obj(self.oid, size, kind, st.sid, name)
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.kind == "global" and self.keeps(o.name): st.kept = True
        if o.owner != st.sid:
            n = Obj(o.id, o.size, o.kind, st.sid, o.name)
            n.cells = dict(o.cells); n.dead = o.dead; n.ro = o.ro
            st.mem[oid] = n
            o = n
        return o

    def keeps(self, nm):
        """an object of the code under proof that outlives a call: a function's static, a variable of its namespaces, a template's"""
        return re.match(r'@"?(_ZGV|_ZZ|_ZN?K?(4core|3num|3dsp|3mcu|5std20|9atmega328))', nm) is not None

    def fail(self, st, name, kind, note=""):
        self.oblige(st, name, kind, FALSE, note)
        raise PathEnd()

    def oblige(self, st, name, kind, goal, note=""):
        fn = st.frames[-1].f.name if st.frames else ""
        ob = Ob(name, kind, fn, list(st.pc), goal, list(st.inputs)); ob.note = note
        self.obs.append(ob)
        self.sv.discharge(ob, st)
        if ob.status == "refuted":
            self.nrefuted += 1
            if self.nrefuted >= self.maxrefuted: raise Enough()
        return ob

    def assume(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c.op == "and":
            for x in c.a:
                if not self.assume(st, x): return False
            return True
        if c.id in st.pcset: return True
        if tm.Not(c).id in st.pcset: return False
        st.pc.append(c); st.pcset.add(c.id)
        return True

    # ------------------------------------------------------------ memory
    def chk(self, st, p, n, what):
        if isinstance(p, Undef): self.fail(st, "memory safety", "mem", what + " through an indeterminate pointer")
        if not isinstance(p, Ptr): raise Unsupported("pointer value %r" % (p,))
        if p.o is None: self.fail(st, "memory safety", "mem", what + " through a null pointer")
        if isinstance(p.o, str): raise Unsupported("access to function pointer")
        o = st.mem.get(p.o)
        if o is None: raise Unsupported("no object")
        self.accesses += 1
        if o.dead: self.fail(st, "memory safety", "mem", what + " of an object after its lifetime (%s)" % o.name)
        if isinstance(p.off, int):
            if p.off < 0 or p.off + n > o.size:
                self.fail(st, "memory safety", "mem", "%s of %d byte(s) at offset %d outside object %s of %d byte(s)" % (what, n, p.off, o.name, o.size))
        return o

    def symoffs(self, st, o, off, n):
        """symbolic offset: bounds obligation, then the list of candidate offsets"""
        w = off.s
        lim = o.size - n
        g = tm.And(tm.cmp("sle", bv(0, w), off), tm.cmp("sle", off, bv(lim, w))) if lim >= 0 else FALSE
        ob = self.oblige(st, "memory safety", "mem", g, "symbolic offset into %s" % o.name)
        if not self.assume(st, g): raise PathEnd()
        cands = list(range(0, lim + 1, n))
        if len(cands) > 600: raise Unsupported("symbolic index into a large object")
        mis = tm.eq(tm.bin2("urem", off, bv(n, w)), bv(0, w)) if (n & (n - 1)) else tm.eq(tm.bin2("and", off, bv(n - 1, w)), bv(0, w))
        r = self.sv.decide(st, mis)
        if r is not True:
            if not self.sv.valid(st, mis): raise Unsupported("unaligned symbolic offset")
        if len(cands) > 24:
            cands = [c for c in cands if self.sv.feasible(st, tm.eq(off, bv(c, w)))]
        return cands

    def load(self, st, p, ty):
        if isinstance(p, Ptr) and p.o == "mmio": return self.mmio_load(st, p, ty)
        n = self.m.size(ty)
        if isinstance(p, Ptr) and p.o is not None and not isinstance(p.off, int):
            p = Ptr(p.o, self.concretize(st, p.off))
        o = self.chk(st, p, n, "read")
        if isinstance(p.off, int):
            return self.rd(st, o, p.off, n, ty)
        cs = self.symoffs(st, o, p.off, n)
        r = None
        for c in reversed(cs):
            v = self.rd(st, o, c, n, ty)
            v = self.force(st, v, ty)
            r = v if r is None else self.ite(tm.eq(p.off, bv(c, p.off.s)), v, r)
        return r

    def concretize(self, st, off):
        if isk(off): return tm.signed(kval(off), off.s)
        return off

    def rd(self, st, o, off, n, ty):
        k = ty.k
        if k == "st":
            offs = self.m.layout(ty)[0]
            return Agg([self.rd(st, o, off + d, self.m.size(f), f) for d, f in zip(offs, ty.fs)])
        if k == "arr":
            es = self.m.size(ty.e)
            return Agg([self.rd(st, o, off + i * es, es, ty.e) for i in range(ty.n)])
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        pieces = self.pieces(o, off, n)
        if len(pieces) == 1 and pieces[0][1] == n: return pieces[0][2]
        if not pieces: return UNDEF
        if k == "i" and all(isinstance(v, T) and not isinstance(v.s, str) for (_, _, v) in pieces) and sum(s for _, s, _ in pieces) == n:
            r = None
            for (_, _, v) in sorted(pieces, key=lambda t: t[0]):
                r = v if r is None else tm.concat(v, r)
            if ty.n < 8: r = tm.extract(r, ty.n - 1, 0)
            return r
        return Blob(n, [(a - off, s, v) for a, s, v in pieces])

    def pieces(self, o, off, n):
        """non-overlapping pieces of [off,off+n) as (abs off, size, val)"""
        out = []
        end = off + n
        for a, (s, v) in sorted(o.cells.items()):
            if a + s <= off or a >= end: continue
            lo = max(a, off); hi = min(a + s, end)
            out.append((lo, hi - lo, self.part(v, lo - a, hi - lo, s)))
        return out

    def part(self, v, d, n, s):
        if d == 0 and n == s: return v
        if isinstance(v, T) and not isinstance(v.s, str):
            if v.s < 8 * s: v = tm.zext(v, 8 * s)
            return tm.extract(v, 8 * (d + n) - 1, 8 * d)
        if isinstance(v, Lazy): return Lazy(v.src, v.off + d, n)
        if isinstance(v, Undef): return v
        if isinstance(v, Blob):
            out = []
            for a, sz, x in v.c:
                if a + sz <= d or a >= d + n: continue
                lo = max(a, d); hi = min(a + sz, d + n)
                out.append((lo - d, hi - lo, self.part(x, lo - a, hi - lo, sz)))
            if len(out) == 1 and out[0][0] == 0 and out[0][1] == n: return out[0][2]
            return Blob(n, out)
        raise Unsupported("partial access to %r" % (v,))

    def wr_raw(self, o, off, n, v):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            # exact overwrite (cells never overlap)
            pass
        else:
            end = off + n
            for a in [a for a, (s, _) in o.cells.items() if a < end and a + s > off]:
                s, x = o.cells.pop(a)
                if a < off: o.cells[a] = (off - a, self.part(x, 0, off - a, s))
                if a + s > end: o.cells[end] = (a + s - end, self.part(x, end - a, a + s - end, s))
        if isinstance(v, Blob):
            o.cells.pop(off, None)
            for a, s, x in v.c: o.cells[off + a] = (s, x)
        elif isinstance(v, Undef):
            o.cells.pop(off, None)
        else:
            o.cells[off] = (n, v)

    def wr(self, st, o, off, ty, v):
        if isinstance(v, Agg):
            if ty.k == "st":
                for d, f, x in zip(self.m.layout(ty)[0], ty.fs, v.v): self.wr(st, o, off + d, f, x)
            else:
                es = self.m.size(ty.e)
                for i, x in enumerate(v.v): self.wr(st, o, off + i * es, ty.e, x)
            return
        if isinstance(v, T) and not isinstance(v.s, str) and ty.k == "i" and ty.n < 8:
            v = tm.zext(v, 8)
        if isinstance(v, T) and v.s == "B": v = tm.Ite(v, bv(1, 8), bv(0, 8))
        self.wr_raw(o, off, self.m.size(ty), v)

    def store(self, st, p, ty, v):
        if isinstance(p, Ptr) and p.o == "mmio": return self.mmio_store(st, p, ty, v)
        n = self.m.size(ty)
        if isinstance(p, Ptr) and p.o is not None and not isinstance(p.off, int):
            p = Ptr(p.o, self.concretize(st, p.off))
        o = self.chk(st, p, n, "write")
        if o.ro: self.fail(st, "memory safety", "mem", "write to constant object " + o.name)
        o = self.wobj(st, p.o)
        if isinstance(p.off, int):
            self.wr(st, o, p.off, ty, v)
            return
        cs = self.symoffs(st, o, p.off, n)
        v = self.force(st, v, ty)
        o = self.wobj(st, p.o)
        for c in cs:
            old = self.rd(st, o, c, n, ty)
            old = self.force(st, old, ty, undef_ok=True)
            nv = v if isinstance(old, Undef) and len(cs) == 1 else (UNDEF if isinstance(old, Undef) else self.ite(tm.eq(p.off, bv(c, p.off.s)), v, old))
            if isinstance(nv, Undef): raise Unsupported("symbolic write over indeterminate data")
            self.wr(st, o, c, ty, nv)

    def copybytes(self, st, d, s, n):
        if n == 0: return
        so = self.chk(st, s, n, "copy from"); do = self.chk(st, d, n, "copy to")
        if not isinstance(s.off, int) or not isinstance(d.off, int): raise Unsupported("symbolic memcpy")
        ps = self.pieces(so, s.off, n)
        do = self.wobj(st, d.o)
        self.wr_raw(do, d.off, n, UNDEF)
        for a, sz, v in ps: self.wr_raw(do, d.off + (a - s.off), sz, v)

    # ------------------------------------------------------------ mmio
    def device(self, st, p, vol):
        """address 0 is a device register (r0) when accessed as one; device registers are only accessed as volatile objects"""
        if vol and self.PB == 16 and isinstance(p, Ptr) and p.o is None: return Ptr("mmio", 0)
        if not vol and isinstance(p, Ptr) and p.o == "mmio":
            self.fail(st, "device access", "mem", "a device register is accessed as an ordinary object: the access may be dropped, merged or reordered")
        return p

    def mmio_addr(self, st, p):
        off = p.off
        if not isinstance(off, int):
            if isk(off): off = kval(off)
            else: raise Unsupported("symbolic device address")
        return off & ((1 << self.PB) - 1)

    def mmio_obj(self, st):
        if "mmio" not in st.mem:
            o = Obj("mmio", 1 << 16, "mmio", st.sid, "device registers")
            st.mem["mmio"] = o
        return self.wobj(st, "mmio")

    def mmio_load(self, st, p, ty):
        a = self.mmio_addr(st, p); n = self.m.size(ty)
        if a in st.poll and n == 1: return self.poll_load(st, a)
        o = self.mmio_obj(st)
        for k in range(n):
            if not self.pieces(o, a + k, 1): o.cells[a + k] = (1, tm.var("mmio%s_%04x" % ("2" if st.round else "", a + k), 8))
        v = self.force(st, self.rd(st, o, a, n, ty), ty)
        st.events.append(("r", a, n, v))
        return v

    def poll_load(self, st, a):
        """a register that the device changes: any value.  Successive reads are recorded as one, the last.
        A state that differs from the one at the previous read of the same loop only in the value then read is
        covered by it (every concrete state it stands for is one of those), and need not be followed again."""
        key = (a,) + tuple((f.f.name, f.blk, f.ix) for f in st.frames)
        old = st.seen.get(key); last = st.poll[a]
        if old is not None and old[0] is not None and last is not None and old[0] is not last and self.revisit(st, old, last): raise PathEnd()
        st.seen[key] = (last, [(f.prev, dict(f.regs), list(f.allocas)) for f in st.frames],
                        {i: dict(o.cells) for i, o in st.mem.items() if not o.dead}, list(st.events), list(st.pc))
        v = tm.var("in%d_i8" % len(st.inputs), 8); st.inputs.append(("i8", v))
        st.poll[a] = v
        if st.events and st.events[-1][:3] == ("r", a, 1): st.events[-1] = ("r", a, 1, v)
        else: st.events.append(("r", a, 1, v))
        return v

    def revisit(self, st, old, last):
        plast, frames, mem, events, pc = old
        sub = {plast.id: last}; ids = {}; memo = {}
        if len(frames) != len(st.frames) or len(events) != len(st.events): return False

        def term(x):
            if x.id not in memo: memo[x.id] = tm.subst(x, sub)
            return memo[x.id]

        def off(x): return x if isinstance(x, int) else term(x)

        def same(x, y):
            if x is y and not isinstance(x, T): return True
            if type(x) is not type(y): return False
            if isinstance(x, T): return term(x) is y
            if isinstance(x, Ptr): return (ids.get(x.o, x.o) == y.o or (dead_old(x.o) and dead(y.o))) and (off(x.off) is y.off or off(x.off) == y.off)
            if isinstance(x, PInt): return x.n == y.n and same(x.p, y.p)
            if isinstance(x, Agg): return len(x.v) == len(y.v) and all(same(p, q) for p, q in zip(x.v, y.v))
            if isinstance(x, Blob): return x.n == y.n and len(x.c) == len(y.c) and all(p[0] == q[0] and p[1] == q[1] and same(p[2], q[2]) for p, q in zip(x.c, y.c))
            if isinstance(x, Lazy): return (x.src, x.off, x.n) == (y.src, y.off, y.n)
            if isinstance(x, Undef): return True
            return x == y

        def dead_old(i): return i is not None and not isinstance(i, str) and i not in mem
        def dead(i): return i is not None and not isinstance(i, str) and (i not in st.mem or st.mem[i].dead)
        for (prev, regs, al), f in zip(frames, st.frames):
            if len(al) != len(f.allocas): return False
            ids.update(zip(al, f.allocas))
        for (prev, regs, al), f in zip(frames, st.frames):
            if prev != f.prev or set(regs) != set(f.regs) or not all(same(regs[r], f.regs[r]) for r in regs): return False
        live = {i for i, o in st.mem.items() if not o.dead}
        if {ids.get(i, i) for i in mem} != live: return False
        for i, cells in mem.items():
            c = st.mem[ids.get(i, i)].cells
            if set(cells) != set(c) or not all(cells[k][0] == c[k][0] and same(cells[k][1], c[k][1]) for k in cells): return False
        for x, y in zip(events, st.events):
            if x[:3] != y[:3] or (x[3] is None) != (y[3] is None) or (x[3] is not None and not same(x[3], y[3])): return False
        return all(term(c).id in st.pcset or term(c) is TRUE for c in pc)

    # ------------------------------------------------------------ loop cuts
    # The specification asks vc_loop_visit() at a point that every turn of a loop passes.  A point (call stack) is passed
    # freely the first time; the second time is the cut: the driver proves its invariant, makes its own ghost state and the
    # iterator arbitrary within it (vc_loop_cut; vc_loop_settle records everything else); the third time the invariant is proved again and
    # vc_loop_back compares all remaining memory and registers with those at the cut.  What differs is made arbitrary at the
    # cut too (within candidate relations to the driver's hints that turn out inductive) and the proof starts over.
    def places(self, st, depth):
        out = {}
        for d in range(depth):
            f = st.frames[d]
            for r, v in f.regs.items(): out[("r", d, r)] = v
            for i, oid in enumerate(f.allocas):
                o = st.mem[oid]
                if not o.dead:
                    for a, (n, v) in o.cells.items(): out[("a", d, i, a, n)] = v
        for nm, oid in self.globobj.items():
            o = st.mem.get(oid)
            if o is not None and not o.ro:
                for a, (n, v) in o.cells.items(): out[("g", nm, a, n)] = v
        for i, o in st.mem.items():
            if o.kind == "heap" and not o.dead:
                for a, (n, v) in o.cells.items(): out[("h", i, a, n)] = v
        o = st.mem.get("mmio")
        if o is not None:
            for a, (n, v) in o.cells.items(): out[("m", a, n)] = v
        return out

    def put_place(self, st, k, v):
        if k[0] == "r": st.frames[k[1]].regs[k[2]] = v; return
        if k[0] == "a": oid, a, n = st.frames[k[1]].allocas[k[2]], k[3], k[4]
        elif k[0] == "g": oid, a, n = self.globobj[k[1]], k[2], k[3]
        else: raise Unsupported("loop changes heap or device state")
        self.wr_raw(self.wobj(st, oid), a, n, v)

    def loop_key(self, st): return tuple((f.f.name, f.blk, f.ix) for f in st.frames[:-1])

    def loop_visit(self, st):
        c = st.cuts.get(self.loop_key(st))
        n = 0 if c is None else c[0]
        if n < 2: st.cuts[self.loop_key(st)] = (n + 1, None)
        if n == 1: st.hints = []; st.cuts["pre"] = self.places(st, len(st.frames) - 1)
        if n == 2: st.hints = []
        return min(n, 2)

    def loop_cut(self, st):
        key = self.loop_key(st)
        pre = st.cuts.pop("pre"); now = self.places(st, len(st.frames) - 1)
        mine = {k for k in now if k not in pre or not self.samev(pre[k], now[k])} - {k for k in now if k[0] == "r"}
        rel = {}
        for (kk, place), cands in sorted(self.widen.items(), key=repr):
            if kk != key or place in mine: continue
            self.widened = True
            x0 = now.get(place); x = None
            if isinstance(x0, T) and (isinstance(x0.s, int) or x0.s in ("R", "B")):
                x = tm.var("w%d_%d" % (len(st.path), len(rel)), x0.s)
            elif x0 is not None: x = UNDEF
            if x is not None: self.put_place(st, place, x)
            rel[place] = (x0, x)
        st.path.append("w")
        st.cuts["mid"] = (mine, rel, st.hints); st.hints = []

    def loop_settle(self, st):
        """the candidate relations, with the hints as they are after the cut"""
        key = self.loop_key(st)
        mine, rel, h0 = st.cuts.pop("mid"); h1 = st.hints
        out = {}
        for place, (x0, x) in rel.items():
            keep = {}
            if isinstance(x, T):
                cands = self.widen[(key, place)]
                if cands is None:
                    cands = self.widen[(key, place)] = {c for c in self.loop_cands(x0, h0) if self.sv.valid(st, self.loop_cand(c, x0, h0, x0, h0))}
                for c in sorted(cands):
                    if not self.assume(st, self.loop_cand(c, x, h1, x0, h0)): raise PathEnd()
                    keep[c] = (x0, h0)
            out[place] = (keep, x)
        st.cuts[key] = (2, (self.places(st, len(st.frames) - 1), mine, out))

    def samev(self, x, y):
        if x is y: return True
        if type(x) is not type(y): return False
        if isinstance(x, T): return False
        if isinstance(x, Ptr): return x.o == y.o and (x.off is y.off or (isinstance(x.off, int) and x.off == y.off))
        if isinstance(x, PInt): return x.n == y.n and self.samev(x.p, y.p)
        if isinstance(x, Agg): return len(x.v) == len(y.v) and all(self.samev(p, q) for p, q in zip(x.v, y.v))
        if isinstance(x, Blob): return x.n == y.n and len(x.c) == len(y.c) and all(p[0] == q[0] and p[1] == q[1] and self.samev(p[2], q[2]) for p, q in zip(x.c, y.c))
        if isinstance(x, Lazy): return (x.src, x.off, x.n) == (y.src, y.off, y.n)
        return isinstance(x, Undef)

    def loop_cands(self, x0, h): return [(k, i) for i in range(len(h)) for k in (("up", "down", "zero", "nonzero") if isinstance(x0.s, int) else ())] + ([("bit", 0)] if x0.s == 8 else [])

    def loop_cand(self, c, x, h, x0, h0):
        k, i = c; w = x.s
        if k == "bit": return tm.cmp("ule", x, bv(1, 8))
        fit = lambda t: tm.extract(t, w - 1, 0) if t.s > w else tm.sext(t, w) if t.s < w else t
        a, b = h[i], h0[i]
        if k == "up": return tm.eq(tm.sub(x, fit(a)), tm.sub(x0, fit(b)))
        if k == "down": return tm.eq(tm.add(x, fit(a)), tm.add(x0, fit(b)))
        z = tm.eq(x, bv(0, w)); y = tm.eq(a, bv(0, a.s))
        return tm.Not(tm.Xor(z, y if k == "zero" else tm.Not(y)))

    def loop_back(self, st):
        key = self.loop_key(st)
        snap, mine, rel = st.cuts[key][1]
        now = self.places(st, len(st.frames) - 1)
        for k in set(snap) | set(now):
            if k in mine: continue
            if k[0] == "h": 
                if k in snap and k in now and self.samev(snap[k], now[k]): continue
                if k not in snap: continue
                raise Unsupported("loop changes heap state")
            if k in rel:
                cands, x = rel[k]; v = now.get(k)
                for c, (x0, h0) in cands.items():
                    if not isinstance(v, T) or v.s != x.s or not self.sv.valid(st, self.loop_cand(c, v, st.hints, x0, h0)):
                        self.widen[(key, k)] = self.widen[(key, k)] - {c}; self.restart = True
                continue
            if k in snap and k in now and self.samev(snap[k], now[k]): continue
            if k not in snap and k[0] == "r": continue          # set in this turn only, before any use
            if (key, k) not in self.widen: self.widen[(key, k)] = None; self.restart = True
        raise PathEnd()

    def mmio_store(self, st, p, ty, v):
        a = self.mmio_addr(st, p); n = self.m.size(ty)
        v = self.force(st, v, ty)
        o = self.mmio_obj(st)
        self.wr(st, o, a, ty, v)
        # keep byte cells
        for k in range(n):
            pass
        st.events.append(("w", a, n, v))

    # ------------------------------------------------------------ values
    def ite(self, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                if a.off == b.off: return a
                x = a.off if isinstance(a.off, T) else bv(a.off, self.PB)
                y = b.off if isinstance(b.off, T) else bv(b.off, self.PB)
                return Ptr(a.o, tm.Ite(c, x, y))
            raise Unsupported("ite over pointers")
        return tm.Ite(c, a, b)

    def force(self, st, v, ty, undef_ok=False):
        """value -> usable term of type ty"""
        if isinstance(v, (Ptr, PInt)): return v
        if isinstance(v, T):
            k = ty.k
            if k == "i":
                if v.s == "B": return v if ty.n == 1 else tm.Ite(v, bv(1, ty.n), bv(0, ty.n))
                if isinstance(v.s, int):
                    if ty.n == 1: return tm.eq(tm.extract(v, 0, 0), bv(1, 1))
                    if v.s != ty.n: return tm.extract(v, ty.n - 1, 0) if v.s > ty.n else tm.zext(v, ty.n)
                    return v
                if v.s in ("F32", "F64"): return tm.mk("fp2bits", (v,), ty.n)
                raise Unsupported("real number reinterpreted as integer")
            if k in ("double", "float"):
                if v.s in ("R", "F32", "F64"): return v
                if self.fp == "fp": return tm.mk("bits2fp", (v,), "F64" if k == "double" else "F32")
                if isk(v) and kval(v) == 0: return self.zero(ty)
                raise Unsupported("integer reinterpreted as real")
            return v
        if isinstance(v, Undef):
            if undef_ok: return v
            return v
        if isinstance(v, Lazy):
            return self.lazyvar(v, ty)
        if isinstance(v, Blob):
            if ty.k == "i":
                r = None; pos = 0
                for a, s, x in sorted(v.c, key=lambda t: t[0]):
                    if a != pos: return UNDEF
                    x = self.force(st, x, INT(8 * s))
                    if not isinstance(x, T): return UNDEF
                    r = x if r is None else tm.concat(x, r)
                    pos = a + s
                if pos != v.n: return UNDEF
                return self.force(st, r, ty)
            if sum(sz for _, sz, _ in v.c) == v.n and all(self.iszero(x) for _, _, x in v.c): return self.zero(ty)
            if sum(sz for _, sz, _ in v.c) < v.n: return UNDEF
            raise Unsupported("bytes reinterpreted as %r" % ty)
        if isinstance(v, Agg): return v
        raise Unsupported("force %r" % (v,))

    def iszero(self, x):
        if isinstance(x, T) and isk(x): return kval(x) == 0
        if isinstance(x, Ptr): return x.o is None and x.off == 0
        return False

    def lazyvar(self, v, ty):
        if ty.k == "i": return tm.var("%s+%d:%d" % (v.src, v.off, v.n * 8), v.n * 8) if ty.n >= 8 else tm.eq(tm.extract(tm.var("%s+%d:%d" % (v.src, v.off, v.n * 8), v.n * 8), 0, 0), bv(1, 1))
        if ty.k in ("double", "float"):
            s = "R" if self.fp == "real" else ("F64" if ty.k == "double" else "F32")
            return tm.var("%s+%d:%s" % (v.src, v.off, s), s)
        raise Unsupported("pointer inside an arbitrary object")

    def use(self, st, v, ty, what):
        v = self.force(st, v, ty)
        if isinstance(v, Undef):
            self.fail(st, "no indeterminate value used", "undef", what)
        return v

    def const(self, st, v, ty):
        k = v[0]
        if k == "int":
            if ty.k == "i":
                return tm.boolk(v[1] & 1) if ty.n == 1 else bv(v[1], ty.n)
            if ty.k == "ptr": return Ptr(None, v[1])
        if k == "fp":
            if isinstance(v[1], str): return self.special(v[1], ty)
            if self.fp == "real": return tm.litreal(v[1], ty.k == "float")
            return tm.mk("k", (v[1],), "F64" if ty.k == "double" else "F32")
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero": return self.zero(ty)
        if k == "glob": return self.globptr(st, v[1])
        if k == "agg": return Agg([self.const(st, x, t) for t, x in v[1]])
        if k == "bytes": return Agg([bv(b, 8) for b in v[1]])
        if k == "gep":
            return self.gep(st, v[1], self.const(st, v[2], PTR), [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == "cast":
            _, op, t, x, t2 = v
            return self.cast(st, op, t, self.const(st, x, t), t2)
        if k == "bin":
            _, op, t, a, b = v
            return self.binop(st, op, t, self.const(st, a, t), self.const(st, b, t), ())
        if k == "meta": return None
        raise Unsupported("constant %r" % (v,))

    def special(self, s, ty):
        if self.fp == "real":
            raise Unsupported("%s constant" % s)
        return tm.mk("k", (s,), "F64" if ty.k == "double" else "F32")

    def zero(self, ty):
        if ty.k == "i": return FALSE if ty.n == 1 else bv(0, ty.n)
        if ty.k in ("double", "float"):
            return tm.ZERO_R if self.fp == "real" else tm.mk("k", (Fraction(0),), "F64" if ty.k == "double" else "F32")
        if ty.k == "ptr": return NULL
        if ty.k == "st": return Agg([self.zero(f) for f in ty.fs])
        if ty.k in ("arr", "vec"): return Agg([self.zero(ty.e) for _ in range(ty.n)])
        raise Unsupported("zero %r" % ty)

    def globptr(self, st, nm):
        if nm in self.m.funcs and nm not in self.m.globs: return Ptr("fn:" + nm, 0)
        oid = self.globobj.get(nm)
        if oid is None:
            self.oid += 1
            oid = self.globobj[nm] = self.oid
        if oid not in st.mem:
            g = self.m.glob(nm)
            if g is None: raise Unsupported("global " + nm)
            o = Obj(oid, self.m.size(g[1]), "global", st.sid, nm)
            st.mem[oid] = o
            if g[2] is not None:
                v = self.const(st, g[2], g[1])
                self.wr(st, o, 0, g[1], v)
                o.ro = bool(g[3])
            else:
                if "_ZTV" in nm or "_ZSt" in nm or "_ZTI" in nm: pass
                else: o.cells[0] = (o.size, Lazy("g" + nm, 0, o.size))
        return Ptr(oid, 0)

    def val(self, st, v, ty):
        if v[0] == "reg":
            r = st.frames[-1].regs.get(v[1])
            if r is None: raise Unsupported("register " + v[1])
            return r
        return self.const(st, v, ty)

    # ------------------------------------------------------------ ops
    def gep(self, st, bt, p, idx):
        if isinstance(p, Undef): return p
        if isinstance(p, PInt): p = p.p
        off = p.off
        t = bt
        first = True
        for it, iv in idx:
            if first:
                sz = self.m.size(t); first = False
                off = self.addoff(st, off, iv, it, sz)
            else:
                if t.k == "st":
                    i = kval(iv)
                    off = self.addk(off, self.m.layout(t)[0][i]); t = t.fs[i]
                else:
                    t = t.e
                    off = self.addoff(st, off, iv, it, self.m.size(t))
        return Ptr(p.o, off)

    def addk(self, off, k):
        if isinstance(off, int): return off + k
        return tm.add(off, bv(k, off.s))

    def addoff(self, st, off, iv, it, sz):
        if isinstance(iv, Undef): self.fail(st, "no indeterminate value used", "undef", "array index")
        iv = self.force(st, iv, it)
        if isinstance(iv, Undef): self.fail(st, "no indeterminate value used", "undef", "array index")
        if isinstance(iv, PInt): raise Unsupported("pointer as index")
        if iv.s == "B": iv = tm.Ite(iv, bv(1, 8), bv(0, 8))
        if isk(iv):
            return self.addk(off, tm.signed(kval(iv), iv.s) * sz)
        w = self.PB
        x = tm.sext(iv, w) if iv.s < w else (tm.extract(iv, w - 1, 0) if iv.s > w else iv)
        x = tm.mul(x, bv(sz, w))
        if isinstance(off, int): r = tm.add(x, bv(off, w))
        else: r = tm.add(off, x)
        if isk(r): return tm.signed(kval(r), w)
        return r

    def offt(self, off):
        return off if isinstance(off, T) else bv(off, self.PB)

    def binop(self, st, op, ty, a, b, flags):
        if ty.k == "vec": raise Unsupported("vector arithmetic")
        a = self.force(st, a, ty); b = self.force(st, b, ty)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt) and a.p.o == b.p.o:
                return tm.sub(self.offt(a.p.off), self.offt(b.p.off))
            if op in ("add",) and isinstance(a, PInt) and isinstance(b, T):
                return PInt(Ptr(a.p.o, tm.add(self.offt(a.p.off), b)), a.n)
            raise Unsupported("pointer arithmetic through integers")
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        n = ty.n
        if n == 1:
            if op in ("and", "mul"): return tm.And(a, b)
            if op == "or": return tm.Or(a, b)
            if op in ("xor", "add", "sub"): return tm.Xor(a, b)
            raise Unsupported("i1 " + op)
        if self.nsw and "nsw" in flags and not (isk(a) and isk(b)):
            w = {"mul": 2 * n}.get(op, n + 1)
            if op in ("add", "sub", "mul"):
                f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op]
                wide = f(tm.sext(a, w), tm.sext(b, w))
                lo = bv(-(1 << (n - 1)), w); hi = bv((1 << (n - 1)) - 1, w)
                if tm.sbits(wide) > n: self.oblige(st, "no signed overflow", "overflow", tm.And(tm.cmp("sle", lo, wide), tm.cmp("sle", wide, hi)), op + " i%d" % n)
                else: self.oblige(st, "no signed overflow", "overflow", TRUE, op + " i%d" % n)
                if tm.sbits(wide) > n: self.assume(st, tm.And(tm.cmp("sle", lo, wide), tm.cmp("sle", wide, hi)))
        if op == "add": return tm.add(a, b)
        if op == "sub": return tm.sub(a, b)
        if op == "mul": return tm.mul(a, b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            g = tm.Not(tm.eq(b, bv(0, n)))
            if g is not TRUE:
                self.oblige(st, "no division by zero", "div0", g)
                if not self.assume(st, g): raise PathEnd()
            if op in ("sdiv", "srem") and self.nsw and not (isk(a) and isk(b)):
                g = tm.Not(tm.And(tm.eq(a, bv(1 << (n - 1), n)), tm.eq(b, bv(-1, n))))
                if g is not TRUE: self.oblige(st, "no signed overflow", "overflow", g, op)
        if op in ("shl", "lshr", "ashr"):
            g = tm.cmp("ult", b, bv(n, n))
            if g is not TRUE:
                self.oblige(st, "shift count in range", "shift", g)
                if not self.assume(st, g): raise PathEnd()
        return tm.bin2(op, a, b)

    def fty(self, ty):
        if self.fp == "real": return "R"
        return "F64" if ty.k == "double" else "F32"

    def fbin(self, st, op, ty, a, b):
        if ty.k == "vec":
            return self.vecmap(st, ty, [a, b], lambda x, y: self.fbin(st, op, ty.e, x, y))
        a = self.force(st, a, ty); b = self.force(st, b, ty)
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if self.fp != "real":
            if op in ("fadd", "fmul") and isinstance(a, T) and isinstance(b, T) and b.id < a.id: a, b = b, a      # commute
            return tm.mk("fp." + op[1:], (a, b), self.fty(ty))
        if op == "fadd": return tm.radd(a, b)
        if op == "fsub": return tm.rsub(a, b)
        if op == "fmul": return tm.rmul(a, b)
        if op == "fdiv":
            if self.divzero and not (isk(b) and kval(b) != 0):
                g = tm.Not(tm.req(b, tm.ZERO_R))
                self.oblige(st, "no division by zero", "div0", g)
                if not self.assume(st, g): raise PathEnd()
            return tm.rdiv(a, b)
        raise Unsupported(op)

    def vecvals(self, st, v, ty):
        if isinstance(v, Agg): return v.v
        if isinstance(v, Blob):
            es = self.m.size(ty.e); out = []
            for i in range(ty.n):
                x = self.part(v, i * es, es, v.n)
                out.append(UNDEF if isinstance(x, Blob) and not x.c else x)
            return out
        if isinstance(v, Lazy):
            es = self.m.size(ty.e)
            return [Lazy(v.src, v.off + i * es, es) for i in range(ty.n)]
        if isinstance(v, Undef): return [UNDEF] * ty.n
        raise Unsupported("vector value %r" % (v,))

    def vecmap(self, st, ty, vs, f):
        vs = [self.vecvals(st, v, ty) for v in vs]
        return self.mkvec(ty, [f(*xs) for xs in zip(*vs)])

    def mkvec(self, ty, vals):
        es = self.m.size(ty.e)
        return Blob(es * ty.n, [(i * es, es, v) for i, v in enumerate(vals) if not isinstance(v, Undef)])

    def fcmp(self, st, pred, ty, a, b):
        a = self.use(st, a, ty, "floating comparison"); b = self.use(st, b, ty, "floating comparison")
        if self.fp != "real":
            if pred == "ord": return tm.And(tm.Not(tm.mk("fp.isnan", (a,), "B")), tm.Not(tm.mk("fp.isnan", (b,), "B")))
            if pred == "uno": return tm.Or(tm.mk("fp.isnan", (a,), "B"), tm.mk("fp.isnan", (b,), "B"))
            o = pred[1:]
            if o in ("gt", "ge"): a, b = b, a; o = {"gt": "lt", "ge": "le"}[o]
            if o == "ne":
                r = tm.Not(tm.mk("fp.eq", (a, b), "B"))
                if pred[0] == "o": r = tm.And(r, self.fcmp(st, "ord", ty, a, b))
                return r
            r = tm.mk("fp." + o, (a, b), "B")
            if pred[0] == "u": r = tm.Or(r, self.fcmp(st, "uno", ty, a, b))
            return r
        if pred == "ord" or pred == "true": return TRUE
        if pred == "uno" or pred == "false": return FALSE
        o = pred[1:]
        if o == "eq": return tm.req(a, b)
        if o == "ne": return tm.Not(tm.req(a, b))
        if o == "lt": return tm.rlt(a, b)
        if o == "le": return tm.rle(a, b)
        if o == "gt": return tm.rlt(b, a)
        if o == "ge": return tm.rle(b, a)
        raise Unsupported("fcmp " + pred)

    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr":
            a = self.force(st, a, ty); b = self.force(st, b, ty)
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.fail(st, "no indeterminate value used", "undef", "pointer comparison")
            if a.o != b.o:
                if pred == "eq": return FALSE
                if pred == "ne": return TRUE
                raise Unsupported("ordering of unrelated pointers")
            if isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
                return tm.boolk({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                                 "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred])
            a, b = self.offt(a.off), self.offt(b.off)
            if pred[0] == "u": pred = "s" + pred[1:]
        else:
            a = self.use(st, a, ty, "integer comparison"); b = self.use(st, b, ty, "integer comparison")
            if isinstance(a, PInt) or isinstance(b, PInt):
                if isinstance(a, PInt) and isinstance(b, PInt): return self.icmp(st, pred, PTR, a.p, b.p)
                if isinstance(a, T) and isk(a) and kval(a) == 0: return tm.boolk(pred == "ne")
                if isinstance(b, T) and isk(b) and kval(b) == 0: return tm.boolk(pred == "ne")
                raise Unsupported("pointer/integer comparison")
        if pred == "eq": return tm.eq(a, b)
        if pred == "ne": return tm.Not(tm.eq(a, b))
        if a.s == "B":
            a = tm.Ite(a, bv(1, 2), bv(0, 2)); b = tm.Ite(b, bv(1, 2), bv(0, 2))
        if pred[1:] in ("gt", "ge"):
            a, b = b, a
            pred = pred[0] + {"gt": "lt", "ge": "le"}[pred[1:]]
        return tm.cmp(pred, a, b)

    def cast(self, st, op, t, v, t2):
        if t.k == "vec" or t2.k == "vec":
            if op == "bitcast": return v
            return self.mkvec(t2, [self.cast(st, op, t.e, x, t2.e) for x in self.vecvals(st, v, t)])
        if op in ("bitcast", "addrspacecast"):
            if t.k == t2.k: return v
            return v
        v = self.force(st, v, t)
        if isinstance(v, Undef): return v
        if op == "ptrtoint": return PInt(v, t2.n)
        if op == "inttoptr":
            if isinstance(v, PInt): return v.p
            return Ptr("mmio", kval(v) if isk(v) else v) if not (isk(v) and kval(v) == 0) else NULL
        if isinstance(v, PInt):
            if op in ("zext", "sext", "trunc"): return PInt(v.p, t2.n)
            raise Unsupported("cast of pointer integer")
        if op in ("zext", "sext", "trunc"):
            if v.s == "B":
                if t2.n == 1: return v
                return tm.Ite(v, bv(1 if op != "sext" else -1, t2.n), bv(0, t2.n))
            if op == "trunc":
                r = tm.extract(v, t2.n - 1, 0)
                return tm.eq(r, bv(1, 1)) if t2.n == 1 else r
            return tm.zext(v, t2.n) if op == "zext" else tm.sext(v, t2.n)
        if op in ("sitofp", "uitofp"):
            if v.s == "B": v = tm.Ite(v, bv(1, 8), bv(0, 8)); op = "uitofp"
            if self.fp != "real":
                return tm.mk("fp.s" if op == "sitofp" else "fp.u", (v,), self.fty(t2))
            if isk(v): return tm.real(tm.signed(kval(v), v.s) if op == "sitofp" else kval(v))
            if v.op == "ite" and isk(v.a[1]) and isk(v.a[2]):
                return tm.Ite(v.a[0], self.cast(st, op, t, v.a[1], t2), self.cast(st, op, t, v.a[2], t2))
            if v.op == "sext" and op == "sitofp": v = v.a[0]
            elif v.op == "zext": v = v.a[0]; op = "uitofp"
            if op == "sitofp" and v.op == "neg" and self.sv.valid(st, tm.Not(tm.eq(v.a[0], tm.bv(1 << (v.s - 1), v.s)))):
                return tm.rneg(tm.mk("s2r", (v.a[0],), "R"))
            return tm.mk("s2r" if op == "sitofp" else "u2r", (v,), "R")
        if op in ("fptosi", "fptoui"):
            if self.fp != "real":
                n = t2.n; lo = -(1 << (n - 1)) if op == "fptosi" else 0; hi = (1 << (n - 1 if op == "fptosi" else n)) - 1
                if self.nsw:
                    # truncation must fit: lo-1 < v < hi+1 (lo <= v where lo-1 is not representable)
                    K = lambda x: tm.mk("k", (Fraction(x),), v.s)
                    mant = 53 if v.s == "F64" else 24
                    g1 = tm.mk("fp.lt", (K(lo - 1), v), "B") if n < mant else tm.mk("fp.le", (K(lo), v), "B")
                    g = tm.And(g1, tm.mk("fp.lt", (v, K(hi + 1)), "B"))
                    self.oblige(st, "conversion to integer fits", "overflow", g, "i%d" % n)
                    if not self.assume(st, g): raise PathEnd()
                return tm.mk("fp.to" + op[4], (v,), n)
            if isk(v): return bv(int(kval(v)), t2.n)
            if v.op == "ite" and (isk(v.a[1]) or isk(v.a[2])):
                return tm.Ite(v.a[0], self.cast(st, op, t, v.a[1], t2), self.cast(st, op, t, v.a[2], t2))
            return tm.mk("r2s", (v, t2.n), t2.n)
        if op in ("fpext", "fptrunc"):
            if self.fp == "real":
                # double stands for the numeric type asked for: rounding to a shorter one in between is a loss of precision
                if op == "fptrunc" and not self.narrow and not (isk(v) and kval(v).denominator <= 4096):
                    self.oblige(st, "no loss of precision (double narrowed to float)", "narrow", FALSE)
                return v
            if t.k == t2.k: return v
            return tm.mk("fp.cvt", (v,), self.fty(t2))
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ running
    def run(self, fname, setup=None):
        f = self.m.funcs.get(fname)
        if f is None or not f.defined: raise Unsupported("no function " + fname)
        self.m.parse_body(f)
        st = State()
        fr = Frame(f, None, f.ret, "verify")
        st.frames.append(fr)
        lemma = fname.startswith("@vc_lemma_")
        for i, (t, at, reg) in enumerate(f.params):
            if not lemma: raise Unsupported("harness with parameters")
            if t.k in ("double", "float") and self.fp == "real": v = tm.var("p%d" % i, "R")
            elif t.k == "i" and t.n > 1: v = tm.var("p%d" % i, t.n)
            else: raise Unsupported("lemma parameter %r" % t)
            fr.regs[reg if reg else "%" + str(i)] = v
        if not lemma:
            for c in reversed(self.m.ctors()):
                g = self.m.funcs.get(c)
                if g is not None and g.defined: self.m.parse_body(g); st.frames.append(Frame(g, None, g.ret, None))
        work = [st]
        self.work = work
        while work:
            s = work.pop()
            self.paths += 1
            if self.paths > self.maxpaths: raise Unsupported("path budget exhausted")
            try:
                self.exec(s)
            except PathEnd:
                pass
        return self

    def bind_call(self, st, f, args, dst, rty, mode=None, nb=None):
        self.m.parse_body(f)
        fr = Frame(f, dst, rty, mode, nb)
        for i, (t, at, reg) in enumerate(f.params):
            v = args[i][1]
            if "byval" in at and isinstance(v, Ptr):
                bt = at["byval"]
                n = self.m.size(bt)
                o = self.newobj(st, n, "stack", "byval")
                self.copybytes(st, Ptr(o.id, 0), v, n)
                fr.allocas.append(o.id)
                v = Ptr(o.id, 0)
            fr.regs[reg if reg else "%" + str(i)] = v
        if len(st.frames) > 200: raise Unsupported("call depth")
        st.frames.append(fr)
        self.entered[f.name] = self.entered.get(f.name, 0) + 1

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(st, oid); o.dead = True; o.cells = {}
        if not st.frames:
            if fr.f.name.startswith("@vc_lemma_") and self.covers.get("hypotheses satisfiable") is not True:
                self.covers["hypotheses satisfiable"] = self.sv.reachable(st)
            if st.kept and st.round == 0:
                # the code has kept something for its next call: what holds must hold then as well
                st.round = 1
                st.mem.pop("mmio", None)
                st.events = []; st.out = []; st.poll = {}; st.seen = {}; st.cuts = {}; st.loops = {}
                st.frames.append(Frame(fr.f, None, fr.f.ret, "verify"))
                return
            raise PathEnd()
        cur = st.frames[-1]
        if fr.dst is not None:
            cur.regs[fr.dst] = v if v is not None else UNDEF
        if fr.nb is not None: self.jump(st, cur, fr.nb)

    def jump(self, st, fr, lab):
        fr.prev = fr.blk; fr.blk = lab; fr.ix = 0
        # phis
        ins = fr.f.blocks[lab]
        vals = []
        for k, i in enumerate(ins):
            if i[0] != "phi": break
            for v, b in i[3]:
                if b == fr.prev:
                    vals.append((i[1], self.val(st, v, i[2]))); break
            else: raise Unsupported("phi")
        for d, v in vals: fr.regs[d] = v
        fr.ix = len(vals)

    def branch(self, st, c):
        """returns list of (state, bool) after deciding/forking on c"""
        if c is TRUE: return [(st, True)]
        if c is FALSE: return [(st, False)]
        d = self.sv.decide(st, c)
        if d is not None: return [(st, d)]
        t_ok = self.sv.feasible(st, c)
        f_ok = self.sv.feasible(st, tm.Not(c)) if t_ok else True
        if t_ok and not f_ok:
            self.assume(st, c); return [(st, True)]
        if f_ok and not t_ok:
            self.assume(st, tm.Not(c)); return [(st, False)]
        o = st.fork()
        self.assume(st, c); self.assume(o, tm.Not(c))
        return [(st, True), (o, False)]

    def exec(self, st):
        while True:
            self.steps += 1
            if self.steps > self.maxsteps: raise Unsupported("step budget exhausted")
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.ix]
            fr.ix += 1
            op = ins[0]
            if op == "load":
                p = self.device(st, self.force(st, self.val(st, ins[3], PTR), PTR), ins[4])
                fr.regs[ins[1]] = self.load(st, p, ins[2])
            elif op == "store":
                v = self.val(st, ins[2], ins[1])
                p = self.device(st, self.force(st, self.val(st, ins[3], PTR), PTR), ins[4])
                self.store(st, p, ins[1], v)
            elif op == "gep":
                p = self.force(st, self.val(st, ins[3], PTR), PTR)
                fr.regs[ins[1]] = self.gep(st, ins[2], p, [(t, self.val(st, v, t)) for t, v in ins[4]])
            elif op == "alloca":
                n = self.m.size(ins[2])
                if ins[3] is not None:
                    c = self.val(st, ins[3][1], ins[3][0])
                    if not isk(c): raise Unsupported("variable alloca")
                    n *= kval(c)
                o = self.newobj(st, n, "stack", "%s in %s" % (ins[1], fr.f.name))
                fr.allocas.append(o.id)
                fr.regs[ins[1]] = Ptr(o.id, 0)
            elif op == "bin":
                fr.regs[ins[1]] = self.binop(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]), ins[6])
            elif op == "fbin":
                fr.regs[ins[1]] = self.fbin(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]))
            elif op == "fneg":
                v = self.val(st, ins[3], ins[2])
                if ins[2].k == "vec":
                    fr.regs[ins[1]] = self.vecmap(st, ins[2], [v], lambda x: self.fneg(st, ins[2].e, x))
                else: fr.regs[ins[1]] = self.fneg(st, ins[2], v)
            elif op == "icmp":
                fr.regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]))
            elif op == "fcmp":
                fr.regs[ins[1]] = self.fcmp(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]))
            elif op == "cast":
                fr.regs[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), ins[5])
            elif op == "jmp":
                self.jump(st, fr, ins[1])
            elif op == "br":
                c = self.use(st, self.val(st, ins[1], INT(1)), INT(1), "branch condition")
                rs = self.branch(st, c)
                if len(rs) == 2:
                    o, ob = rs[1]
                    self.jump(o, o.frames[-1], ins[2] if ob else ins[3])
                    self.work.append(o)
                s0, b0 = rs[0]
                self.jump(s0, s0.frames[-1], ins[2] if b0 else ins[3])
            elif op == "switch":
                v = self.use(st, self.val(st, ins[2], ins[1]), ins[1], "switch value")
                tgt = None
                for cv, lab in ins[4]:
                    c = tm.eq(v, self.const(st, cv, ins[1]))
                    rs = self.branch(st, c)
                    if len(rs) == 2:
                        # true branch continues elsewhere
                        s1, b1 = rs[0]; s2, b2 = rs[1]
                        o = s2 if b1 is False else None
                        # rs[0] is st (True), rs[1] is the fork (False): run the True one later
                        t = st.fork()
                        # swap roles: t (copy of st, True) jumps now; st becomes False
                        self.jump(t, t.frames[-1], lab)
                        self.work.append(t)
                        st.pc = s2.pc; st.pcset = s2.pcset; st.rk = None; st.rn = 0
                    elif rs[0][1]:
                        tgt = lab; break
                self.jump(st, st.frames[-1], tgt if tgt is not None else ins[3])
            elif op == "select":
                c = self.use(st, self.val(st, ins[3], INT(1)), INT(1), "select condition")
                a = self.val(st, ins[4], ins[2]); b = self.val(st, ins[5], ins[2])
                if c is TRUE: r = a
                elif c is FALSE: r = b
                else:
                    a = self.force(st, a, ins[2]); b = self.force(st, b, ins[2])
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o != b.o:
                        # fork
                        rs = self.branch(st, c)
                        for s, bb in rs[1:]:
                            s.frames[-1].regs[ins[1]] = a if bb else b
                            self.work.append(s)
                        r = a if rs[0][1] else b
                    else:
                        if isinstance(a, Undef) or isinstance(b, Undef): r = UNDEF
                        else: r = self.ite(c, a, b)
                fr.regs[ins[1]] = r
            elif op == "ret":
                v = self.val(st, ins[2], ins[1]) if ins[1] is not None else None
                self.do_ret(st, v)
            elif op == "call":
                self.call(st, fr, ins[1], ins[2], ins[3], ins[4], None)
            elif op == "invoke":
                self.call(st, fr, ins[1], ins[2], ins[3], ins[4], ins[5])
            elif op == "extractvalue":
                v = self.val(st, ins[3], ins[2])
                t = ins[2]
                for k in ins[4]:
                    if isinstance(v, Undef): break
                    if isinstance(v, Lazy):
                        off = self.m.layout(t)[0][k] if t.k == "st" else k * self.m.size(t.e)
                        et = t.fs[k] if t.k == "st" else t.e
                        v = Lazy(v.src, v.off + off, self.m.size(et)); t = et
                        continue
                    v = v.v[k]
                    t = t.fs[k] if t.k == "st" else t.e
                fr.regs[ins[1]] = v
            elif op == "insertvalue":
                v = self.val(st, ins[3], ins[2]); e = self.val(st, ins[5], ins[4])
                fr.regs[ins[1]] = self.insval(v, ins[2], ins[6], e)
            elif op == "extractelement":
                v = self.val(st, ins[3], ins[2]); ix = self.val(st, ins[4], INT(32))
                fr.regs[ins[1]] = self.vecvals(st, v, ins[2])[kval(ix)]
            elif op == "insertelement":
                v = self.val(st, ins[3], ins[2]); e = self.val(st, ins[5], ins[4]); ix = self.val(st, ins[6], INT(32))
                xs = list(self.vecvals(st, v, ins[2])); xs[kval(ix)] = e
                fr.regs[ins[1]] = self.mkvec(ins[2], xs)
            elif op == "freeze":
                fr.regs[ins[1]] = self.val(st, ins[3], ins[2])
            elif op == "unreachable":
                self.fail(st, "no undefined control flow", "unreachable",
                          "end of %s reached (missing return, or call that must not return)" % fr.f.name)
            elif op == "asm":
                code = ins[3].strip('"')
                st.events.append(("asm", code, 0, None))
                if ins[1] is not None: raise Unsupported("asm output")
                self.externals["asm:" + code] = self.externals.get("asm:" + code, 0) + 1
            else:
                raise Unsupported("instruction " + str(ins)[:120])

    def fneg(self, st, ty, v):
        v = self.force(st, v, ty)
        if isinstance(v, Undef): return v
        if self.fp != "real": return tm.mk("fp.neg", (v,), v.s)
        return tm.rneg(v)

    def insval(self, v, t, ix, e):
        if isinstance(v, Undef):
            n = len(t.fs) if t.k == "st" else t.n
            v = Agg([UNDEF] * n)
        xs = list(v.v)
        k = ix[0]
        if len(ix) == 1: xs[k] = e
        else: xs[k] = self.insval(xs[k], t.fs[k] if t.k == "st" else t.e, ix[1:], e)
        return Agg(xs)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, dst, rty, callee, args, nb):
        if callee[0] == "reg":
            p = self.val(st, callee, PTR)
            if not isinstance(p, Ptr) or not isinstance(p.o, str) or not p.o.startswith("fn:"):
                raise Unsupported("indirect call")
            nm = p.o[3:]
        elif callee[0] == "glob": nm = callee[1]
        else: raise Unsupported("callee")
        vals = [(t, self.val(st, v, t)) for t, at, v in args if t.k != "metadata"]
        # byval at the call site
        ats = [at for t, at, v in args if t.k != "metadata"]
        tgt = self.subst.get(nm)
        if tgt is not None and not any(f.f.name == tgt for f in st.frames) and not fr.f.name.startswith("@vc_target_"):
            self.used_contracts[nm] = self.used_contracts.get(nm, 0) + 1
            nm = tgt; mode = "use"
        else: mode = None
        f = self.m.funcs.get(nm)
        base = nm[1:]
        from . import ext
        if f is not None and f.defined and not ext.INSERT.match(base):
            if base.startswith("vc_lemma_"):
                if any(x.mode == "use" and x.f.name.startswith("@vc_lemma_") for x in st.frames):
                    if nb is not None: self.jump(st, st.frames[-1], nb)
                    return              # proof step inside a lemma that is being applied
                mode = "use"; self.lemmas[base] = self.lemmas.get(base, 0) + 1
            self.bind_call(st, f, vals, dst, rty, mode, nb)
            return
        r = ext.call(self, st, base, vals, rty, dst)
        if r is not ext.NOSET and dst is not None:
            st.frames[-1].regs[dst] = r
        if nb is not None: self.jump(st, st.frames[-1], nb)
