"""Specification functions, in two modes.

opaque   : SZ, PSZ, CT, PB, DEC and the stream functions are uninterpreted; the
           defining equations and the (separately proved) lemmas are instantiated
           on the terms that occur in a query (class Ground).
revealed : the definitions themselves (kernel functions and lemmas).
"""
import z3
from val import *

I = z3.IntSort(); B8 = z3.BitVecSort(8); B32 = z3.BitVecSort(32)
SZ = z3.Function('SZ', B8, I)
PSZ = z3.Function('PSZ', B8, I, I)
CT = z3.Function('CT', B32, B32, B32, B32, B8)
PB = z3.Function('PB', B32, B32, B32, B32, I, B8)
SZB = z3.Function('SZB', B8, B8)          # table value: SZ as a byte
LENB = z3.Function('LENB', B8, I, B8)     # table value: length of number j as a byte
LEN = z3.Function('LEN', B8, I, I)        # length of number j
VL = z3.Function('VL', B32, I)            # length of the base-128 varint of a value
VB = z3.Function('VB', B32, I, B8)        # byte j of it
# 32-bit addition and subtraction, kept opaque where only their congruence matters
ADD32 = z3.Function('ADD32', B32, B32, B32)
SUB32 = z3.Function('SUB32', B32, B32, B32)

# ------------------------------------------------------------------ revealed
def code_fv(x):
    """zero-based minimal byte length of a 32-bit value"""
    if isc(x) or z3.is_bv_value(x):
        x = x if isc(x) else x.as_long()
        return 0 if x < 1 << 8 else 1 if x < 1 << 16 else 2 if x < 1 << 24 else 3
    g = [z3.ULT(x, 1 << 8), z3.And(z3.UGE(x, 1 << 8), z3.ULT(x, 1 << 16)),
         z3.And(z3.UGE(x, 1 << 16), z3.ULT(x, 1 << 24)), z3.UGE(x, 1 << 24)]
    return FV([(g[k], k) for k in range(4)])

def fvbv(v, w):
    if isc(v): return z3.BitVecVal(v, w)
    if isinstance(v, FV):
        r = z3.BitVecVal(v.leaves[-1][1], w)
        for g, c in reversed(v.leaves[:-1]):
            r = z3.If(g, z3.BitVecVal(c, w), r)
        return r
    return v

def code_bv(x, w=8):
    x = zbv(x, 32)
    v = lambda n: z3.BitVecVal(n, w)
    return z3.If(z3.ULT(x, 1 << 8), v(0), z3.If(z3.ULT(x, 1 << 16), v(1), z3.If(z3.ULT(x, 1 << 24), v(2), v(3))))

def ct_bv(xs):
    c = [code_bv(x) for x in xs]
    return z3.simplify(c[0] | (c[1] << 2) | (c[2] << 4) | (c[3] << 6))

def ccode(c, j):
    """code j of control byte c: int or FV"""
    if isc(c): return (c >> (2 * j)) & 3
    if z3.is_bv_value(c): return (c.as_long() >> (2 * j)) & 3
    e = z3.simplify(z3.Extract(2 * j + 1, 2 * j, c))
    if z3.is_bv_value(e): return e.as_long()
    return FV([(e == k, k) for k in range(4)])

class Spec:
    """evaluation of specification expressions for one verification task"""
    def __init__(self, reveal, st=None, lenmax=1 << 47):
        self.reveal = reveal
        self.decide = lambda c: c          # set by the executor: settle a condition under the path condition
        self.uniq = lambda v: v            # set by the executor: collapse under the path condition
        self.realarith = False
        self.insts = {}                    # (kind, key...) -> instance
        self.decs = {}                     # id(content) -> UF
        self.dss = {}; self.dsc = {}
        self.keep = []
        self.known = {}                    # ast id -> known code (revealed mode)
        self.order = []
        self.fvcache = {}

    def add(self, a, b):
        a, b = zbv(a, 32), zbv(b, 32)
        return z3.simplify(a + b) if self.reveal or self.realarith else ADD32(a, b)
    def sub(self, a, b):
        a, b = zbv(a, 32), zbv(b, 32)
        return z3.simplify(a - b) if self.reveal or self.realarith else SUB32(a, b)
    # -- group functions
    def sz(self, c):
        return self.psz(c, 4)
    def psz(self, c, r):
        if isc(c): c = z3.BitVecVal(c, 8)
        r = self.uniq(r) if not isc(r) else r
        if self.reveal or z3.is_bv_value(c):
            if not isc(r):
                if not z3.is_bv_value(c):
                    raise Unsupported('PSZ with symbolic count')
                parts = [0]
                for j in range(4): parts.append(parts[-1] + ccode(c, j) + 1)
                res = parts[4]
                for q in (3, 2, 1, 0):
                    res = ite(icmp('<=', r, q), parts[q], res)
                return simp(res)
            t = 0
            for j in range(max(0, min(4, r))):
                k = self.uniq(self.cached(ccode, c, j))
                t = iadd(t, iadd(k, 1))
            return t
        if isc(r):
            if r <= 0: return 0
            if r >= 4: return SZ(c)
        return PSZ(c, zi(r))
    def codes(self, xs):
        return [self.uniq(self.cached(code_fv, x)) for x in xs]
    def cached(self, f, x, *a):
        if isc(x): return f(x, *a)
        k = (f, x.get_id()) + a
        r = self.fvcache.get(k)
        if r is None:
            r = f(x, *a)
            self.fvcache[k] = r
            self.keep.append(x)
        return r
    def ct(self, xs):
        xs = [zbv(x, 32) for x in xs]
        if self.reveal or all(z3.is_bv_value(x) for x in xs):
            if self.reveal:
                ks = self.codes(xs)
                if all(isc(k) for k in ks):
                    return z3.BitVecVal(ks[0] | ks[1] << 2 | ks[2] << 4 | ks[3] << 6, 8)
            return ct_bv(xs)
        return CT(*xs)
    def pb(self, xs, k):
        xs = [zbv(x, 32) for x in xs]
        if not self.reveal:
            return PB(*xs, zi(k))
        k = self.uniq(k)
        if not isc(k): raise Unsupported('PB at symbolic position')
        off = 0
        res = z3.BitVecVal(0, 8)
        cases = []
        for x, cd in zip(xs, self.codes(xs)):
            ln = iadd(cd, 1)
            for b in range(4):
                g = land(icmp('==', off, k - b), icmp('>', ln, b))
                if g is False: continue
                cases.append((g, z3.Extract(8 * b + 7, 8 * b, x)))
            off = iadd(off, ln)
        for g, v in reversed(cases):
            res = v if g is True else z3.If(g, v, res)
        return z3.simplify(res)
    def dec(self, cont, pos, c, j):
        """little-endian value of number j of the group with control c whose data start at pos"""
        if isc(c): c = z3.BitVecVal(c, 8)
        if not self.reveal:
            f = self.decs.get(id(cont))
            if f is None:
                f = z3.Function('DEC_%d' % len(self.decs), I, B8, I, B32)
                self.decs[id(cont)] = f
                self.keep.append(cont)
            return f(zi(pos), c, zi(j))
        j = self.uniq(j)
        if not isc(j):
            raise Unsupported('DEC of symbolic number')
        off = 0
        for t in range(j):
            off = iadd(off, iadd(self.uniq(self.cached(ccode, c, t)), 1))
        ln = iadd(self.uniq(self.cached(ccode, c, j)), 1)
        if isinstance(off, FV): off = self.uniq(off)
        def at(o, n):
            bs = [zbv(cont.rd(iadd(pos, o + b)), 8) for b in range(n)]
            return z3.Concat(*([z3.BitVecVal(0, 8)] * (4 - n) + bs[::-1])) if n < 4 else z3.Concat(*bs[::-1])
        def lens(o):
            if isc(ln): return at(o, ln)
            r = None
            for g, n in ln.leaves:
                r = at(o, n) if r is None else z3.If(g, at(o, n), r)
            return r
        if isc(off): return z3.simplify(lens(off))
        r = None
        for g, o in off.leaves:
            r = lens(o) if r is None else z3.If(g, lens(o), r)
        return r
    def dsf(self, cont):
        f = self.dss.get(id(cont))
        if f is None:
            f = z3.Function('DS_%d' % len(self.dss), I, B8, B32, I, B32)
            self.dss[id(cont)] = f
            self.dsc[f.name()] = cont
            self.keep.append(cont)
        return f
    def dsunfold(self, t):
        """the defining equation of a DS term"""
        cont = self.dsc[t.decl().name()]
        pos, c, p, j = t.children()
        acc = []
        for q in range(4):
            p = p + self.dec(cont, pos, c, q)
            acc.append(p)
        r = acc[3]
        for q in (2, 1, 0): r = z3.If(j == q, acc[q], r)
        return z3.Implies(z3.And(0 <= j, j <= 3), t == z3.simplify(r))
    def dsum(self, cont, pos, c, p, j):
        """p + DEC(0) + ... + DEC(j)"""
        p = zbv(p, 32)
        if self.realarith and isc(j):
            for t in range(j + 1): p = p + self.dec(cont, pos, c, t)
            return z3.simplify(p)
        if not self.reveal:
            return self.dsf(cont)(zi(pos), c if not isc(c) else z3.BitVecVal(c, 8), p, zi(j))
        ju = self.uniq(j) if not isc(j) else j
        if isc(ju):
            for t in range(ju + 1): p = self.add(p, self.dec(cont, pos, c, t))
            return p
        acc = []
        for t in range(4):
            p = self.add(p, self.dec(cont, pos, c, t))
            acc.append(p)
        r = acc[3]
        for t in (2, 1, 0):
            r = z3.If(zi(ju) == t, acc[t], r)
        return r

# ------------------------------------------------------------------ stream instances
def base_const(g):
    """g as (symbol or None, constant): an integer symbol plus a numeral, if it has that form"""
    g = simp(zi(g))
    if isc(g): return None, g
    if z3.is_const(g): return g, 0
    if g.decl().kind() == z3.Z3_OP_ADD and g.num_args() == 2:
        a, b = g.children()
        if z3.is_int_value(a) and z3.is_const(b): return b, a.as_long()
        if z3.is_int_value(b) and z3.is_const(a): return a, b.as_long()
    return g, 0

class Stream:
    """OFF and the running sums are sequences over all integers g, fixed by OFF(0), RP(0)
    and the step from g to g+1 (which determines them for negative g as well), so unfolding
    the step is an equation that holds without side condition."""
    def off(self, g):
        b, k = base_const(g)
        if b is None:
            if not 0 <= k <= 16: return self.OFF(z3.IntVal(k))
            r = self.C
        else:
            r = self.OFF(b)
            if not 0 <= k <= 16: return self.OFF(zi(simp(zi(g))))
        for t in range(k):
            r = iadd(r, SZ(self.ctl(t if b is None else simp(b + t))))
        return zi(r)
    def pos(self, g):
        c = self.spec.decide(icmp('<=', imul(4, g), self.n))
        if c is True: return simp(self.off(g))
        if c is False: return simp(zi(self.end()))
        return simp(z3.If(c, self.off(g), zi(self.end())))

class Reader(Stream):
    """the stream denoted by contents S (from position b0) for count n"""
    kind = 'reader'
    def __init__(self, idx, spec, cont, b0, n):
        self.idx, self.spec, self.cont, self.b0, self.n = idx, spec, cont, b0, n
        s = str(idx)
        self.OFF = z3.Function('OFF_' + s, I, I)
        self.V = z3.Function('V_' + s, I, B32)
        self.RDs = {}
        self.C = simp((zi(n) + 3) / 4); self.F = simp(zi(n) / 4)
    def S(self, g):
        return zbv(self.cont.rd(iadd(self.b0, g)), 8)
    def ctl(self, g): return self.S(g)
    def end(self):
        r = simp(zi(self.n) - 4 * zi(self.F))
        c = self.spec.decide(icmp('==', r, 0))
        if c is True: return simp(self.off(self.F))
        if c is False: return simp(self.off(self.F) + PSZ(self.S(self.F), zi(r)))
        return simp(z3.If(c, self.off(self.F), self.off(self.F) + PSZ(self.S(self.F), zi(r))))
    def v(self, i): return self.V(zi(i))
    def rdf(self, prev):
        f = self.RDs.get(prev.get_id())
        if f is None:
            k = (self.idx, len(self.RDs))
            f = (z3.Function('RD_%d_%d' % k, I, B32), z3.Function('RP_%d_%d' % k, I, B32), prev)
            self.RDs[prev.get_id()] = f
        return f
    def rd(self, prev, i): return self.rdf(prev)[0](zi(i))
    def rp(self, f, g):
        """the running sum before group g"""
        b, k = base_const(g)
        if not 0 <= k <= 16: return f[1](zi(simp(zi(g))))
        r = f[2] if b is None else f[1](b)
        for t in range(k):
            q = t if b is None else simp(b + t)
            r = self.ds(q, r, 3)
        return r
    def ds(self, g, p, j):
        return self.spec.dsf(self.cont)(zi(iadd(self.b0, simp(self.off(g)))), self.S(g), p, zi(j))
    def before(self, prev, g):
        """the running sum before group g (at the end of the stream: the last one)"""
        f = self.rdf(prev)
        c = self.spec.decide(icmp('<=', imul(4, g), self.n))
        if c is True: return self.rp(f, g)
        last = f[0](zi(simp(zi(self.n) - 1)))
        if c is False: return last
        return z3.If(c, self.rp(f, g), last)

class Writer(Stream):
    """the canonical stream of n integers in (differences if prev is given)"""
    kind = 'writer'
    def __init__(self, idx, spec, cont, b0, n, prev):
        self.idx, self.spec, self.cont, self.b0, self.n, self.prev = idx, spec, cont, b0, n, prev
        s = str(idx)
        self.OFF = z3.Function('OFF_' + s, I, I)
        self.CAN = z3.Function('CAN_' + s, I, B8)
        self.X = z3.Function('X_' + s, I, B32)
        self.EXT = z3.Function('EXT_' + s, I, B32)
        self.C = simp((zi(n) + 3) / 4); self.F = simp(zi(n) / 4)
        self.RDs = {}
    def x(self, k):
        """integer k of the sequence that is encoded, zero beyond the end"""
        return self.X(zi(simp(zi(k))))
    def xdef(self, k):
        k = zi(k)
        cur = zbv(self.cont.rd(simp(zi(self.b0) + k)), 32)
        if self.prev is not None: cur = self.spec.sub(cur, self.EXT(zi(simp(k - 1))))
        return [z3.Implies(k < zi(self.n), self.X(k) == cur), z3.Implies(k >= zi(self.n), self.X(k) == z3.BitVecVal(0, 32))]
    def ext(self, k):
        """integer k of the input, the base for k = -1"""
        k = zi(simp(zi(k)))
        c = self.spec.decide(sb(k >= 0))
        if c is True: return zbv(self.cont.rd(simp(zi(self.b0) + k)), 32)
        if z3.is_int_value(k) and k.as_long() == -1: return self.prev
        return self.EXT(k)
    def extdef(self, k):
        return [z3.Implies(k >= 0, self.EXT(k) == zbv(self.cont.rd(simp(zi(self.b0) + k)), 32)), z3.Implies(k == -1, self.EXT(k) == self.prev)]
    def xs(self, g): return [self.x(simp(4 * zi(g) + j)) for j in range(4)]
    def ctl(self, g): return CT(*self.xs(g))
    def end(self): return simp(self.off(self.C) - (4 * zi(self.C) - zi(self.n)))
    def can(self, i): return self.CAN(zi(i))

def vl_def(x):
    r = z3.IntVal(5)
    for k in (4, 3, 2, 1): r = z3.If(z3.ULT(x, z3.BitVecVal(1 << (7 * k), 32)), z3.IntVal(k), r)
    return r
def vb_def(x, j):
    r = z3.BitVecVal(0, 8)
    for k in (4, 3, 2, 1, 0):
        low = z3.Extract(7, 0, z3.LShR(x, 7 * k)) & 0x7f
        b = low if k == 4 else z3.If(z3.ULT(x, z3.BitVecVal(1 << (7 * (k + 1)), 32)), low, low | 0x80)
        r = z3.If(j == k, b, r)
    return r

class Varint(Writer):
    """the concatenated varints of n integers (differences if prev is given)"""
    kind = 'varint'
    def off(self, g):
        b, k = base_const(g)
        if b is None:
            if not 0 <= k <= 16: return self.OFF(z3.IntVal(k))
            r = 0
        else:
            r = self.OFF(b)
            if not 0 <= k <= 16: return self.OFF(zi(simp(zi(g))))
        for t in range(k):
            r = iadd(r, VL(self.x(t if b is None else simp(b + t))))
        return zi(r)
    def pos(self, g): return simp(self.off(g))
    def end(self): return simp(self.off(self.n))

# ------------------------------------------------------------------ ground instantiation
class Ground:
    """Instantiates defining equations and lemmas on the terms of a query."""
    def __init__(self, spec):
        self.spec = spec
        self.seen = set()
        self.keep = []
        self.szs = {}; self.pszs = {}; self.lens = {}
        self.st = {}      # instance -> dict of sets
        self.hints = {}
        self.revealct = False       # define CT
        self.arith = False          # interpret ADD32 and SUB32
        self.ariths = []
    def arith_axioms(self):
        return [self.spec.dsunfold(t) if t.decl().name().startswith('DS_') else
                t == (t.arg(0) + t.arg(1) if t.decl().name() == 'ADD32' else t.arg(0) - t.arg(1)) for t in self.ariths]
    def _inst(self, s):
        d = self.st.get(s)
        if d is None:
            d = self.st[s] = dict(off={}, g={}, v={}, rd={}, can={}, rpseen=set(), x=set(), init=False)
        return d
    def add(self, formulas, hints=()):
        """axioms to add for these new formulas; hints: extra group numbers"""
        save = self.spec.decide
        self.spec.decide = lambda c: c         # axioms do not depend on the path
        try:
            return self._add(formulas, hints)
        finally:
            self.spec.decide = save
    def _add(self, formulas, hints):
        out = []
        work = list(formulas)
        for s in self.spec.order:
            d = self._inst(s)
            if not d['init']:
                d['init'] = True
                ax = self.init_axioms(s)
                out += ax; work += ax
            for h in hints:
                work += self.hint(s, h, out)
        while work:
            f = work.pop()
            if isinstance(f, (bool, int)): continue
            new = self.scan(f)
            for t in new:
                ax = self.term(t)
                out += ax
                work += ax
        return out
    def scan(self, f):
        res = []
        stack = [f]
        seen = self.seen
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i); self.keep.append(e)
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                    res.append(e)
                stack.extend(e.children())
        return res
    def hint(self, s, g, out):
        g = simp(zi(g)); g = zi(g)
        d = self._inst(s)
        if g.get_id() in d['g']: return []
        d['g'][g.get_id()] = g
        ax = self.gterm(s, g)
        out += ax
        return ax
    def init_axioms(self, s):
        n = zi(s.n)
        if s.kind == 'varint':
            return [s.OFF(z3.IntVal(0)) == 0, n >= 0] + self.offbounds(s, z3.IntVal(0)) + self.offbounds(s, n)
        ax = [s.OFF(z3.IntVal(0)) == zi(s.C), n >= 0] + self.offbounds(s, z3.IntVal(0))
        if s.kind == 'writer':
            # lemma: a group padded with zeros holds its r integers in SZ - (4 - r) bytes, r <= ... <= 4r
            r = zi(simp(n - 4 * zi(s.F)))
            ax.append(z3.Implies(r != 0, z3.And(s.off(s.F) + r <= zi(s.end()), zi(s.end()) <= s.off(s.F) + 4 * r)))
        # the closing facts of a partial group
        if s.kind == 'reader':
            r = zi(simp(n - 4 * zi(s.F)))
            ax += [s.off(s.F) >= 0, PSZ(s.S(s.F), r) >= 0]
        return ax + self._gadd(s, s.F) + self._gadd(s, s.C)
    def _gadd(self, s, g):
        d = self._inst(s)
        g = zi(g)
        if g.get_id() in d['g']: return []
        d['g'][g.get_id()] = g
        return self.gterm(s, g)
    def gterm(self, s, g):
        """unfold the stream definition at group g"""
        ax = []
        if s.kind == 'varint':
            g1 = zi(simp(g + 1))
            e = simp(s.off(g1) == s.off(g) + VL(s.x(g)))
            if not isinstance(e, bool): ax.append(e)
            ax += self.offbounds(s, g)
            for i in self._inst(s)['can'].values(): ax += self.canlink(s, g, i)
            return ax
        c = s.ctl(g)
        g1 = zi(simp(g + 1))
        ax.append(simp(s.off(g1) == s.off(g) + SZ(c)))
        ax = [a for a in ax if not isinstance(a, bool)]
        ax += self.offbounds(s, g)
        d = self._inst(s)
        if s.kind == 'reader':
            for i in d['v'].values(): ax += self.vlink(s, g, i)
            for f in s.RDs.values():
                ax += self.rpunf(s, f, g)
                for i in d['rd'].values(): ax += self.rdlink(s, f, g, i)
        else:
            for i in d['can'].values(): ax += self.canlink(s, g, i)
        return ax
    def vlink(self, s, g, i):
        j = simp(i - 4 * g)
        return [z3.Implies(z3.And(g >= 0, 4 * g <= i, i < 4 * g + 4),
                           s.V(i) == s.spec.dec(s.cont, iadd(s.b0, s.off(g)), s.S(g), j))]
    def rpunf(self, s, f, g):
        g1 = zi(simp(g + 1))
        e = simp(f[1](g1) == s.ds(g, s.rp(f, g), 3))
        out = [] if base_const(g1)[0] is not None and base_const(g1)[1] in range(1, 17) else [e]
        return out + [f[1](z3.IntVal(0)) == f[2]]
    def rdlink(self, s, f, g, i):
        j = simp(i - 4 * g)
        ax = [z3.Implies(z3.And(g >= 0, 4 * g <= i, i < 4 * g + 4), f[0](i) == s.ds(g, s.rp(f, g), j))]
        # the definition unfolded at group g - 1, for the last integer of that group
        if not (z3.is_int_value(j) and j.as_long() >= 0): ax.append(z3.Implies(z3.And(g >= 1, i == 4 * g - 1), f[0](i) == s.rp(f, g)))
        return ax
    def canlink(self, s, g, i):
        if s.kind == 'varint':
            return [z3.Implies(z3.And(g >= 0, g < zi(s.n), s.off(g) <= i, i < s.off(zi(simp(g + 1)))),
                               s.CAN(i) == VB(s.x(g), zi(simp(i - s.off(g)))))]
        ax = [z3.Implies(z3.And(g >= 0, i == g, i < zi(s.C)), s.CAN(i) == s.ctl(g))]
        ax.append(z3.Implies(z3.And(g >= 0, g < zi(s.C), s.off(g) <= i, i < s.off(zi(simp(g + 1)))),
                             s.CAN(i) == PB(*s.xs(g), zi(simp(i - s.off(g))))))
        return ax
    def offbounds(self, s, g):
        """bounds on the distance between group g and the other groups of interest"""
        dd = self._inst(s)
        if g.get_id() in dd['off']: return []
        ax = []
        b = base_const(g)[0]
        for h in dd['off'].values():
            c = base_const(h)[0]
            if b is c or b is not None and c is not None and b.eq(c): continue
            ax += self.bounds(s, g, h) + self.bounds(s, h, g)
        dd['off'][g.get_id()] = g
        return ax
    def bounds(self, s, a, b):
        if s.kind == 'varint':
            return [z3.Implies(z3.And(0 <= a, a <= b), z3.And(s.off(a) + (b - a) <= s.off(b), s.off(b) <= s.off(a) + 5 * (b - a)))]
        return [z3.Implies(z3.And(0 <= a, a <= b), z3.And(s.off(a) + 4 * (b - a) <= s.off(b), s.off(b) <= s.off(a) + 16 * (b - a)))]
    def term(self, t):
        d = t.decl(); name = d.name()
        if name == 'SZ':
            c = t.arg(0)
            if z3.is_bv_value(c):
                return [t == self.spec.sz(c)]
            ax = [t >= 4, t <= 16]
            self.szs[c.get_id()] = c
            for c2, r in self.pszs.get(c.get_id(), []): ax += self.pszax(c, r)
            return ax
        if name == 'PSZ':
            c, r = t.arg(0), t.arg(1)
            self.pszs.setdefault(c.get_id(), []).append((c, r))
            return self.pszax(c, r)
        if name.startswith('DS_'):
            self.ariths.append(t)
            return [self.spec.dsunfold(t)] if self.arith else []
        if name in ('ADD32', 'SUB32'):
            self.ariths.append(t)
            return [t == (t.arg(0) + t.arg(1) if name == 'ADD32' else t.arg(0) - t.arg(1))] if self.arith else []
        if name == 'VL': return [t == vl_def(t.arg(0))]
        if name == 'VB': return [t == vb_def(t.arg(0), t.arg(1))]
        if name == 'CT' and self.revealct: return [t == ct_bv(t.children())]
        if name == 'SZB':
            return [z3.UGE(t, 4), z3.ULE(t, 16)]
        if name == 'LENB':
            return [z3.UGE(t, 1), z3.ULE(t, 4)]
        if name == 'LEN':
            return [t >= 1, t <= 4]
        for s in self.spec.order:
            dd = self._inst(s)
            if d.eq(s.OFF): return self.offbounds(s, t.arg(0))
            if s.kind == 'reader':
                if d.eq(s.V):
                    i = t.arg(0); dd['v'][i.get_id()] = i
                    ax = []
                    for g in list(dd['g'].values()): ax += self.vlink(s, g, i)
                    return ax
                for f in s.RDs.values():
                    if d.eq(f[0]):
                        i = t.arg(0); dd['rd'][i.get_id()] = i
                        ax = []
                        for g in list(dd['g'].values()): ax += self.rdlink(s, f, g, i)
                        return ax
                    if d.eq(f[1]):
                        if f[1].name() in dd['rpseen']: return []
                        dd['rpseen'].add(f[1].name())
                        ax = [f[1](z3.IntVal(0)) == f[2]]
                        for g in list(dd['g'].values()): ax += self.rpunf(s, f, g)
                        return ax
                if getattr(s.cont, 'key', None) is not None and name == s.cont.key:
                    g = zi(simp(t.arg(0) - zi(s.b0)))
                    return self._gadd(s, g)
            else:
                if d.eq(s.X): return s.xdef(t.arg(0))
                if d.eq(s.EXT): return s.extdef(t.arg(0))
                if d.eq(s.CAN):
                    i = t.arg(0); dd['can'][i.get_id()] = i
                    ax = []
                    for g in list(dd['g'].values()): ax += self.canlink(s, g, i)
                    return ax
        return []
    def pszax(self, c, r):
        t = PSZ(c, r); s = SZ(c)
        ax = [z3.Implies(r <= 0, t == 0), z3.Implies(r >= 4, t == s),
              z3.Implies(z3.And(0 <= r, r <= 4), z3.And(r <= t, t <= 4 * r, 4 - r <= s - t, s - t <= 4 * (4 - r)))]
        for c2, r2 in self.pszs.get(c.get_id(), []):
            if not r2.eq(r):
                ax.append(z3.Implies(z3.And(r <= r2, r2 <= 4), t <= PSZ(c, r2)))
                ax.append(z3.Implies(z3.And(r2 <= r, r <= 4), PSZ(c, r2) <= t))
        return ax
