"""Lemmas over the contracts: the facts the stream level uses about the specification
functions, and the step from contracts to properties that relate several functions.

Each lemma is a named obligation.  Inductions are split into base and step; the
induction schema itself (over the group number) is part of the trusted base."""
import time, z3
from val import *
import spec as S
from sym import Obl
from spec import Spec, Reader, Writer
from ev import lens

class Lem:
    def __init__(self, group): self.group = group; self.obls = []
    def prove(self, desc, goal, hyps=(), timeout=30000):
        o = Obl('lemma.' + self.group, 'func', 'lemma', desc, '')
        t0 = time.time()
        if goal is True: o.status = 'proved'; o.backend = 'simplifier'
        elif goal is False: o.status = 'failed'; o.backend = 'evaluation'
        else:
            s = z3.Solver(); s.set('timeout', timeout)
            s.add(*[zb(h) for h in hyps]); s.add(z3.Not(zb(goal)))
            r = s.check()
            o.status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
            o.backend = 'z3'
        o.time = time.time() - t0
        self.obls.append(o)
    def eval(self, desc, ok):
        o = Obl('lemma.' + self.group, 'func', 'lemma', desc, '')
        o.status = 'proved' if ok else 'failed'; o.backend = 'evaluation'
        self.obls.append(o)

def psz(c, r): return sum(lens(c)[:max(0, min(4, r))])

def sizes():
    """SZ and PSZ: the axioms instantiated for opaque SZ/PSZ terms hold of their definitions"""
    L = Lem('sizes')
    sp = Spec(True)
    for c in range(256):
        b = z3.BitVecVal(c, 8)
        s = psz(c, 4)
        ok = sp.sz(b) == s and 4 <= s <= 16
        for r in range(-1, 6):
            t = psz(c, r)
            ok = ok and sp.psz(b, r) == t
            if r <= 0: ok = ok and t == 0
            if r >= 4: ok = ok and t == s
            if 0 <= r <= 4: ok = ok and r <= t <= 4 * r and 4 - r <= s - t <= 4 * (4 - r)
            for q in range(r, 5): ok = ok and t <= psz(c, q)
        L.eval('size bounds and monotonicity for control byte %d' % c, ok)
    return L.obls

def offsets():
    """bounds on OFF by induction, and uniqueness of the group that contains a position"""
    L = Lem('offsets')
    OFF = z3.Function('OFF', z3.IntSort(), z3.IntSort())
    CTL = z3.Function('CTL', z3.IntSort(), S.B8)
    a, b, i = z3.Ints('a b i')
    step = lambda g: z3.And(OFF(g + 1) == OFF(g) + S.SZ(CTL(g)), S.SZ(CTL(g)) >= 4, S.SZ(CTL(g)) <= 16)
    P = lambda b: z3.And(OFF(a) + 4 * (b - a) <= OFF(b), OFF(b) <= OFF(a) + 16 * (b - a))
    L.prove('bounds on the distance of two groups, base', P(a))
    L.prove('bounds on the distance of two groups, step', P(b + 1), [a <= b, P(b), step(b)])
    L.prove('positions determine their group', False == z3.BoolVal(True), [a < b, OFF(a) <= i, i < OFF(a + 1), OFF(b) <= i, i < OFF(b + 1),
            z3.And(OFF(a + 1) + 4 * (b - a - 1) <= OFF(b))])
    C = z3.Int('C')
    L.prove('data positions lie behind the control bytes', z3.Implies(z3.And(0 <= b, OFF(b) <= i), i >= C), [OFF(0) == C, C >= 0, OFF(0) + 4 * b <= OFF(b)])
    j, k = z3.Ints('j k')
    L.prove('a number lies in one group', k == j, [4 * k <= i, i < 4 * k + 4, 4 * j <= i, i < 4 * j + 4])
    # SZB and LENB name the same values as SZ and LEN
    return L.obls

def words(): return [z3.BitVec('x%d' % j, 32) for j in range(4)]
def with_codes(sp, ws, ls, zero_from=4):
    """assumptions fixing the byte lengths of ws"""
    h = []
    uniq = {}
    for j in range(4):
        h.append(S.code_bv(ws[j]) == ls[j] - 1)
        fv = sp.cached(S.code_fv, ws[j])
        if isinstance(fv, FV):
            h += [g for g, q in fv.leaves if q == ls[j] - 1]
            uniq[id(fv)] = ls[j] - 1
    sp.uniq = lambda v: uniq.get(id(v), v)
    return h

def padding():
    """a group padded with zeros: the bytes of its first r integers"""
    L = Lem('padding')
    L.eval('a zero is stored in one byte', S.code_fv(0) == 0)
    for c in range(256):
        ls = lens(c)
        for r in (1, 2, 3):
            if any(ls[j] != 1 for j in range(r, 4)): continue
            L.eval('group %d of %d integers: size of the integers is SZ - (4 - r), between r and 4r' % (c, r),
                   psz(c, r) == psz(c, 4) - (4 - r) and r <= psz(c, r) <= 4 * r)
    # the same through CT of symbolic words
    ws = words()
    for r in (1, 2, 3):
        xs = ws[:r] + [z3.BitVecVal(0, 32)] * (4 - r)
        c = S.ct_bv(xs)
        for j in range(r, 4):
            L.prove('CT of %d integers and zeros: code %d is zero' % (r, j), z3.Extract(2 * j + 1, 2 * j, c) == 0)
    # the end of the stream
    SZ = z3.Int('SZ'); off, n, F, C, r = z3.Ints('off n F C r')
    L.prove('the end of the data, partial last group', z3.And(off + r <= off + SZ - (4 * C - n), off + SZ - (4 * C - n) <= off + 4 * r),
            [n >= 0, 4 * F <= n, n < 4 * F + 4, r == n - 4 * F, r != 0, C == F + 1, r <= SZ - (4 - r), SZ - (4 - r) <= 4 * r])
    L.prove('the end of the data, full last group', 4 * C - n == 0, [n >= 0, n == 4 * F, 4 * C <= n + 3, n + 3 < 4 * C + 4])
    return L.obls

def group(sp_tag, L, delta):
    """decoding the bytes of a group gives its integers back; integer j needs the first PSZ(c, j+1) bytes only"""
    for c in range(256):
        ls = lens(c)
        sp = Spec(True)
        ws = words()
        h = with_codes(sp, ws, ls)
        for j in range(4):
            n = psz(c, j + 1)
            junk = [z3.BitVec('junk%d' % k, 8) for k in range(16)]
            cont = SeqC(8, lambda i, sp=sp, ws=ws, n=n: sp.pb(ws, i) if i < n else junk[i])
            L.prove('integer %d of a group with control byte %d' % (j, c), sp.dec(cont, 0, z3.BitVecVal(c, 8), j) == ws[j], h)

def roundtrip():
    """a stream that equals the canonical stream of in denotes in"""
    L = Lem('roundtrip')
    group(None, L, False)
    ws = words()
    # control bytes determine the lengths used above
    sp = Spec(True)
    for j in range(4):
        L.prove('code %d of CT is the length of integer %d' % (j, j), z3.Extract(2 * j + 1, 2 * j, S.ct_bv(ws)) == S.code_bv(ws[j], 2))
    I = z3.IntSort()
    OW, OR = z3.Function('OW', I, I), z3.Function('OR', I, I)
    CW, CR = z3.Function('CW', I, S.B8), z3.Function('CR', I, S.B8)
    C, g, n, F, r = z3.Ints('C g n F r')
    L.prove('same offsets, base', OW(0) == OR(0), [OW(0) == C, OR(0) == C])
    L.prove('same offsets, step', OW(g + 1) == OR(g + 1), [OW(g) == OR(g), CW(g) == CR(g), OW(g + 1) == OW(g) + S.SZ(CW(g)), OR(g + 1) == OR(g) + S.SZ(CR(g))])
    c = z3.BitVec('c', 8)
    L.prove('the stream is as long as decoding needs, partial last group', OR(F) + S.PSZ(c, r) == OW(C) - (4 * C - n),
            [OW(F) == OR(F), OW(F + 1) == OW(F) + S.SZ(c), C == F + 1, r == n - 4 * F, r >= 1, r <= 3, S.PSZ(c, r) == S.SZ(c) - (4 - r)])
    L.prove('the stream is as long as decoding needs, full last group', OR(F) == OW(C) - (4 * C - n), [OW(F) == OR(F), C == F, n == 4 * F])
    # bytes of a group inside the stream
    k, j = z3.Ints('k j')
    L.prove('the bytes integer j needs are bytes of the group', z3.And(OW(g) <= OR(g) + k, OR(g) + k < OW(g + 1)),
            [OW(g) == OR(g), OW(g + 1) == OW(g) + S.SZ(c), 0 <= k, k < S.PSZ(c, j + 1), 0 <= j, j <= 3, S.PSZ(c, j + 1) <= S.SZ(c)])
    L.prove('... and lie before the end of the stream', OR(g) + k < OW(C) - (4 * C - n),
            [OW(g) == OR(g), 0 <= k, k < S.PSZ(c, j + 1), 0 <= j, j <= 3, 4 * g + j < n, 0 <= g, g < C, 4 * C - n >= 0, 4 * C - n <= 3,
             # g before the last group: a whole group of at least four bytes follows
             z3.Implies(g < C - 1, z3.And(OW(g) + S.SZ(c) + 4 <= OW(C), S.PSZ(c, j + 1) <= S.SZ(c))),
             # g is the last group of r integers
             z3.Implies(g == C - 1, z3.And(OW(C) == OW(g) + S.SZ(c), r == n - 4 * g, r >= 1, r <= 4, S.PSZ(c, r) == S.SZ(c) - (4 - r), z3.Implies(j + 1 <= r, S.PSZ(c, j + 1) <= S.PSZ(c, r))))])
    # differential: the running sums of the differences are the integers
    p, a, b = z3.BitVecs('p a b', 32)
    L.prove('running sums of differences, first integer', p + (a - p) == a)
    L.prove('running sums of differences, next integer', a + (b - a) == b)
    # DSUM is the running sum one integer at a time
    sums()(L)
    return L.obls

def sums():
    def f(L):
        sp = Spec(False)
        D = [z3.BitVec('d%d' % q, 32) for q in range(4)]
        p = z3.BitVec('p', 32)
        sp.dec = lambda cont, pos, c, j: D[j]
        cont = SeqC(8, lambda i: z3.BitVecVal(0, 8))
        fn = sp.dsf(cont)
        c = z3.BitVec('c', 8)
        for j in range(4):
            t = fn(z3.IntVal(0), c, p, z3.IntVal(j))
            want = p
            for q in range(j + 1): want = want + D[q]
            L.prove('DSUM(.., %d) is p + DEC(0) + ... + DEC(%d)' % (j, j), t == want, [sp.dsunfold(t)])
            sr = Spec(True); sr.dec = sp.dec
            L.prove('DSUM(.., %d): same meaning in both forms' % j, sr.dsum(cont, 0, c, p, j) == want)
    return f

def chain():
    """differences of consecutive batches, each with the last integer of the previous one as base,
    are the differences of the whole; the same for running sums"""
    L = Lem('chain')
    IN = z3.Function('in', z3.IntSort(), S.B32)
    V = z3.Function('v', z3.IntSort(), S.B32)
    R1, R2 = z3.Function('r1', z3.IntSort(), S.B32), z3.Function('r2', z3.IntSort(), S.B32)
    p = z3.BitVec('p', 32)
    i, k, n = z3.Ints('i k n')
    diff = lambda base, lo, i: z3.If(i == 0, IN(lo) - base, IN(lo + i) - IN(lo + i - 1))
    L.prove('differences of a later batch are those of the whole', diff(IN(k - 1), k, i) == diff(p, z3.IntVal(0), k + i), [k >= 1, i >= 0])
    L.prove('differences of the first batch are those of the whole', diff(p, z3.IntVal(0), i) == z3.If(i == 0, IN(0) - p, IN(i) - IN(i - 1)), [i >= 0])
    # R1: running sums of the whole from p; R2: running sums of the batch from R1(k-1)
    L.prove('running sums of a later batch, base', R2(0) == R1(k), [k >= 1, R1(k) == R1(k - 1) + V(k), R2(0) == R1(k - 1) + V(k)])
    L.prove('running sums of a later batch, step', R2(i + 1) == R1(k + i + 1), [i >= 0, R2(i) == R1(k + i), R2(i + 1) == R2(i) + V(k + i + 1), R1(k + i + 1) == R1(k + i) + V(k + i + 1)])
    # the differential writer and reader streams are these sequences
    sp = Spec(False); sp.realarith = True
    cont = SeqC(32, lambda j: IN(zi(j)))
    w = Writer(0, sp, cont, 0, n, p)
    L.prove('the differential encoder encodes in[i] - in[i-1]', w.X(i) == diff(p, z3.IntVal(0), i), [0 <= i, i < n] + w.xdef(i) + w.extdef(i - 1))
    # blocks: the second half of a block of eight takes in[3] as base
    ws = [z3.BitVec('w%d' % j, 32) for j in range(8)]
    L.prove('second half of a block of eight continues the first', z3.And(*[(ws[4 + j] - (ws[3] if j == 0 else ws[3 + j])) == (ws[4 + j] - ws[3 + j]) for j in range(4)]))
    sums()(L)
    return L.obls

def agree(pg):
    """the general, portable and accelerated form of an operation have the same functional contract"""
    L = Lem('agree')
    from contract import Clause
    fam = [['writer.WriteAll', 'writer.WriteAllScalar', 'writer.WriteAllFast'], ['writer.WriteAllDelta', 'writer.WriteAllDeltaScalar', 'writer.WriteAllDeltaFast'],
           ['reader.ReadAll', 'reader.ReadAllScalar', 'reader.ReadAllFast'], ['reader.ReadAllDelta', 'reader.ReadAllDeltaScalar', 'reader.ReadAllDeltaFast'],
           ['encode.Put8uint32', 'encode.Put8uint32Scalar', 'encode.Put8uint32Fast', 'encode.Put8uint32FastAsm'],
           ['encode.Put8uint32Delta', 'encode.Put8uint32DeltaScalar', 'encode.Put8uint32DeltaFast', 'encode.Put8uint32DeltaFastAsm'],
           ['decode.Get8uint32', 'decode.Get8uint32Scalar', 'decode.Get8uint32Fast', 'decode.Get8uint32FastAsm'],
           ['decode.Get8uint32Delta', 'decode.Get8uint32DeltaScalar', 'decode.Get8uint32DeltaFast', 'decode.Get8uint32DeltaFastAsm']]
    for fs in fam:
        base = [c.text for c in pg.contracts[fs[0]].ensures]
        for f in fs[1:]:
            L.eval('%s and %s promise the same result' % (fs[0], f), [c.text for c in pg.contracts[f].ensures] == base)
    # ... and it determines the result: every byte of the stream, every integer, the control word
    for fs in fam:
        c = pg.contracts[fs[0]]
        if fs[0].startswith('writer'):
            ok = len(c.ensures) == 2 and c.ensures[0].e[1] == '==' and c.ensures[1].e[0] == 'forall' and c.ensures[1].e[3] == c.ensures[0].e[3] and c.ensures[1].e[2] == ('num', 0)
        elif fs[0].startswith('reader'):
            ok = len(c.ensures) == 1 and c.ensures[0].e[0] == 'forall' and c.ensures[0].e[3] == ('var', 'count')
        else: ok = all(x.e[0] == 'forall' or x.e[1] == '==' for x in c.ensures)
        L.eval('the contract of %s determines the result' % fs[0], ok)
    return L.obls

def tables(pg):
    """the exported lookup tables, as the package initialisers leave them"""
    L = Lem('tables')
    for which, (tr, mem) in enumerate(pg.variants):
        g = {k[1].rsplit('/', 1)[-1]: v for k, v in mem.items() if k[0] == 'g'}
        def arr(name):
            v = g.get('shared.' + name)
            if isinstance(v, Ptr):
                r = mem.get(v.obj)
                for q in v.path: r = r.c[q]
                return r
            return v
        enc, dec, ln, per = arr('EncodeShuffleTable'), arr('DecodeShuffleTable'), arr('PerControlLenTable'), arr('PerNumLenTable')
        for c in range(256):
            ls = lens(c)
            def rd(f):
                try: return f()
                except Exception: return None
            L.eval('PerControlLenTable[%d] is the sum of the four lengths' % c, rd(lambda: ln.rd(c)) == sum(ls))
            L.eval('PerNumLenTable[%d] holds the four lengths' % c, rd(lambda: [per.c[c].rd(j) for j in range(4)]) == ls)
            row = rd(lambda: [enc.c[c].rd(k) for k in range(16)]) or []
            w = [4 * j + b for j in range(4) for b in range(ls[j])]
            L.eval('EncodeShuffleTable[%d] gathers the significant bytes' % c, row[:len(w)] == w)
            row = rd(lambda: [dec.c[c].rd(k) for k in range(16)]) or [None] * 16
            off = 0; ok = True
            for j in range(4):
                for b in range(4):
                    x = row[4 * j + b]
                    ok = ok and (x == off + b if b < ls[j] else isinstance(x, int) and 128 <= x <= 255)
                off += ls[j]
            L.eval('DecodeShuffleTable[%d] spreads the bytes and fills with zeros' % c, ok)
    return L.obls

def varint(pg):
    """the varint of a value, offsets of varints, and what an encoder leaves is what the decoder asks for"""
    L = Lem('varint')
    x = z3.BitVec('x', 32)
    n = S.vl_def(x)
    L.prove('a varint has 1 to 5 bytes', z3.And(n >= 1, n <= 5))
    val = z3.BitVecVal(0, 40)
    for j in range(5):
        b = S.vb_def(x, z3.IntVal(j))
        L.prove('byte %d of a varint has its top bit set exactly if another byte follows' % j, z3.Implies(n > j, (z3.Extract(7, 7, b) == 1) == (n > j + 1)))
        val = val + z3.If(n > j, z3.ZeroExt(33, z3.Extract(6, 0, b)) << (7 * j), z3.BitVecVal(0, 40))
    L.prove('the seven-bit digits of a varint, least significant first, are the value', val == z3.ZeroExt(8, x))
    L.prove('a varint has no superfluous digit', z3.And(*[z3.Implies(n == k, z3.UGE(x, 1 << (7 * (k - 1)))) for k in range(2, 6)]))
    OFF = z3.Function('OFF', z3.IntSort(), z3.IntSort())
    X = z3.Function('X', z3.IntSort(), S.B32)
    a, b, i = z3.Ints('a b i')
    step = lambda g: z3.And(OFF(g + 1) == OFF(g) + S.VL(X(g)), S.VL(X(g)) == S.vl_def(X(g)))
    P = lambda b: z3.And(OFF(a) + (b - a) <= OFF(b), OFF(b) <= OFF(a) + 5 * (b - a))
    L.prove('bounds on the distance of two varints, base', P(a))
    L.prove('bounds on the distance of two varints, step', P(b + 1), [a <= b, P(b), step(b)])
    L.prove('a position lies in one varint', z3.BoolVal(False), [a < b, OFF(a) <= i, i < OFF(a + 1), OFF(b) <= i, i < OFF(b + 1), OFF(a + 1) + (b - a - 1) <= OFF(b)])
    def sube(e, pairs):
        for k, v in pairs:
            if e == k: return v
        if isinstance(e, tuple): return tuple(sube(y, pairs) for y in e)
        if isinstance(e, list): return [sube(y, pairs) for y in e]
        return e
    for put, get, data, end in (('util.PutVarint', 'util.GetVarint', 'data', 'VEND'), ('util.PutDeltaVarint', 'util.GetDeltaVarint', 'in', 'VENDD')):
        p, g = pg.contracts[put], pg.contracts[get]
        V = lambda n: ('var', n)
        endw = ('call', end, [V('nums')] + ([V('prev')] if end == 'VENDD' else []))
        have = [sube(c.e, [(endw, V('result'))]) if c.e[0] == 'forall' else c.e for c in p.ensures]
        need = [sube(c.e, [(('call', 'len', [V(data)]), V('result')), (V(data), V('out')), (V('xs'), V('nums'))]) for c in g.requires if c.tag != 'panic']
        L.eval('what %s leaves in out[0:result] is what %s asks for, with the same list' % (put, get), all(q in have for q in need) and len(need) == 2)
        L.eval('%s returns the number of bytes it was given and restores the list' % get, [c.text for c in g.ensures] == ['result == len(%s)' % data, 'forall k in 0..len(xs) :: out[k] == xs[k]'])
    return L.obls

def rows():
    import asm
    return asm.row_lemmas()

def run(name, pg, cases):
    f = globals()[name]
    return f(pg) if name in ('tables', 'agree', 'varint') else f()
