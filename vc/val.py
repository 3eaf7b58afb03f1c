"""Values of the symbolic executor and operations on them.

Go signed integers are mathematical integers (overflow is an obligation raised by
the executor); unsigned integers are bit vectors.  A value is a Python int when it
is concrete, an FV (finitely many guarded constants) or a z3 term otherwise.
"""
import z3

class Unsupported(Exception):
    pass

class FV:
    """A signed integer that takes one of finitely many constants, each under a
    guard (the guards are exclusive and exhaustive)."""
    __slots__ = ('leaves', '_z')
    def __init__(self, leaves):
        self.leaves = leaves      # list of (guard z3 Bool, int)
        self._z = None
    def z(self):
        if self._z is None:
            r = z3.IntVal(self.leaves[-1][1])
            for g, c in reversed(self.leaves[:-1]):
                r = z3.If(g, z3.IntVal(c), r)
            self._z = r
        return self._z
    def map(self, f):
        d = {}
        for g, c in self.leaves:
            d.setdefault(f(c), []).append(g)
        if len(d) == 1:
            return next(iter(d))
        return FV([(gs[0] if len(gs) == 1 else z3.Or(*gs), c) for c, gs in d.items()])
    def test(self, p):
        gs = [g for g, c in self.leaves if p(c)]
        if not gs:
            return False
        if len(gs) == len(self.leaves):
            return True
        ng = [g for g, c in self.leaves if not p(c)]
        if len(ng) < len(gs):
            return z3.Not(ng[0] if len(ng) == 1 else z3.Or(*ng))
        return gs[0] if len(gs) == 1 else z3.Or(*gs)

def fv2(a, b, f):
    if isinstance(b, int):
        return a.map(lambda c: f(c, b))
    if isinstance(a, int):
        return b.map(lambda c: f(a, c))
    d = {}
    for g, c in a.leaves:
        for h, e in b.leaves:
            d.setdefault(f(c, e), []).append(z3.And(g, h))
    if len(d) == 1:
        return next(iter(d))
    return FV([(gs[0] if len(gs) == 1 else z3.Or(*gs), c) for c, gs in d.items()])

def isc(v):
    return isinstance(v, int) and not isinstance(v, bool)

def zi(v):
    """z3 Int of a signed integer value"""
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, FV):
        return v.z()
    return v

def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v

def zbv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v

def ci(e):
    """concretise a z3 term if it is a numeral"""
    if isinstance(e, (int, FV)):
        return e
    if z3.is_int_value(e) or z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e

def simp(e):
    if isinstance(e, (int, bool, FV)):
        return e
    return ci(z3.simplify(e))

def sb(e):
    """simplified boolean"""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e

def land(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)

def lor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)

def lnot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)

def ite(c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool,)) or isinstance(b, (bool,)) or (z3.is_expr(a) and z3.is_bool(a)) :
        return z3.If(c, zb(a), zb(b))
    if w is not None:
        return z3.If(c, zbv(a, w), zbv(b, w))
    return z3.If(c, zi(a), zi(b))

# ---- integer (mathematical) operations
def iadd(a, b):
    if isc(a) and isc(b): return a + b
    if isinstance(a, (FV, int)) and isinstance(b, (FV, int)) and small(a, b): return fv2(a, b, lambda x, y: x + y)
    return simp(zi(a) + zi(b))
def isub(a, b):
    if isc(a) and isc(b): return a - b
    if isinstance(a, (FV, int)) and isinstance(b, (FV, int)) and small(a, b): return fv2(a, b, lambda x, y: x - y)
    return simp(zi(a) - zi(b))
def imul(a, b):
    if isc(a) and isc(b): return a * b
    if isinstance(a, (FV, int)) and isinstance(b, (FV, int)) and small(a, b): return fv2(a, b, lambda x, y: x * y)
    return simp(zi(a) * zi(b))
def small(a, b):
    n = len(a.leaves) if isinstance(a, FV) else 1
    m = len(b.leaves) if isinstance(b, FV) else 1
    return n * m <= 64
def icmp(op, a, b):
    f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
         '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op]
    if isc(a) and isc(b): return f(a, b)
    if isinstance(a, FV) and isc(b): return a.test(lambda c: f(c, b))
    if isinstance(b, FV) and isc(a): return b.test(lambda c: f(a, c))
    return sb(f(zi(a), zi(b)))
def imin(a, b):
    if isc(a) and isc(b): return min(a, b)
    return ite(icmp('<=', a, b), a, b)
def imax(a, b):
    if isc(a) and isc(b): return max(a, b)
    return ite(icmp('>=', a, b), a, b)
def idivf(a, c):
    """floor division by a positive constant"""
    if isc(a): return a // c
    if isinstance(a, FV): return a.map(lambda x: x // c)
    return simp(zi(a) / c)
def imod(a, c):
    if isc(a): return a % c
    if isinstance(a, FV): return a.map(lambda x: x % c)
    return simp(zi(a) % c)

# ---- memory contents of arrays of scalars
class SeqC:
    """Immutable contents of an array of scalars: a base plus layers of writes."""
    __slots__ = ('w', 'base', 'layers', 'signed', 'key')
    def __init__(self, w, base, layers=(), signed=False, key=None):
        self.w = w            # element width in bits ('int' elements: w with signed=True)
        self.base = base      # fn(index)->value
        self.layers = layers
        self.signed = signed
        self.key = key        # identity for uninterpreted content (param name) or None
    def wr(self, idx, v):
        ls = self.layers
        if isc(idx):
            if ls and isinstance(ls[-1], dict):
                d = dict(ls[-1]); d[idx] = v
                return SeqC(self.w, self.base, ls[:-1] + (d,), self.signed)
            return SeqC(self.w, self.base, ls + ({idx: v},), self.signed)
        return SeqC(self.w, self.base, ls + ((idx, v),), self.signed)
    def region(self, lo, hi, fn):
        c = icmp('<', lo, hi)
        if c is False:
            return self
        return SeqC(self.w, self.base, self.layers + ((lo, hi, fn),), self.signed)
    def rd(self, i):
        v = self._rd(i, len(self.layers) - 1)
        return v
    def _mk(self, c, a, b):
        if c is True: return a
        if c is False: return b()
        b = b()
        if a is b: return a
        if isc(a) and isc(b) and a == b: return a
        return ite(c, a, b, None if self.signed else self.w)
    def _rd(self, i, k):
        while k >= 0:
            l = self.layers[k]
            if isinstance(l, dict):
                if isc(i):
                    if i in l:
                        return l[i]
                    k -= 1
                    continue
                if len(l) > 300:
                    raise Unsupported('symbolic index into a large concrete array')
                r = self._rd(i, k - 1)
                for j, v in l.items():
                    r = self._mk(icmp('==', i, j), v, lambda r=r: r)
                return r
            if len(l) == 2:
                c = icmp('==', i, l[0])
                if c is True: return l[1]
                if c is False:
                    k -= 1
                    continue
                return self._mk(c, l[1], lambda: self._rd(i, k - 1))
            lo, hi, fn = l
            c = land(icmp('<=', lo, i), icmp('<', i, hi))
            if c is False:
                k -= 1
                continue
            if c is True:
                return fn(i)
            return self._mk(c, fn(i), lambda: self._rd(i, k - 1))
        return self.base(i)

_fresh = [0]
def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])
def reset_names():
    _fresh[0] = 0
def fresh_int(p): return z3.Int(fresh_name(p))
def fresh_bv(p, w): return z3.BitVec(fresh_name(p), w)
def fresh_bool(p): return z3.Bool(fresh_name(p))

def uf_content(name, w, signed=False):
    rng = z3.IntSort() if signed else z3.BitVecSort(w)
    f = z3.Function(name, z3.IntSort(), rng)
    return f

# ---- references
class Ptr:
    __slots__ = ('obj', 'path')
    def __init__(self, obj, path=()):
        self.obj = obj; self.path = path
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.path)
class Slice:
    __slots__ = ('obj', 'path', 'base', 'len', 'cap')
    def __init__(self, obj, path, base, len, cap):
        self.obj = obj; self.path = path; self.base = base; self.len = len; self.cap = cap
    def __repr__(self): return 'Slice(%s%s,%s,%s,%s)' % (self.obj, self.path, self.base, self.len, self.cap)
class FuncRef:
    __slots__ = ('name', 'binds')
    def __init__(self, name, binds=()):
        self.name = name; self.binds = binds
    def __repr__(self): return 'Func(%s)' % self.name
class Iface:
    __slots__ = ('t', 'v')
    def __init__(self, t, v): self.t = t; self.v = v
class Agg:
    """array / struct value: list of components (a SeqC for arrays of scalars)"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
class Opaque:
    __slots__ = ('what',)
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what
NILSLICE = Slice(None, (), 0, 0, 0)
