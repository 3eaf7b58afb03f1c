"""A cheap, sound decision procedure tried before the solver: intervals of terms
compared with numerals, as recorded from the path condition."""
import z3
INF = float('inf')
K = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>',
     z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_ULT: '<', z3.Z3_OP_UGT: '>', z3.Z3_OP_EQ: '=='}
NEG = {'<=': '>', '>=': '<', '<': '>=', '>': '<=', '==': '!='}
SWAP = {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '==': '==', '!=': '!='}
_cache = {}

def num(e):
    return e.as_long() if z3.is_int_value(e) or z3.is_bv_value(e) else None

def parse(e):
    """('atom', term id, op, numeral, width) | ('and', [..]) | ('or', [..]) | True | False | None"""
    i = e.get_id()
    r = _cache.get(i)
    if r is not None: return r[1]
    p = _parse(e)
    if len(_cache) > 200000: _cache.clear()
    _cache[i] = (e, p)
    return p

def _parse(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if not z3.is_app(e): return None
    k = e.decl().kind()
    if k == z3.Z3_OP_AND: return ('and', [parse(c) for c in e.children()])
    if k == z3.Z3_OP_OR: return ('or', [parse(c) for c in e.children()])
    if k == z3.Z3_OP_NOT: return neg(parse(e.arg(0)))
    if k in K:
        a, b = e.arg(0), e.arg(1)
        if not (z3.is_int(a) or z3.is_bv(a)): return None
        n = num(b)
        if n is not None: return ('atom', a.get_id(), K[k], n, a.size() if z3.is_bv(a) else None, a)
        n = num(a)
        if n is not None: return ('atom', b.get_id(), SWAP[K[k]], n, b.size() if z3.is_bv(b) else None, b)
    return None

def neg(p):
    if p is None: return None
    if isinstance(p, bool): return not p
    if p[0] == 'and': return ('or', [neg(x) for x in p[1]])
    if p[0] == 'or': return ('and', [neg(x) for x in p[1]])
    op = '==' if p[2] == '!=' else NEG[p[2]]
    return ('atom', p[1], op) + p[3:]

def rng(R, t, w):
    r = R.get(t)
    if r is not None: return r
    return (0, (1 << w) - 1) if w is not None else (-INF, INF)

def learn(R, p):
    if p is None or isinstance(p, bool): return
    if p[0] == 'and':
        for x in p[1]: learn(R, x)
        return
    if p[0] == 'or': return
    _, t, op, n, w, a = p
    lo, hi = rng(R, t, w)
    if op == '<=': hi = min(hi, n)
    elif op == '<': hi = min(hi, n - 1)
    elif op == '>=': lo = max(lo, n)
    elif op == '>': lo = max(lo, n + 1)
    elif op == '==': lo, hi = max(lo, n), min(hi, n)
    elif op == '!=':
        if lo == n: lo += 1
        elif hi == n: hi -= 1
    R[t] = (lo, hi)

def test(R, p):
    """True / False if the path condition settles p, else None"""
    if p is None or isinstance(p, bool): return p
    if p[0] == 'and':
        r = True
        for x in p[1]:
            v = test(R, x)
            if v is False: return False
            if v is None: r = None
        return r
    if p[0] == 'or':
        r = False
        for x in p[1]:
            v = test(R, x)
            if v is True: return True
            if v is None: r = None
        return r
    _, t, op, n, w, a = p
    lo, hi = rng(R, t, w)
    if lo > hi: return None
    if op == '<=': return True if hi <= n else False if lo > n else None
    if op == '<': return True if hi < n else False if lo >= n else None
    if op == '>=': return True if lo >= n else False if hi < n else None
    if op == '>': return True if lo > n else False if hi <= n else None
    if op == '==': return True if lo == hi == n else False if n < lo or n > hi else None
    return False if lo == hi == n else True if n < lo or n > hi else None
