"""Evaluation of contract expressions."""
import z3
from val import *
import spec as S
from spec import Reader, Writer, Varint

class Env:
    """names -> (value, kind, bits); mem(obj) -> contents"""
    def __init__(self, names, mem, pre=None):
        self.names = names; self.mem = mem; self.pre = pre or mem
    def bind(self, n, v, kind=('int', 64)):
        e = Env(dict(self.names), self.mem, self.pre)
        e.names[n] = (v, kind)
        return e

UNDEF = object()     # an element of a nil slice

class Evaluator:
    def __init__(self, ex):
        self.ex = ex
        self.nil = {}
        self.sp = ex.spec

    def num(self, v):
        return v

    def ev(self, e, env):
        k = e[0]
        if k == 'num': return e[1]
        if k == 'var':
            n = e[1]
            if n == 'true': return True
            if n == 'false': return False
            if n in env.names:
                v, kd = env.names[n]
                if kd[0] == 'uint': return zbv(v, kd[1])
                return v
            c = self.ex.prog.consts.get(n)
            if c is not None: return c
            raise Unsupported('contract name %s' % n)
        if k == 'bin': return self.bin(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'cmp': return self.cmp(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'and':
            a = self.ev(e[1], env)
            if a is False: return False
            return land(a, self.ev(e[2], env))
        if k == 'or': return lor(self.ev(e[1], env), self.ev(e[2], env))
        if k == 'not': return lnot(self.ev(e[1], env))
        if k == 'imp':
            a = self.ev(e[1], env)
            if a is False: return True
            return lor(lnot(a), self.ev(e[2], env))
        if k == 'idx':
            s = self.ev(e[1], env); i = self.ev(e[2], env)
            return self.at(s, i, env)
        if k == 'slice':
            s = self.ev(e[1], env); lo = self.ev(e[2], env)
            hi = s.len if e[3] is None else self.ev(e[3], env)
            return Slice(s.obj, s.path, iadd(s.base, lo), isub(hi, lo), isub(s.cap, lo))
        if k == 'call': return self.call(e[1], e[2], env)
        raise Unsupported('contract expression %s' % k)

    def content(self, s, env, w=32):
        if s.obj is None:
            # a nil slice has no elements: whatever the contract says of them must hold vacuously
            if w not in self.nil:
                h = uf_content(fresh_name('nil'), w)
                self.nil[w] = SeqC(w, lambda i: h(zi(i)), (), False)
            return self.nil[w]
        v = env.mem(s.obj)
        for p in s.path:
            v = v.c[p]
        return v
    def at(self, s, i, env):
        if s.obj is None: return UNDEF
        c = self.content(s, env)
        v = c.rd(iadd(s.base, i))
        return v if c.signed else zbv(v, c.w)

    def bin(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if z3.is_bv(a) or z3.is_bv(b):
            w = a.size() if z3.is_bv(a) else b.size()
            a, b = zbv(a, w), zbv(b, w)
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: z3.URem(a, b), '/': lambda: z3.UDiv(a, b)}[op]()
            return z3.simplify(r)
        if op == '+': return iadd(a, b)
        if op == '-': return isub(a, b)
        if op == '*': return imul(a, b)
        if op == '/': return idivf(a, b)
        if op == '%': return imod(a, b)
    def cmp(self, op, a, b):
        if a is UNDEF or b is UNDEF: return fresh_bool('undef')
        if z3.is_bv(a) or z3.is_bv(b):
            w = a.size() if z3.is_bv(a) else b.size()
            a, b = zbv(a, w), zbv(b, w)
            return sb({'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: z3.ULT(a, b), '<=': lambda: z3.ULE(a, b),
                       '>': lambda: z3.UGT(a, b), '>=': lambda: z3.UGE(a, b)}[op]())
        if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
            r = sb(zb(a) == zb(b))
            return r if op == '==' else lnot(r)
        return icmp(op, a, b)

    def block(self, s, m, env, prev=None):
        """the m integers of a (partial) block, padded with zeros, or their differences"""
        c = self.content(s, env)
        xs = []
        for j in range(4):
            v = zbv(c.rd(iadd(s.base, j)), 32)
            if prev is not None:
                b = zbv(prev, 32) if j == 0 else zbv(c.rd(iadd(s.base, j - 1)), 32)
                v = self.sp.sub(v, b)
            g = icmp('<', j, m)
            if g is True: xs.append(v)
            elif g is False: xs.append(z3.BitVecVal(0, 32))
            else: xs.append(z3.If(g, v, z3.BitVecVal(0, 32)))
        return xs

    def inst(self, kind, s, n, prev, env):
        c = self.content(s, env, 8 if kind == 'r' else 32)
        key = (kind, id(c), str(s.base), str(n), None if prev is None else str(prev))
        i = self.sp.insts.get(key)
        if i is None:
            idx = len(self.sp.insts)
            i = Reader(idx, self.sp, c, s.base, n) if kind == 'r' else (Writer if kind == 'w' else Varint)(idx, self.sp, c, s.base, n, prev)
            self.sp.insts[key] = i
            self.sp.order.append(i)
            self.sp.keep.append(c)
        return i

    def call(self, f, args, env):
        A = lambda i: self.ev(args[i], env)
        sp = self.sp
        if f == 'len': return A(0).len
        if f == 'MAXLEN': return self.ex.lenmax
        if f == 'ISAMD64': return self.ex.prog.arch == 'amd64'
        if f == 'CPU':
            # every feature the accelerated code of a package needs is reported
            return self.ex.cpucond(self.ex.features.get(args[0][1], {'?'}))
        if f == 'cap': return A(0).cap
        if f in ('min', 'max'):
            a, b = A(0), A(1)
            c = self.ex.decide(icmp('<=', a, b))
            if isinstance(c, bool): return a if c == (f == 'min') else b
            return imin(a, b) if f == 'min' else imax(a, b)
        if f in ('CODE', 'CODED'):
            # zero-based byte length of integer j of the first m of s (of the differences)
            s, m, j = A(0), A(1), A(2)
            x = self.block(s, m, env, A(3) if f == 'CODED' else None)[j]
            return sp.cached(S.code_fv, x)
        if f == 'ite':
            c = self.ex.decide(A(0))
            if c is True: return A(1)
            if c is False: return A(2)
            a, b = A(1), A(2)
            w = a.size() if z3.is_bv(a) else b.size() if z3.is_bv(b) else None
            return ite(c, a, b, w)
        if f == 'old':
            return self.ev(args[0], Env(env.names, env.pre))
        if f == 'int':
            from sym import to_int
            return to_int(A(0), 0)
        if f == 'LO':
            w = A(0)
            return z3.simplify(z3.Extract(7, 0, zbv(w, 16)))
        if f == 'HI':
            w = A(0)
            return z3.simplify(z3.Extract(15, 8, zbv(w, 16)))
        if f == 'W16': return z3.simplify(z3.Concat(zbv(A(1), 8), zbv(A(0), 8)))
        if f == 'SZ': return sp.sz(A(0))
        if f == 'PSZ': return sp.psz(A(0), A(1))
        if f == 'LENOF':
            c, j = A(0), A(1)
            return iadd(sp.uniq(S.ccode(c, j)), 1)
        if f == 'CT': return sp.ct(self.block(A(0), 4, env))
        if f == 'CTM': return sp.ct(self.block(A(0), A(1), env))
        if f == 'CTD': return sp.ct(self.block(A(0), 4, env, A(1)))
        if f == 'CTDM': return sp.ct(self.block(A(0), A(1), env, A(2)))
        if f == 'PB': return sp.pb(self.block(A(0), 4, env), A(1))
        if f == 'PBM': return sp.pb(self.block(A(0), A(1), env), A(2))
        if f == 'PBD': return sp.pb(self.block(A(0), 4, env, A(1)), A(2))
        if f == 'PBDM': return sp.pb(self.block(A(0), A(1), env, A(2)), A(3))
        if f == 'DEC':
            s = A(0)
            return sp.dec(self.content(s, env, 8), s.base, A(1), A(2))
        if f == 'DSUM':
            s = A(0)
            return sp.dsum(self.content(s, env, 8), s.base, A(1), A(2), A(3))
        # streams
        if f in ('ENDR', 'POSR', 'V', 'RD', 'BEFORE'):
            s = A(0); n = A(1)
            i = self.inst('r', s, n, None, env)
            if f == 'ENDR': return i.end()
            if f == 'POSR': return i.pos(A(2))
            if f == 'V': return i.v(A(2))
            if f == 'BEFORE': return i.before(zbv(A(2), 32), A(3))
            return i.rd(zbv(A(2), 32), A(3))
        if f in ('ENDW', 'POSW', 'CAN'):
            s = A(0)
            i = self.inst('w', s, s.len, None, env)
            if f == 'ENDW': return i.end()
            return i.pos(A(1)) if f == 'POSW' else i.can(A(1))
        if f in ('ENDWD', 'POSWD', 'CAND', 'BEFOREW'):
            s = A(0)
            i = self.inst('w', s, s.len, zbv(A(1), 32), env)
            if f == 'ENDWD': return i.end()
            if f == 'BEFOREW': return i.ext(A(2))
            return i.pos(A(2)) if f == 'POSWD' else i.can(A(2))
        if f in ('VEND', 'VPOS', 'VSTR'):
            s = A(0)
            i = self.inst('v', s, s.len, None, env)
            if f == 'VEND': return i.end()
            return i.pos(A(1)) if f == 'VPOS' else i.can(A(1))
        if f in ('VENDD', 'VPOSD', 'VSTRD', 'VPREV'):
            s = A(0)
            i = self.inst('v', s, s.len, zbv(A(1), 32), env)
            if f == 'VENDD': return i.end()
            if f == 'VPREV': return i.ext(A(2))
            return i.pos(A(2)) if f == 'VPOSD' else i.can(A(2))
        if f == 'SORT':
            s = A(0)
            return self.ex.sortfn(self.content(s, Env(env.names, env.pre)), s.base, s.len)(zi(A(1)))
        if f in ('ENCTABLE', 'DECTABLE', 'LENTABLE'):
            p = A(0)
            if not isinstance(p, Ptr): raise Unsupported('table argument %r' % (p,))
            v = env.mem(p.obj)
            for q in p.path: v = v.c[q]
            k = (f, id(v))
            if k not in self.ex.known_tables:
                self.ex.known_tables[k] = (v, table_ok(f, v))
            return self.ex.known_tables[k][1]
        if f in self.ex.extra_fns:
            return self.ex.extra_fns[f](self, args, env)
        raise Unsupported('contract function %s' % f)

def lens(c): return [((c >> (2 * j)) & 3) + 1 for j in range(4)]

def table_ok(kind, v):
    """do the contents of a lookup table satisfy its specification?"""
    try:
        for c in range(256):
            ls = lens(c)
            if kind == 'LENTABLE':
                if v.rd(c) != sum(ls): return False
                continue
            row = [v.c[c].rd(k) for k in range(16)]
            if kind == 'ENCTABLE':
                want = [4 * j + b for j in range(4) for b in range(ls[j])]
                if row[:len(want)] != want: return False
            else:
                off = 0
                for j in range(4):
                    for b in range(4):
                        x = row[4 * j + b]
                        if b < ls[j]:
                            if x != off + b: return False
                        elif not (isinstance(x, int) and x >= 128): return False
                    off += ls[j]
        return True
    except (KeyError, AttributeError, IndexError, TypeError):
        return False
