"""Statement execution, calls, loops and whole-function verification."""
import time, z3
from val import *
from sym import *
from ev import Env, Evaluator
from cut import CutMixin, NoMeasure
import spec as S

class Kill(Exception):
    """this path ends here"""

class Stop:
    __slots__ = ('depth', 'header', 'blocks', 'back', 'exits', 'fnframe')
    def __init__(self, depth, header, blocks):
        self.depth, self.header, self.blocks = depth, header, blocks
        self.back = []; self.exits = []


MODULE = 'streamvbyte-simdgo'

class Verifier(CutMixin, Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.unrolled = set(); self.ghostvals = {}; self.draws = []; self.ends = []; self.sorts = {}
        self.evl = Evaluator(self)
        self.extra_fns = {}
        self.modranges = []
        self.objn = 0
        self.celltype = {}
        self.slices = set()
        self.results = []
        self.features = self.opts.get('features', {})
        self.variant_globals = self.opts.get('variant_globals', set())

    # ------------------------------------------------------------ driver
    def run(self, work, stop=None):
        """run all paths; finished top-level paths call self.finish"""
        while work:
            st = work.pop()
            if time.time() > self.deadline: raise PathLimit('time budget exhausted')
            self.paths += 1
            if self.paths > self.maxpaths: raise PathLimit('too many paths')
            self.path(st, work, stop)

    def path(self, st, work, stop):
        self.cur = st
        try:
            while True:
                fr = st.frames[-1]
                b = fr.fn.blocks[fr.blk]
                ins = b['i']
                if fr.idx >= len(ins):
                    raise Unsupported('fell off block')
                i = ins[fr.idx]
                self.steps += 1
                n0 = len(self.obls)
                try:
                    r = self.instr(st, fr, i, work, stop)
                except Fork as f:
                    self.fork(st, f, work)
                    return
                if r == 'stop': return
        except (Kill, Dead):
            return

    def fork(self, st, f, work):
        for cond, key, c in f.alts:
            s2 = st.copy()
            s2.assume(cond)
            if key is not None:
                s2.known[key[0]] = (key[1], c)
            work.append(s2)

    # ------------------------------------------------------------ control flow
    def goto(self, st, fr, target, work, stop):
        depth = len(st.frames)
        if stop is not None and depth == stop.depth and fr.fn is stop.fnframe:
            if target == stop.header:
                fr.prev = fr.blk; fr.blk = target; fr.idx = 0
                stop.back.append(st)
                return 'stop'
            if target not in stop.blocks:
                stop.exits.append((st, fr.blk, target))
                return 'stop'
        src = fr.blk
        fr.prev = src; fr.blk = target; fr.idx = 0
        loops = fr.fn.loops
        if target in loops:
            inside = src in loops[target]
            if not inside: fr.counts[target] = 0
            fr.counts[target] = fr.counts.get(target, 0) + 1
            if fr.counts[target] > 300:
                raise Unsupported('loop does not unroll (%s)' % fr.fn.key)
            if self.con is not None and self.con.progress is not None and not self.initmode and not self.unrolls(st, fr, target, stop):
                if not self.concrete_guard(st, fr, target):
                    if self.con.opts.get('unroll') == 'inner' and (len(st.frames) > 1 or stop is not None):
                        # an inner loop over the bytes of one integer: no progress over the list
                        try: self.cut(st, fr, target, work, stop)
                        except NoMeasure:
                            self.unrolled.add((fr.fn.name, target))
                            return None
                    else: self.cut(st, fr, target, work, stop)
                    return 'stop'
            elif fr.counts[target] > int(self.opts.get('unroll', 80)):
                if not self.initmode and not self.concrete_guard(st, fr, target):
                    raise Unsupported('loop does not unroll (%s)' % fr.fn.key)
        return None

    def unrolls(self, st, fr, target, stop):
        # loops of library functions executed from their source are unrolled
        return (fr.fn.name, target) in self.unrolled or fr.fn.pkg not in self.prog.own and '/' + MODULE not in '/' + fr.fn.pkg

    def enter_phis(self, st, fr):
        b = fr.fn.blocks[fr.blk]
        k = b['preds'].index(fr.prev)
        vals = []
        n = 0
        for i in b['i']:
            if i['op'] != 'phi': break
            vals.append((i['n'], self.val(st, i['e'][k])))
            n += 1
        for name, v in vals: fr.regs[name] = v
        fr.idx = n

    def concrete_guard(self, st, fr, header):
        """is the branch at the end of the header block decided by concrete values?"""
        s2 = st.copy()
        f2 = s2.frames[-1]
        save = self.cur
        self.quiet += 1
        self.cur = s2
        try:
            self.enter_phis(s2, f2)
            b = f2.fn.blocks[f2.blk]
            for i in b['i'][f2.idx:]:
                if i['op'] == 'if':
                    return isinstance(self.val(s2, i['x']), bool)
                if i['op'] in ('bin', 'un', 'convert', 'extract', 'changetype'):
                    self.pure(s2, f2, i)
                elif i['op'] == 'call' and i['fn'][0] == 'b' and i['fn'][2] in ('len', 'cap'):
                    self.instr(s2, f2, i, [], None)
                else:
                    return False
            return False
        except (Fork, Dead, Kill, Unsupported, KeyError):
            return False
        finally:
            self.quiet -= 1
            self.cur = save

    # ------------------------------------------------------------ instructions
    def pure(self, st, fr, i):
        op = i['op']
        pos = i.get('pos', '')
        if op == 'bin': v = self.binop(st, i, pos)
        elif op == 'un':
            x = self.val(st, i['x'])
            o = i['o']
            if o == '*': v = self.load(st, x, i['t'])
            elif o == '-':
                kd, w = self.prog.kind(i['t'])
                if kd == 'int': v = self.wrapint(st, isub(0, x), w, pos, 'negation', self.prog.ty(i['t'])['k'] != 'int')
                else: v = (-x) & ((1 << w) - 1) if isc(x) else simp(-x)
            elif o == '!': v = lnot(x)
            elif o == '^':
                kd, w = self.prog.kind(i['t'])
                if kd == 'int': v = isub(-1, x)
                else: v = ~x & ((1 << w) - 1) if isc(x) else simp(~x)
            else: raise Unsupported('unary ' + o)
        elif op == 'convert':
            v = self.convert(st, self.val(st, i['x']), i['x'][1], i['t'], pos)
        elif op in ('changetype', 'changeiface'):
            v = self.val(st, i['x'])
        elif op == 'extract':
            v = self.val(st, i['x'])[i['i']]
        else:
            raise Unsupported(op)
        fr.regs[i['n']] = v

    def instr(self, st, fr, i, work, stop):
        op = i['op']
        pos = i.get('pos', '')
        if op == 'phi':
            self.enter_phis(st, fr)
            return
        if op in ('bin', 'un', 'convert', 'changetype', 'changeiface', 'extract'):
            self.pure(st, fr, i)
        elif op == 'if':
            c = self.val(st, i['x'])
            succ = fr.fn.blocks[fr.blk]['succs']
            if isinstance(c, bool):
                return self.goto(st, fr, succ[0 if c else 1], work, stop)
            t = self.feasible(st, c)
            nc = z3.Not(c)
            f = self.feasible(st, nc) if t else True
            if t and f:
                s2 = st.copy()
                s2.assume(nc)
                f2 = s2.frames[-1]
                self.cur = s2
                if self.goto(s2, f2, succ[1], work, stop) != 'stop':
                    work.append(s2)
                self.cur = st
                st.assume(c)
                return self.goto(st, fr, succ[0], work, stop)
            st.assume(c if t else nc)
            return self.goto(st, fr, succ[0 if t else 1], work, stop)
        elif op == 'jump':
            return self.goto(st, fr, fr.fn.blocks[fr.blk]['succs'][0], work, stop)
        elif op == 'ret':
            return self.ret(st, fr, [self.val(st, x) for x in i['x']], work, stop, pos)
        elif op == 'panic':
            self.oblige(st, 'panic', 'panic', 'panic statement is unreachable', False, pos)
            raise Kill()
        elif op == 'alloc':
            self.objn += 1
            obj = ('a', self.objn, pos)
            et = self.prog.ty(i['t'])['elem']
            st.mem[obj] = self.zero(et)
            self.celltype[obj] = et
            fr.regs[i['n']] = Ptr(obj)
        elif op == 'store':
            self.store(st, self.val(st, i['a']), self.val(st, i['x']), pos)
        elif op == 'indexaddr':
            self.indexaddr(st, fr, i, pos)
        elif op == 'fieldaddr':
            p = self.val(st, i['x'])
            if p is None: self.oblige(st, 'panic', 'nil', 'nil pointer dereference', False, pos)
            if not isinstance(p, Ptr): raise Unsupported('field of %r' % (p,))
            fr.regs[i['n']] = Ptr(p.obj, p.path + (i['f'],))
        elif op == 'field':
            fr.regs[i['n']] = self.val(st, i['x']).c[i['f']]
        elif op == 'index':
            x = self.val(st, i['x'])
            k = self.val(st, i['i'])
            T = self.prog.ty(i['x'][1])
            if isinstance(x, str):
                k = self.conc(st, k)
                self.oblige(st, 'panic', 'bounds', 'index in range', 0 <= k < len(x), pos)
                fr.regs[i['n']] = ord(x[k])
            else:
                self.bounds(st, k, i['i'][1], T.get('len', 0), pos)
                fr.regs[i['n']] = self.load_path(st, x, (k,))
        elif op == 'slice':
            self.slice(st, fr, i, pos)
        elif op == 'makeslice':
            n, c = self.val(st, i['len']), self.val(st, i['cap'])
            et = self.prog.ty(i['t'])['elem']
            ek = self.prog.ty(et)['k']
            # a length that does not fit would panic (or exhaust memory)
            self.oblige(st, 'panic', 'makeslice', 'make: length and capacity in range',
                        land(icmp('<=', 0, n), icmp('<=', n, c), icmp('<=', c, (1 << (46 if self.prog.wordbits == 64 else 30)) * 16)), pos)
            self.objn += 1
            obj = ('a', self.objn, pos)
            self.slices.add(obj)
            if ek in SIGNED or ek in UNSIGNED:
                st.mem[obj] = self.seq(et)
            else:
                k = self.conc(st, c)
                if k > 4096: raise Unsupported('make of %d aggregates' % k)
                st.mem[obj] = Agg([self.zero(et) for _ in range(k)])
            fr.regs[i['n']] = Slice(obj, (), 0, n, c)
        elif op == 'slice2arr':
            x = self.val(st, i['x'])
            n = self.prog.ty(self.prog.ty(i['t'])['elem']).get('len', 0)
            self.oblige(st, 'panic', 'bounds', 'slice to array pointer: length', icmp('>=', x.len, n), pos)
            raise Unsupported('slice to array pointer')
        elif op == 'closure':
            f = self.val(st, i['fn'])
            fr.regs[i['n']] = FuncRef(f.name, tuple(self.val(st, b) for b in i['b']))
        elif op == 'makeiface':
            fr.regs[i['n']] = Iface(i['x'][1], self.val(st, i['x']))
        elif op == 'call':
            return self.call(st, fr, i, work, stop, pos)
        elif op == 'defer':
            fn = self.val(st, i['fn']) if i['fn'][0] != 'b' else None
            fr.defers = fr.defers + ((fn, [self.val(st, a) for a in i['args']], i),)
        elif op == 'rundefers':
            if fr.defers: raise Unsupported('defer')
        else:
            raise Unsupported('instruction ' + op)
        fr.idx += 1

    def bounds(self, st, k, kt, n, pos, what='index in range'):
        kd, w = self.prog.kind(kt)
        if isinstance(k, FV): k = self.conc(st, k)
        if kd == 'uint' and not isc(k):
            if isc(n) and ub(k) < n: c = True
            elif isc(n): c = sb(z3.ULT(k, z3.BitVecVal(n, w))) if n < (1 << w) else True
            else: c = icmp('<', to_int(k, w), n)
        else:
            c = land(icmp('<=', 0, k), icmp('<', k, n))
        self.oblige(st, 'panic', 'bounds', what, c, pos)
        return k

    def indexaddr(self, st, fr, i, pos):
        x = self.val(st, i['x']); k = self.val(st, i['i'])
        T = self.prog.ty(i['x'][1])
        if T['k'] == 'ptr':
            n = self.prog.ty(T['elem']).get('len', 0)
            if x is None: self.oblige(st, 'panic', 'nil', 'nil pointer dereference', False, pos)
            if not isinstance(x, Ptr): raise Unsupported('index of %r' % (x,))
            k = self.bounds(st, k, i['i'][1], n, pos)
            fr.regs[i['n']] = Ptr(x.obj, x.path + (k,))
            return
        if not isinstance(x, Slice): raise Unsupported('index of %r' % (x,))
        k = self.bounds(st, k, i['i'][1], x.len, pos)
        if x.obj is None:
            raise Dead()
        if not isinstance(k, int) and z3.is_bv(k):
            k = to_int(k, 0)
        j = iadd(x.base, k)
        if self.reveal and isinstance(j, FV): j = self.conc(st, j)
        fr.regs[i['n']] = Ptr(x.obj, x.path + (j,))

    def slice(self, st, fr, i, pos):
        x = self.val(st, i['x'])
        lo = self.val(st, i['lo']) if i['lo'] is not None else None
        hi = self.val(st, i['hi']) if i['hi'] is not None else None
        mx = self.val(st, i['max']) if i['max'] is not None else None
        def I(v, o):
            if v is None: return None
            if isinstance(v, FV): v = self.conc(st, v)
            if isc(v): return v
            kd, w = self.prog.kind(o[1])
            return to_int(v, w) if kd == 'uint' else v
        lo, hi, mx = I(lo, i['lo']), I(hi, i['hi']), I(mx, i['max'])
        if isinstance(x, str):
            lo = 0 if lo is None else self.conc(st, lo); hi = len(x) if hi is None else self.conc(st, hi)
            self.oblige(st, 'panic', 'bounds', 'slice bounds in range', 0 <= lo <= hi <= len(x), pos)
            fr.regs[i['n']] = x[lo:hi]
            return
        T = self.prog.ty(i['x'][1])
        if T['k'] == 'ptr':
            n = self.prog.ty(T['elem']).get('len', 0)
            if not isinstance(x, Ptr): raise Unsupported('slice of %r' % (x,))
            x = Slice(x.obj, x.path, 0, n, n)
        if not isinstance(x, Slice): raise Unsupported('slice of %r' % (x,))
        lo = 0 if lo is None else lo
        explicit = hi is not None
        hi = x.len if hi is None else hi
        top = x.cap if mx is None else mx
        c = land(icmp('<=', 0, lo), icmp('<=', lo, hi), icmp('<=', hi, top), icmp('<=', top, x.cap) if mx is not None else True)
        self.oblige(st, 'panic', 'bounds', 'slice bounds in range', c, pos)
        if explicit and x.obj is not None and x.obj[0] == 'p':
            # reslicing beyond the slice that was given would expose foreign memory
            self.oblige(st, 'mem', 'reslice', 'slice stays within the slice it was given', icmp('<=', iadd(x.base, hi), self.limit[x.obj]), pos)
        nb = iadd(x.base, lo)
        if self.reveal and isinstance(nb, FV): nb = self.conc(st, nb)
        fr.regs[i['n']] = Slice(x.obj, x.path, nb, isub(hi, lo), isub(top, lo))

    # ------------------------------------------------------------ calls
    def ret(self, st, fr, vals, work, stop, pos):
        if len(st.frames) == 1:
            self.finish(st, vals, pos)
            return 'stop'
        st.frames.pop()
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = vals[0] if len(vals) == 1 else tuple(vals)
        up.idx += 1
        if stop is not None and len(st.frames) < stop.depth:
            stop.exits.append((st, None, None))
            return 'stop'

    def call(self, st, fr, i, work, stop, pos):
        f = i['fn']
        if 'invoke' in i:
            x = self.val(st, f)
            if x is None:
                self.oblige(st, 'panic', 'nil', 'method call on a nil interface', False, pos)
                raise Kill()
            name = self.method(x, i['invoke'])
            if name is None: raise Unsupported('dynamic call of method %s' % i['invoke'])
            return self.callfn(st, fr, name, (), [x.v] + [self.val(st, a) for a in i['args']], i, pos)
        if f[0] == 'b':
            v = self.builtin(st, f[2], i, pos)
            if 'n' in i: fr.regs[i['n']] = v
            fr.idx += 1
            return
        args = [self.val(st, a) for a in i['args']]
        if f[0] == 'f':
            name = f[2]; binds = ()
        else:
            fv = self.val(st, f)
            if fv is None:
                self.oblige(st, 'panic', 'nil', 'call of a nil function', False, pos)
            if not isinstance(fv, FuncRef): raise Unsupported('call of %r' % (fv,))
            name, binds = fv.name, fv.binds
        return self.callfn(st, fr, name, binds, args, i, pos)

    def method(self, x, name):
        """the function a method call on interface value x reaches"""
        if not isinstance(x, Iface) or not isinstance(x.t, int): return None
        return (self.prog.ty(x.t).get('methods') or {}).get(name)

    def callfn(self, st, fr, name, binds, args, i, pos):
        fn = self.prog.funcs.get(name)
        v = self.intrinsic(st, name, args, i, pos)
        if v is not NotImplemented:
            if not name.endswith('.init'): self.externs.add(name)
            fr.regs[i['n']] = v
            fr.idx += 1
            return
        if fn is None:
            raise Unsupported('call of ' + name)
        con = self.contracts.get(fn.key) if '(' not in name or True else None
        if con is not None and con.arch and self.prog.arch not in con.arch: con = None
        if self.initmode or con is not None and (con.level == 'mode' or con.ghosts): con = None
        if con is not None and not con.opts.get('inline'):
            v = self.callcontract(st, fn, con, args, pos)
            fr.regs[i['n']] = v
            fr.idx += 1
            return
        if not fn.blocks:
            if self.initmode:
                self.externs.add(name)
                fr.regs[i['n']] = Opaque(name)
                fr.idx += 1
                return
            raise Unsupported('call of external function ' + name)
        if sum(1 for x in st.frames if x.fn is fn) > 6:
            raise Unsupported('recursion in ' + fn.key)
        self.inlined.add(fn.key)
        nf = Frame(fn)
        for p, a in zip(fn.params, args): nf.regs['p:' + p['n']] = a
        for p, a in zip(fn.free, binds): nf.regs['fv:' + p['n']] = a
        nf.dst = i.get('n')
        st.frames.append(nf)

    def builtin(self, st, name, i, pos):
        args = [self.val(st, a) for a in i['args']]
        if name == 'len':
            x = args[0]
            if isinstance(x, Slice): return x.len
            if isinstance(x, str): return len(x)
            T = self.prog.ty(i['args'][0][1])
            if T['k'] == 'ptr': return self.prog.ty(T['elem']).get('len', 0)
            if T['k'] == 'array': return T.get('len', 0)
        if name == 'cap':
            x = args[0]
            if isinstance(x, Slice): return x.cap
        if name == 'copy':
            d, s = args
            if isinstance(s, str): s = self.strslice(st, s, pos)
            n = imin(d.len, s.len)
            if d.obj is None or s.obj is None: return 0
            self.blockcopy(st, d, s, n, pos)
            return n
        if name == 'append':
            d, s = args
            if isinstance(s, str): s = self.strslice(st, s, pos)
            return self.append(st, d, s, i, pos)
        if name in ('min', 'max') and self.prog.kind(i['t'])[0] == 'int':
            r = args[0]
            for a in args[1:]: r = imin(r, a) if name == 'min' else imax(r, a)
            return r
        if name in ('min', 'max') and self.prog.kind(i['t'])[0] == 'uint':
            w = self.prog.kind(i['t'])[1]
            r = args[0]
            for a in args[1:]:
                c = sb(z3.ULT(zbv(a, w), zbv(r, w)))
                if name == 'max': c = sb(z3.UGT(zbv(a, w), zbv(r, w)))
                r = ite(c, a, r, w)
            return simp(r) if not isc(r) else r
        if name in ('ssa:wrapnilchk',): return args[0]
        raise Unsupported('builtin ' + name)
    def strslice(self, st, s, pos):
        """the bytes of a constant string"""
        b = s.encode('latin-1')
        if not b: return Slice(None, (), 0, 0, 0)
        self.objn += 1
        obj = ('a', self.objn, pos)
        c = SeqC(8, lambda i: 0)
        for k, x in enumerate(b): c = c.wr(k, x)
        st.mem[obj] = c
        return Slice(obj, (), 0, len(b), len(b))
    def cont(self, st, s):
        v = self.getobj(st, s.obj)
        for p in s.path: v = v.c[p]
        return v
    def setcont(self, st, s, c):
        st.mem[s.obj] = self.store_path(st, self.getobj(st, s.obj), s.path, c) if s.path else c
    def blockcopy(self, st, d, s, n, pos):
        src = self.cont(st, s); dst = self.cont(st, d)
        if not isinstance(src, SeqC) or not isinstance(dst, SeqC): raise Unsupported('copy of aggregates')
        if isinstance(n, FV): n = self.conc(st, n)
        if not self.isfresh(d.obj) and not self.initmode:
            self.frame_ok(st, d.obj, d.path, d.base, iadd(d.base, n), pos)
        if isc(n) and n <= 64:
            vals = [src.rd(iadd(s.base, k)) for k in range(n)]
            for k, v in enumerate(vals): dst = dst.wr(iadd(d.base, k), v)
        else:
            sb_, db = s.base, d.base
            dst = dst.region(db, iadd(db, n), lambda i: src.rd(iadd(isub(i, db), sb_)))
        self.setcont(st, d, dst)
    def append(self, st, d, s, i, pos):
        n = iadd(d.len, s.len)
        room = icmp('<=', n, d.cap)
        if isinstance(room, FV): room = None
        et = self.prog.ty(i['t'])['elem']
        ek = self.prog.ty(et)['k']
        if d.obj is None or room is False or (room is not True and not self.must(st, room)):
            if room is not True and room is not False and d.obj is not None and self.feasible(st, room):
                raise Fork([(room, None, None), (z3.Not(room), None, None)])
            # reallocation: fresh memory with the old contents
            self.objn += 1
            obj = ('a', self.objn, pos)
            if not (ek in SIGNED or ek in UNSIGNED):
                if not isc(d.len) or not isc(s.len): raise Unsupported('append of aggregates')
                old = [self.load_path(st, self.getobj(st, d.obj), d.path + (iadd(d.base, k),)) for k in range(d.len)] if d.obj else []
                new = [self.load_path(st, self.getobj(st, s.obj), s.path + (iadd(s.base, k),)) for k in range(s.len)] if s.obj else []
                st.mem[obj] = Agg(old + new)
                return Slice(obj, (), 0, n, n)
            c = self.seq(et)
            self.slices.add(obj)
            st.mem[obj] = c
            cp = fresh_int('cap')
            st.assume(cp >= zi(n)); st.assume(cp <= self.lenmax * 2)
            r = Slice(obj, (), 0, n, cp)
            if d.obj is not None: self.blockcopy(st, r, d, d.len, pos)
            if s.obj is not None: self.blockcopy(st, Slice(obj, (), d.len, s.len, cp), s, s.len, pos)
            return r
        r = Slice(d.obj, d.path, d.base, n, d.cap)
        if s.obj is not None:
            self.blockcopy(st, Slice(d.obj, d.path, iadd(d.base, d.len), s.len, s.len), s, s.len, pos)
        return r

    def intrinsic(self, st, name, args, i, pos):
        if name.endswith('.init') and self.initmode:
            return None
        if name.startswith('math/bits.'):
            f = name[len('math/bits.'):]
            w = {'8': 8, '16': 16, '32': 32, '64': 64}.get(f[-2:] if f[-2:].isdigit() else f[-1:], self.prog.wordbits)
            base = f.rstrip('0123456789')
            x = args[0]
            if base in ('LeadingZeros', 'Len'):
                if isc(x): n = x.bit_length(); return n if base == 'Len' else w - n
                lv = []
                for n in range(w + 1):
                    g = x == 0 if n == 0 else (z3.UGE(x, 1 << (n - 1)) if n == w else z3.And(z3.UGE(x, 1 << (n - 1)), z3.ULT(x, 1 << n)))
                    lv.append((g, n if base == 'Len' else w - n))
                return FV(lv)
            if base == 'TrailingZeros':
                if isc(x): return w if x == 0 else (x & -x).bit_length() - 1
                lv = [(x == 0, w)]
                for n in range(w):
                    lv.append((z3.Extract(n, 0, x) == (1 << n), n))
                return FV(lv)
            if base == 'OnesCount' and isc(x): return bin(x).count('1')
            if base == 'ReverseBytes':
                if isc(x): return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
                return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))
            raise Unsupported('call of ' + name)
        if name == 'math/rand.Uint32':
            return self.drawn(st, fresh_bv('rand32', 32))
        if name in ('math/rand.Int31',):
            v = fresh_int('randint')
            st.assume(v >= 0); st.assume(v < 1 << 31)
            return self.drawn(st, v)
        if name in ('math/rand.Int', 'math/rand.Int63'):
            v = fresh_int('randint')
            st.assume(v >= 0); st.assume(v < (1 << (self.prog.wordbits - 1 if name.endswith('Int') else 63)))
            return self.drawn(st, v)
        if name in ('math/rand.Intn', 'math/rand.Int31n', 'math/rand.Int63n'):
            v = fresh_int('randint')
            self.oblige(st, 'panic', 'rand', 'rand bound is positive', icmp('>', args[0], 0), pos)
            st.assume(v >= 0); st.assume(v < zi(args[0]))
            return self.drawn(st, v)
        if name in ('math/rand.Uint64',):
            return self.drawn(st, fresh_bv('rand64', 64))
        if name in ('sort.Slice', 'sort.SliceStable'):
            return self.sortslice(st, name, args, i, pos)
        if name in ('sort.Sort', 'sort.Stable'):
            return self.sortiface(st, name, args, i, pos)
        h = self.opts.get('intrinsics', {}).get(name)
        if h: return h(self, st, args, i, pos)
        return NotImplemented

    def drawn(self, st, v):
        st.draws = st.draws + (v,)
        return v
    def sortfn(self, c, base, n):
        """the sorted contents of n elements of c from base"""
        k = (id(c), str(base), str(n))
        if k not in self.sorts: self.sorts[k] = (z3.Function('SORT_%d' % len(self.sorts), z3.IntSort(), z3.BitVecSort(c.w)), c)
        f = self.sorts[k][0]
        if isc(n): return f
        # nothing to sort in a list of one
        return lambda i: ite(icmp('<=', n, 1), c.rd(iadd(base, i)), f(i), c.w)
    def callback(self, st, fname, binds, args):
        """run a function the library calls back, from a copy of the state: the states at its end, and its result"""
        fn = self.prog.funcs.get(fname)
        if fn is None or not fn.blocks: raise Unsupported('call back of ' + str(fname))
        s2 = st.copy()
        nf = Frame(fn)
        for p, v in zip(fn.params, args): nf.regs['p:' + p['n']] = v
        for p, v in zip(fn.free, binds): nf.regs['fv:' + p['n']] = v
        nf.dst = 'cb!'
        s2.frames.append(nf)
        self.inlined.add(fn.key)
        sp = Stop(len(s2.frames), -1, set(range(len(fn.blocks))))
        sp.fnframe = fn
        self.run([s2], sp)
        r = []
        for s3, _, tgt in sp.exits:
            if tgt is not None: raise Unsupported('call back of ' + fn.key)
            r.append((s3, s3.frames[-1].regs.get('cb!')))
        return r
    def sortslice(self, st, name, args, i, pos):
        x, less = args
        if isinstance(x, Iface): x = x.v
        if not isinstance(x, Slice) or not isinstance(less, FuncRef): raise Unsupported('arguments of ' + name)
        return self.sorted(st, name, x, lambda s, a, b: self.callback(s, less.name, less.binds, [a, b]), None, None, pos)
    def sortiface(self, st, name, args, i, pos):
        x = args[0]
        m = [self.method(x, n) for n in ('Len', 'Less', 'Swap')]
        if None in m or not isinstance(x.v, Slice): raise Unsupported('arguments of ' + name)
        return self.sorted(st, name, x.v, lambda s, a, b: self.callback(s, m[1], (), [x.v, a, b]), lambda s: self.callback(s, m[0], (), [x.v]),
                           lambda s, a, b: self.callback(s, m[2], (), [x.v, a, b]), pos)
    def sorted(self, st, name, x, less, length, swap, pos):
        if x.obj is None: return None
        c = self.cont(st, x)
        if not isinstance(c, SeqC) or c.signed: raise Unsupported('%s of %r' % (name, c))
        # the less function is the unsigned order of the elements, whatever order they are in
        a, b = fresh_int('i'), fresh_int('j')
        s2 = st.copy()
        h = uf_content(fresh_name('perm'), c.w)
        self.setcont(s2, x, c.region(x.base, iadd(x.base, x.len), lambda k: h(zi(k))))
        before = dict(s2.mem)
        for v in (a, b): s2.assume(v >= 0); s2.assume(v < zi(x.len))
        def unchanged(s, what, but=None):
            for o, v in s.mem.items():
                if o in before and before[o] is not v and o != but: self.oblige(s, 'frame', 'frame', 'the %s function changes nothing%s' % (what, ' else' if but else ''), False, pos)
        for s3, r in less(s2, a, b):
            self.cur = s3
            unchanged(s3, 'less')
            u, w = zbv(h(zi(iadd(x.base, a))), c.w), zbv(h(zi(iadd(x.base, b))), c.w)
            self.oblige(s3, 'func', 'sort', 'less(i, j) is element i < element j, unsigned', sb(zb(r) == z3.ULT(u, w)), pos, assume=False)
        if length is not None:
            self.cur = s2
            for s3, r in length(s2):
                self.cur = s3
                unchanged(s3, 'length')
                self.oblige(s3, 'func', 'sort', 'the length function gives the length', icmp('==', r, x.len), pos, assume=False)
        if swap is not None:
            self.cur = s2
            for s3, _ in swap(s2, a, b):
                self.cur = s3
                unchanged(s3, 'swap', x.obj)
                k = fresh_int('k')
                s3.assume(k >= 0); s3.assume(k < zi(x.len))
                u, w, e = (zbv(h(zi(iadd(x.base, y))), c.w) for y in (a, b, k))
                n = self.cont(s3, x)
                self.oblige(s3, 'func', 'sort', 'swap exchanges two elements', sb(zbv(n.rd(iadd(x.base, k)), c.w) == z3.If(k == a, w, z3.If(k == b, u, e))), pos, assume=False)
        self.cur = st
        if not self.isfresh(x.obj): self.frame_ok(st, x.obj, x.path, x.base, iadd(x.base, x.len), pos)
        f = self.sortfn(c, x.base, x.len)
        base = x.base
        self.setcont(st, x, c.region(x.base, iadd(x.base, x.len), lambda k: f(zi(isub(k, base)))))
        return None

    # ------------------------------------------------------------ contracts
    def envof(self, fn, con, args, mem, pre=None, results=None):
        names = {}
        for p, a, n in zip(fn.params, args, con.params):
            names[n] = (a, self.prog.kind(p['t']))
        if results is not None:
            for r, v, n in zip(fn.results, results, con.res or ['result']):
                names[n] = (v, self.prog.kind(r['t']))
        if con is self.con: names.update(self.ghostvals)
        env = Env(names, mem, pre)
        for n, e in con.lets:
            env.names[n] = (self.evl.ev(e, env), ('int', 64))
        return env

    def snapshot(self, st):
        m = dict(st.mem)
        def get(o):
            if o in m: return m[o]
            return self.getobj(st, o)
        return get

    def need_features(self, con):
        r = set()
        for x in con.cpu or []:
            if x.startswith('instructions(') and x.endswith(')'):
                r |= self.features.get(x[13:-1], set())
            else: r.add(x)
        return r
    def cpucond(self, feats):
        return land(*[z3.Bool('cpu.' + f) for f in sorted(feats)])

    def callcontract(self, st, fn, con, args, pos):
        self.called.add(fn.key)
        snap = self.snapshot(st)
        for p, a in zip(fn.params, args):
            if self.prog.ty(p['t'])['k'] in ('slice', 'ptr', 'func') and isinstance(a, Opaque): raise Unsupported('argument')
        env = self.envof(fn, con, args, snap)
        short = fn.key
        for a, b in con.distinct:
            x, y = env.names[a][0], env.names[b][0]
            if isinstance(x, Slice) and isinstance(y, Slice) and x.obj is not None and x.obj == y.obj:
                raise Unsupported('aliasing arguments of ' + short)
        for r in con.requires:
            g = self.evl.ev(r.e, env)
            self.oblige(st, r.tag, 'pre', 'precondition of %s: %s' % (short, r.text), g, pos)
        if con.cpu:
            self.oblige(st, 'cpu', 'cpu', 'CPU features needed by %s are reported' % short, self.cpucond(self.need_features(con)), pos)
        # frame: havoc what the callee may write, then what the postcondition says about it
        for e in con.modifies:
            s, lo, hi = self.modrange(e, env)
            if s.obj is None:
                continue
            if not self.isfresh(s.obj):
                self.frame_ok(st, s.obj, s.path, lo, hi, pos)
            cont = self.cont(st, s)
            if not isinstance(cont, SeqC): raise Unsupported('contract writes into an aggregate')
            hv = uf_content(fresh_name('h'), cont.w, cont.signed)
            self.setcont(st, s, cont.region(lo, hi, (lambda hv: lambda i: hv(zi(i)))(hv)))
        results = []
        for r, n in zip(fn.results, con.res or ['result']):
            T = self.prog.ty(r['t'])
            if T['k'] == 'slice' and con.fresh:
                self.objn += 1
                obj = ('a', self.objn, 'result of ' + short)
                et = T['elem']; kd, w = self.prog.kind(et)
                f = uf_content(fresh_name('res'), w, kd == 'int')
                st.mem[obj] = SeqC(w, lambda i: f(zi(i)), (), kd == 'int')
                ln = fresh_int('len'); cp = fresh_int('cap')
                st.assume(z3.And(ln >= 0, ln <= cp))
                results.append(Slice(obj, (), 0, ln, cp))
            else:
                v, fs = self.symval(r['t'], fresh_name('r_' + short))
                if v is None: raise Unsupported('result type of ' + short)
                for x in fs: st.assume(x)
                results.append(v)
        post = None
        facts = []
        resdef = {}
        for c in con.ensures:
            # result == expr with an opaque result: use the expression itself
            if c.e[0] == 'cmp' and c.e[1] == '==' and c.e[2] == ('var', (con.res or ['result'])[0]) and len(results) == 1 and not isinstance(results[0], Slice):
                try:
                    v = self.evl.ev(c.e[3], self.envof(fn, con, args, snap, snap, results))
                    kd, w = self.prog.kind(fn.results[0]['t'])
                    v = v if kd != 'uint' else ci(v)
                    results[0] = v
                    continue
                except Unsupported:
                    pass
        for c in con.ensures:
            if c.e[0] == 'cmp' and c.e[1] == '==' and c.e[2] == ('var', (con.res or ['result'])[0]) and len(results) == 1 and not isinstance(results[0], Slice):
                continue
            if c.e[0] == 'forall':
                _, var, a, b, body = c.e
                penv = self.envof(fn, con, args, snap, snap, results)
                lo, hi = self.evl.ev(a, penv), self.evl.ev(b, penv)
                if body[0] == 'cmp' and body[1] == '==' and body[2][0] == 'idx' and body[2][2] == ('var', var):
                    tgt = self.evl.ev(body[2][1], penv)
                    if tgt.obj is None: continue
                    cont = self.cont(st, tgt)
                    base = tgt.base
                    def val(i, body=body, penv=penv, var=var, base=base, cont=cont):
                        v = self.evl.ev(body[3], penv.bind(var, isub(i, base)))
                        return ci(v) if z3.is_expr(v) else v
                    self.setcont(st, tgt, cont.region(iadd(base, lo), iadd(base, hi), val))
                    continue
                raise Unsupported('quantified postcondition of ' + short)
        for c in con.ensures:
            if c.e[0] == 'forall': continue
            if c.e[0] == 'cmp' and c.e[1] == '==' and c.e[2] == ('var', (con.res or ['result'])[0]) and len(results) == 1 and not isinstance(results[0], Slice): continue
            env2 = self.envof(fn, con, args, self.snapshot(st), snap, results)
            g = self.evl.ev(c.e, env2)
            if z3.is_expr(g): st.assume(g)
            elif g is False: raise Unsupported('contract of %s contradicts the state' % short)
        if len(results) == 1: return results[0]
        return tuple(results) if results else None

    def modrange(self, e, env):
        if e[0] == 'slice':
            s = self.evl.ev(e[1], env)
            lo = self.evl.ev(e[2], env)
            hi = s.len if e[3] is None else self.evl.ev(e[3], env)
        else:
            s = self.evl.ev(e, env); lo, hi = 0, s.len
        return s, iadd(s.base, lo), iadd(s.base, hi)

    # ------------------------------------------------------------ function verification
    def entry(self, fn, splits):
        con = self.con
        st = State()
        fr = Frame(fn)
        st.frames.append(fr)
        args = []
        self.limit = {}
        for p, n in zip(fn.params, con.params):
            T = self.prog.ty(p['t'])
            if T['k'] == 'slice':
                et = T['elem']; kd, w = self.prog.kind(et)
                if kd not in ('int', 'uint'): raise Unsupported('parameter type')
                obj = ('p', n)
                st.mem[obj] = self.content(n, w, kd == 'int')
                L = z3.Int('len(%s)' % n); C = z3.Int('cap(%s)' % n)
                st.assume(L >= 0); st.assume(L <= C); st.assume(C <= self.lenmax * (4 if w == 8 and self.prog.wordbits == 32 else 1))
                self.limit[obj] = L
                a = Slice(obj, (), 0, L, C)
            else:
                a, fs = self.symval(p['t'], n)
                if a is None: raise Unsupported('parameter type ' + T['s'])
                for f in fs: st.assume(f)
            args.append(a)
        if len(con.params) != len(fn.params):
            raise Unsupported('the contract has %d parameters, the function %d' % (len(con.params), len(fn.params)))
        self.ghostvals = {}
        for n, t in con.ghosts:
            w = {'[]uint32': 32, '[]byte': 8, '[]uint8': 8}[t]
            obj = ('p', n)
            st.mem[obj] = self.content(n, w, False)
            L = z3.Int('len(%s)' % n)
            st.assume(L >= 0); st.assume(L <= self.lenmax)
            self.limit[obj] = L
            self.ghostvals[n] = (Slice(obj, (), 0, L, L), ('slice', 0))
        # case split requested by the contract
        self.cur = st
        for e, v in splits:
            env = self.envof(fn, con, args, self.snapshot(st))
            if e[0] != 'var':
                x = self.evl.ev(e, env)
                if isc(x):
                    if x != v: return None
                    continue
                if isinstance(x, FV):
                    g = [gg for gg, c in x.leaves if c == v]
                    if not g: return None
                    st.assume(lor(*g)); st.known[id(x)] = (x, v)
                    continue
                st.assume(sb(x == v))
                continue
            if True:
                k = [n for n in con.params].index(e[1])
                kd, w = self.prog.kind(fn.params[k]['t'])
                if isinstance(v, tuple):
                    for x in v[1]: st.assume(sb(args[k] != x))
                    for r in con.requires:
                        if r.tag == 'num': st.assume(self.evl.ev(r.e, env))
                else:
                    args[k] = v
                    st.trace = [f for f in st.trace]
        for p, a in zip(fn.params, args): fr.regs['p:' + p['n']] = a
        self.args = args
        env = self.envof(fn, con, args, self.snapshot(st))
        for r in con.requires:
            if r.e[0] != 'forall': continue
            # what the precondition says about the contents of an argument
            _, var, a, b, body = r.e
            lo, hi = self.evl.ev(a, env), self.evl.ev(b, env)
            if not (body[0] == 'cmp' and body[1] == '==' and body[2][0] == 'idx' and body[2][2] == ('var', var)): raise Unsupported('quantified precondition')
            tgt = self.evl.ev(body[2][1], env)
            cont = self.cont(st, tgt)
            def val(i, body=body, env=env, var=var, base=tgt.base):
                v = self.evl.ev(body[3], env.bind(var, isub(i, base)))
                return ci(v) if z3.is_expr(v) else v
            self.setcont(st, tgt, cont.region(iadd(tgt.base, lo), iadd(tgt.base, hi), val))
        self.pre = self.snapshot(st)
        env = self.envof(fn, con, args, self.pre)
        self.env0 = env
        for r in con.requires:
            if r.e[0] == 'forall': continue
            g = self.evl.ev(r.e, env)
            if g is False: return None
            st.assume(g)
        if con.cpu: st.assume(self.cpucond(self.need_features(con)))
        self.modranges = []
        for e in con.modifies:
            if any(x == ('var', (con.res or ['result'])[0]) for x in flat(e)): continue
            s, lo, hi = self.modrange(e, env)
            self.modranges.append((s.obj, lo, hi))
        for f in self.opts.get('variant_trace', []): st.assume(f)
        return st

    def verify(self, fn, splitsets):
        self.fn = fn
        nvac = 0
        self.nfinished = 0; self.vacuous = 0
        for splits in splitsets:
            self.splits = splits
            self.paths = 0
            st = self.entry(fn, splits)
            if st is None: continue
            self.cur = st
            if self.check(st) == z3.unsat: continue     # this case is excluded by the precondition
            nvac += 1
            self.finished = 0
            work = [st]
            self.run(work)
            self.nfinished += self.finished
            if not self.finished: self.vacuous += 1
        if self.con.opts.get('post'): getattr(self, 'post_' + self.con.opts['post'])()
        return nvac

    def finish(self, st, vals, pos):
        if self.initmode:
            self.results.append((st, vals)); return
        con = self.con
        self.finished += 1
        env = self.envof(self.fn, con, self.args, self.snapshot(st), self.pre, vals)
        if con.fresh:
            for v in vals:
                if isinstance(v, Slice):
                    ok = v.obj is None or self.isfresh(v.obj)
                    if v.obj is not None and not ok: ok = icmp('==', v.cap, 0)
                    self.oblige(st, 'fresh', 'fresh', 'result is freshly allocated memory', ok, pos)
                    if not (v.obj is None or self.isfresh(v.obj)): raise Kill()
        for c in con.ensures:
            self.ensure(st, c, env, pos)
        if con.opts.get('post'): self.ends.append((st, vals))
    def post_firstdraw(self):
        """the byte length of the result is determined by the first number drawn, and each of 1 to 4 occurs"""
        ends = []
        for st, vals in self.ends:
            x = zbv(vals[0], 32)
            L = z3.If(z3.ULT(x, 1 << 8), 1, z3.If(z3.ULT(x, 1 << 16), 2, z3.If(z3.ULT(x, 1 << 24), 3, 4)))
            if not st.draws: raise Unsupported('nothing is drawn')
            ends.append((st, L))
        for n in (1, 2, 3, 4):
            ok = False
            for st, L in ends:
                s = z3.Solver(); s.set('timeout', 20000); s.add(*st.trace); s.add(L == n)
                if s.check() == z3.sat: ok = True; break
            self.oblige(ends[0][0] if ends else State(), 'func', 'post', 'a number of %d byte%s is possible' % (n, 's' if n > 1 else ''), ok, assume=False)
        # two runs with the same first draw
        for k, (s1, L1) in enumerate(ends):
            for s2, L2 in ends:
                d1, d2 = s1.draws[0], s2.draws[0]
                consts = set()
                for f in s2.trace + [L2 == 0]: allconsts(f, consts)
                m = [(c, z3.Const(str(c) + "'", c.sort())) for c in consts if not c.eq(d2) and str(c).startswith('rand')]
                m.append((d2, d1 if d1.sort() == d2.sort() else d2))
                if d1.sort() != d2.sort(): raise Unsupported('first draws of different kinds')
                st = s1.copy()
                for f in s2.trace: st.assume(z3.substitute(f, m))
                self.cur = st
                self.oblige(st, 'func', 'post', 'the byte length of the result is fixed by the first number drawn', sb(L1 == z3.substitute(L2, m)), 'path %d' % k, assume=False)

    def ensure(self, st, c, env, pos):
        if c.e[0] == 'forall':
            _, var, a, b, body = c.e
            lo, hi = self.evl.ev(a, env), self.evl.ev(b, env)
            if self.reveal:
                lo, hi = self.conc(st, lo), self.conc(st, hi)
                for k in range(lo, hi):
                    self.oblige(st, c.tag, 'post', c.text, self.evl.ev(body, env.bind(var, k)), pos)
                return
            if isc(lo) and isc(hi) and hi - lo <= 8:
                for k in range(lo, hi):
                    self.oblige(st, c.tag, 'post', c.text, self.evl.ev(body, env.bind(var, k)), pos)
                return
            k = fresh_int('sk_' + var)
            g = self.evl.ev(body, env.bind(var, k))
            self.oblige(st, c.tag, 'post', c.text, lor(z3.Not(z3.And(zi(lo) <= k, k < zi(hi))), g), pos, assume=False)
            return
        self.oblige(st, c.tag, 'post', c.text, self.evl.ev(c.e, env), pos)

def allconsts(e, acc):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x)
        st.extend(x.children())

def flat(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from flat(x)
    elif isinstance(e, list):
        for x in e: yield from flat(x)
