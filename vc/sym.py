"""Symbolic execution of the real code (go/ssa form) against contracts.

Every obligation is a named formula that must follow from the path condition;
loops are unrolled when their trip count is concrete and cut by an inferred
inductive invariant otherwise.
"""
import time, z3
import quick
from val import *
from prog import Prog, SIGNED, UNSIGNED
import spec as S
from spec import Spec, Ground, Reader, Writer

MASKOPS = ('&', '|', '^', '&^')

class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts          # list of (condition, known-id or None, constant)

class Dead(Exception):
    pass

class PathLimit(Exception):
    pass

class Obl:
    __slots__ = ('fn', 'tag', 'kind', 'desc', 'pos', 'status', 'model', 'time', 'arch', 'variant', 'backend', 'smt', 'cross')
    def __init__(self, fn, tag, kind, desc, pos):
        self.fn, self.tag, self.kind, self.desc, self.pos = fn, tag, kind, desc, pos
        self.status = None; self.model = None; self.time = 0.0; self.backend = ''; self.smt = None; self.cross = None
        self.arch = ''; self.variant = ''
    def name(self):
        return '%s/%s/%s' % (self.fn, self.kind, self.desc)

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'prev', 'dst', 'counts', 'defers')
    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.blk = 0; self.idx = 0; self.prev = -1
        self.dst = None; self.counts = {}; self.defers = ()
    def copy(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs); f.blk, f.idx, f.prev, f.dst = self.blk, self.idx, self.prev, self.dst
        f.counts = dict(self.counts); f.defers = self.defers
        return f

INITBASE = 10 ** 9

class State:
    __slots__ = ('frames', 'trace', 'mem', 'ghosts', 'known', 'R', 'keep', 'draws')
    def __init__(self):
        self.draws = ()
        self.frames = []; self.trace = []; self.mem = {}; self.ghosts = []; self.known = {}; self.R = {}
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.trace = list(self.trace); s.mem = dict(self.mem); s.ghosts = list(self.ghosts)
        s.known = dict(self.known)
        s.R = dict(self.R); s.draws = self.draws
        return s
    def assume(self, f):
        if f is True: return
        f = zb(f)
        self.trace.append(f)
        quick.learn(self.R, quick.parse(f))
    def quick(self, c):
        if isinstance(c, bool): return c
        return quick.test(self.R, quick.parse(c))

class PathSolver:
    """an incremental solver kept in step with the path being executed"""
    def __init__(self, ex, timeout=2000, logic=None, ground=True):
        self.ex = ex; self.useground = ground
        self.s = z3.Solver() if logic is None else z3.SolverFor(logic)
        self.s.set('timeout', timeout)
        self.timeout = timeout
        self.stack = []           # trace entries
        self.nax = [0]            # axioms already asserted at each level
        self.queries = 0; self.time = 0.0
        self.AX = []
    def sync(self, trace):
        k = 0
        st = self.stack
        n = min(len(st), len(trace))
        while k < n and st[k] is trace[k]: k += 1
        while len(st) > k:
            self.s.pop(); st.pop(); self.nax.pop()
        for f in trace[k:]:
            if self.useground and self.ex.ground is not None:
                self.AX += self.ex.ground.add([f], self.ex.hints())
            self.s.push()
            st.append(f)
            self.s.add(f)
            self.nax.append(self.nax[-1])
            self._axioms()
    def _axioms(self):
        if self.nax[-1] < len(self.AX):
            self.s.add(*self.AX[self.nax[-1]:])
            self.nax[-1] = len(self.AX)
    def check(self, trace, *extra, timeout=None):
        t0 = time.time()
        self.sync(trace)
        if self.useground and self.ex.ground is not None:
            self.AX += self.ex.ground.add(list(extra), self.ex.hints())
        self.s.push()
        try:
            if self.nax[-1] < len(self.AX):
                self.s.add(*self.AX[self.nax[-1]:])
            self.s.add(*extra)
            if timeout: self.s.set('timeout', timeout)
            r = self.s.check()
            if timeout: self.s.set('timeout', self.timeout)
            self.last_model = None
            if r == z3.sat:
                self.last_model = self.s.model()
            elif r == z3.unknown and self.ex.keep_smt:
                pass
            return r
        finally:
            self.queries += 1
            self.time += time.time() - t0
            self.s.pop()

def ub(e):
    """an upper bound of a bit-vector term, structurally"""
    if isc(e): return e
    if z3.is_bv_value(e): return e.as_long()
    k = e.decl().kind()
    w = e.size()
    top = (1 << w) - 1
    if k == z3.Z3_OP_ZERO_EXT: return ub(e.arg(0))
    if k == z3.Z3_OP_BAND: return min([top] + [ub(c) for c in e.children()])
    if k == z3.Z3_OP_ITE: return max(ub(e.arg(1)), ub(e.arg(2)))
    if k == z3.Z3_OP_BADD:
        t = sum(ub(c) for c in e.children())
        return t if t <= top else top
    if k == z3.Z3_OP_CONCAT:
        # leading zero parts
        parts = e.children(); r = 0
        for p in parts: r = (r << p.size()) | ub(p)
        return min(r, top)
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == 'SZB': return 16
        if n == 'LENB': return 4
    if k == z3.Z3_OP_BOR:
        m = 0
        for c in e.children(): m = max(m, ub(c).bit_length())
        return min(top, (1 << m) - 1)
    return top

def itree(e, depth=0):
    """leaves [(guard, const)] if e is an if-then-else tree over numerals"""
    if z3.is_bv_value(e) or z3.is_int_value(e): return [(True, e.as_long())]
    if depth > 40: return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a = itree(e.arg(1), depth + 1)
        if a is None: return None
        b = itree(e.arg(2), depth + 1)
        if b is None: return None
        c = e.arg(0)
        return [(land(c, g), v) for g, v in a] + [(land(z3.Not(c), g), v) for g, v in b]
    return None

def tofv(e):
    t = itree(e)
    if t is None or len(t) > 64: return None
    d = {}
    for g, c in t: d.setdefault(c, []).append(g)
    if len(d) == 1: return next(iter(d))
    return FV([(lor(*gs), c) for c, gs in d.items()])

def to_int(e, w):
    """the mathematical value of an unsigned value"""
    if isc(e): return e
    if z3.is_bv_value(e): return e.as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT: return to_int(e.arg(0), 0)
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2:
        return to_int(e.arg(1), 0)
    if k == z3.Z3_OP_ITE:
        f = tofv(e)
        if f is not None: return f
        return z3.If(e.arg(0), zi(to_int(e.arg(1), 0)), zi(to_int(e.arg(2), 0)))
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == 'SZB': return S.SZ(e.arg(0))
        if n == 'LENB': return S.LEN(e.arg(0), e.arg(1))
    if k == z3.Z3_OP_BADD:
        if sum(ub(c) for c in e.children()) < (1 << e.size()):
            r = to_int(e.arg(0), 0)
            for c in e.children()[1:]: r = iadd(r, to_int(c, 0))
            return r
    return z3.BV2Int(e)

class Exec:
    def __init__(self, prog, contracts, root, con, initmem, opts=None):
        self.prog = prog; self.contracts = contracts; self.root = root; self.con = con
        self.opts = opts or {}
        self.reveal = con.level == 'leaf' if con else True
        self.spec = Spec(self.reveal)
        self.ground = None if self.reveal else Ground(self.spec)
        self.spec.uniq = self.uniq
        self.obls = []
        self.keep_smt = False
        self.ps = PathSolver(self)
        self.ps0 = PathSolver(self, timeout=400, ground=False) if self.ground is not None else None
        self.spec.decide = self.decide
        self.decided = {}
        self.cur = None
        self.quiet = 0
        self.initmem = initmem
        self.paths = 0
        self.steps = 0
        self.maxpaths = int(self.opts.get('maxpaths', 6000))
        self.deadline = time.time() + float(self.opts.get('budget', 600))
        self.readglob = set()
        self.called = set()       # callees used through their contract
        self.inlined = set()
        self.externs = set(); self.nbad = 0; self.nskipped = 0
        self.tags = self.opts.get('tags')
        self.contents = []
        self.loopinfo = []
        self.otimeout = int(self.opts.get('timeout', 20000))
        self.env = None
        self.initmode = False
        self.lenmax = (1 << 47) if prog.wordbits == 64 else (1 << 28)
        self.known_tables = {}
        self.localhints = []

    # ---------------------------------------------------------------- helpers
    def hints(self):
        h = list(self.localhints)
        if self.cur is not None: h += self.cur.ghosts
        return h
    def check(self, st, *extra, timeout=None):
        return self.ps.check(st.trace, *[zb(e) for e in extra], timeout=timeout)
    def feasible(self, st, c):
        if isinstance(c, bool): return c
        if st.quick(c) is False: return False
        if self.ps0 is not None and self.ps0.check(st.trace, c) == z3.unsat: return False
        return self.check(st, c) != z3.unsat
    def must(self, st, c):
        if isinstance(c, bool): return c
        q = st.quick(c)
        if q is True: return True
        if self.ps0 is not None and self.ps0.check(st.trace, z3.Not(c)) == z3.unsat: return True
        return self.check(st, z3.Not(c)) == z3.unsat
    def decide(self, c):
        """settle a condition under the current path"""
        if isinstance(c, bool) or self.cur is None: return c
        if isinstance(c, int): return c
        st = self.cur
        if self.reveal:
            if self.must(st, c): return True
            if self.must(st, z3.Not(c)): return False
            return c
        q = st.quick(c)
        if q is not None: return q
        k = (c.get_id(),) + tuple(f.get_id() for f in st.trace)
        r = self.decided.get(k)
        if r is None:
            v = None
            if self.ps0.check(st.trace, z3.Not(c)) == z3.unsat: v = True
            elif self.ps0.check(st.trace, c) == z3.unsat: v = False
            r = self.decided[k] = (c, v, list(st.trace))
        return c if r[1] is None else r[1]
    def uniq(self, v):
        if not isinstance(v, FV) or self.cur is None: return v
        k = self.cur.known.get(id(v))
        if k is not None: return k[1]
        ok = [(g, c) for g, c in v.leaves if self.cur.quick(g) is not False]
        if len(ok) != 1: ok = [(g, c) for g, c in ok if self.feasible(self.cur, g)]
        if len(ok) == 1:
            self.cur.known[id(v)] = (v, ok[0][1])
            return ok[0][1]
        return v
    def conc(self, st, v, cap=300):
        """a concrete value for v on this path, forking if there are several"""
        if isinstance(v, int): return v
        if isinstance(v, FV):
            k = st.known.get(id(v))
            if k is not None: return k[1]
            ok = [(g, c) for g, c in v.leaves if st.quick(g) is not False]
            if len(ok) != 1: ok = [(g, c) for g, c in ok if self.feasible(st, g)]
            if not ok: raise Dead()
            if len(ok) == 1:
                st.known[id(v)] = (v, ok[0][1])
                return ok[0][1]
            raise Fork([(g, (id(v), v), c) for g, c in ok])
        k = st.known.get(('z', v.get_id()))
        if k is not None: return k[1]
        vals = []
        ex = []
        while len(vals) <= cap:
            r = self.check(st, *ex)
            if r == z3.unsat: break
            if r != z3.sat: raise Unsupported('cannot enumerate values')
            c = self.ps.last_model.eval(v, model_completion=True).as_long()
            vals.append(c)
            ex.append(v != c)
        if len(vals) > cap: raise Unsupported('too many values for a concrete position')
        if not vals: raise Dead()
        if len(vals) == 1:
            st.known[('z', v.get_id())] = (v, vals[0])
            return vals[0]
        raise Fork([(v == c, (('z', v.get_id()), v), c) for c in vals])

    def oblige(self, st, tag, kind, desc, goal, pos='', assume=None):
        """record and discharge an obligation; returns False if it cannot hold"""
        if assume is None: assume = tag not in ('mem', 'cpu', 'frame', 'fresh')
        if self.quiet or self.initmode:
            if goal is False and assume: raise Dead()
            if assume: st.assume(goal)
            return
        if self.tags is not None and tag not in self.tags:
            # not an obligation of this property: discharged by the checks of the others
            if goal is False and assume: raise Dead()
            if assume: st.assume(goal)
            self.nskipped += 1
            return
        o = Obl(self.root, tag, kind, desc, pos)
        self.obls.append(o)
        if goal is True:
            o.status = 'proved'; o.backend = 'simplifier'
        elif not isinstance(goal, bool) and st.quick(goal) is True:
            o.status = 'proved'; o.backend = 'intervals'
        else:
            t0 = time.time()
            g = zb(goal)
            r = z3.unknown
            if self.ps0 is not None: r = self.ps0.check(st.trace, z3.Not(g))
            if r != z3.unsat: r = self.ps.check(st.trace, z3.Not(g), timeout=self.otimeout)
            o.time = time.time() - t0
            o.backend = 'z3'
            if r == z3.unsat:
                o.status = 'proved'
                self.crosscheck(st, g, o)
            else:
                if r == z3.sat and not (self.ground is not None and not self.ground.arith and self.ground.ariths):
                    o.status = 'failed'
                    o.model = self.model_of(self.ps.last_model)
                else:
                    o.status = 'unknown'
                    self.second(st, g, o)
        if o.status != 'proved':
            self.nbad += 1
            if self.nbad >= int(self.opts.get('maxbad', 4)): raise PathLimit('stopped after %d obligations that are not proved' % self.nbad)
        if goal is False and assume: raise Dead()
        if assume: st.assume(goal)
    def crosscheck(self, st, g, o):
        """thorough tier: z3's answer is put to cvc5 as well, for a share of the obligations and within a time budget"""
        x = self.opts.get('cross')
        if not x: return
        import cvc5run
        cvc5run.seen += 1
        if cvc5run.spent > x or (cvc5run.seen > 4 and cvc5run.seen % 5): return
        ax = list(self.ps.AX)
        if self.ground is not None and not self.ground.arith: ax += self.ground.arith_axioms()
        s = z3.Solver()
        s.add(*st.trace); s.add(*ax); s.add(z3.Not(g))
        t0 = time.time()
        try: o.cross = cvc5run.check(s.to_smt2(), 5000)
        except Exception: o.cross = 'unknown'
        cvc5run.spent += time.time() - t0
    def second(self, st, g, o):
        """an undecided query: a fresh solver with another configuration, then cvc5"""
        ax = list(self.ps.AX)
        if self.ground is not None and not self.ground.arith: ax += self.ground.arith_axioms()
        s = z3.Solver(); s.set('timeout', self.otimeout); s.set('smt.arith.solver', 2)
        s.add(*st.trace); s.add(*ax); s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            o.status = 'proved'; o.backend = 'z3(fresh)'
            return
        if r == z3.sat:
            o.status = 'failed'; o.model = self.model_of(s.model())
            return
        try:
            import cvc5run
            r = cvc5run.check(s.to_smt2(), self.otimeout)
            if r == 'unsat':
                o.status = 'proved'; o.backend = 'cvc5'
        except Exception:
            pass
    def model_of(self, m):
        d = {}
        try:
            for x in m.decls():
                if x.arity() == 0:
                    v = m[x]
                    if z3.is_int_value(v) or z3.is_bv_value(v): d[x.name()] = v.as_long()
                    elif z3.is_true(v) or z3.is_false(v): d[x.name()] = z3.is_true(v)
                else:
                    fi = m[x]
                    if isinstance(fi, z3.FuncInterp) and x.arity() == 1 and not x.name().startswith(('OFF_', 'CAN_', 'V_', 'RD_', 'SZ')):
                        e = {}
                        for k in range(min(fi.num_entries(), 64)):
                            en = fi.entry(k)
                            a, b = en.arg_value(0), en.value()
                            if hasattr(a, 'as_long') and hasattr(b, 'as_long'): e[str(a.as_long())] = b.as_long()
                        d[x.name()] = e
        except Exception:
            pass
        return d

    # ---------------------------------------------------------------- values
    def zero(self, t):
        T = self.prog.ty(t); k = T['k']
        if k in SIGNED or k in UNSIGNED: return 0
        if k == 'bool': return False
        if k == 'string': return ''
        if k == 'slice': return NILSLICE
        if k == 'array':
            e = self.prog.ty(T['elem'])
            if e['k'] in SIGNED or e['k'] in UNSIGNED:
                return self.seq(T['elem'])
            return Agg([self.zero(T['elem']) for _ in range(T.get('len', 0))])
        if k == 'struct': return Agg([self.zero(f['t']) for f in T.get('fields') or []])
        return None
    def seq(self, et):
        kd, w = self.prog.kind(et)
        return SeqC(w, lambda i: 0, (), kd == 'int')
    def symval(self, t, name):
        kd, w = self.prog.kind(t)
        if kd == 'int':
            v = z3.Int(name)
            return v, [v >= -(1 << (w - 1)), v < (1 << (w - 1))]
        if kd == 'uint': return z3.BitVec(name, w), []
        if kd == 'bool': return z3.Bool(name), []
        return None, []
    def content(self, name, w, signed):
        f = uf_content(name, w, signed)
        if self.reveal:
            def base(i):
                if isc(i):
                    return z3.Int('%s[%d]' % (name, i)) if signed else z3.BitVec('%s[%d]' % (name, i), w)
                return f(zi(i))
        else:
            def base(i): return f(zi(i))
        c = SeqC(w, base, (), signed, key=name)
        self.contents.append(c)
        return c

    def val(self, st, op):
        if op is None: return None
        k = op[0]
        if k == 'r': return st.frames[-1].regs[op[2]]
        if k == 'c':
            v = op[2]
            if isinstance(v, bool): return v
            v = int(v)
            kd, w = self.prog.kind(op[1])
            if kd == 'uint': v &= (1 << w) - 1
            return v
        if k == 'z': return self.zero(op[1])
        if k == 's': return op[2]
        if k == 'f': return FuncRef(op[2])
        if k == 'g': return Ptr(('g', op[2]))
        raise Unsupported('operand %s' % k)

    # ---------------------------------------------------------------- memory
    def getobj(self, st, obj):
        if obj in st.mem: return st.mem[obj]
        if obj[0] == 'g':
            v = self.initmem.get(obj)
            if v is None and obj not in self.initmem:
                g = self.prog.globals.get(obj[1])
                if g is None: raise Unsupported('global %s' % obj[1])
                own = g['n'] in self.prog.own
                if own or self.initmode and g['n'] in ('encoding/binary',):
                    v = self.zero(self.prog.ty(g['t'])['elem'])
                else:
                    et = self.prog.ty(self.prog.ty(g['t'])['elem'])
                    v = Agg([]) if et['k'] == 'struct' and not et.get('fields') else Opaque(obj[1])
            st.mem[obj] = v
            return v
        if obj in self.initmem:
            return self.initmem[obj]
        raise Unsupported('unknown object %s' % (obj,))
    def table_kind(self, v):
        """does this constant table equal a known spec function?"""
        k = self.known_tables.get(id(v))
        if k is not None: return k[1]
        r = None
        if isinstance(v, SeqC) and len(v.layers) == 1 and isinstance(v.layers[0], dict) or isinstance(v, SeqC) and not v.layers:
            sp = Spec(True)
            if all(v.rd(c) == sum(((c >> (2 * j)) & 3) + 1 for j in range(4)) for c in range(256)):
                r = 'SZ'
        elif isinstance(v, Agg) and len(v.c) == 256 and all(isinstance(x, SeqC) for x in v.c):
            if all(v.c[c].rd(j) == ((c >> (2 * j)) & 3) + 1 for c in range(256) for j in range(4)):
                r = 'LEN'
        self.known_tables[id(v)] = (v, r)
        return r
    def idx8(self, i):
        """an index value as an 8-bit term"""
        if z3.is_bv(i):
            w = i.size()
            if w == 8: return i
            return z3.simplify(z3.Extract(7, 0, i))
        return None
    def load_path(self, st, v, path):
        for n, p in enumerate(path):
            if isinstance(v, Opaque):
                if v.what.endswith('cpu.X86') or v.what.startswith('cpu'):
                    return ('cpu', path)
                raise Unsupported('read of %s' % v.what)
            if isinstance(v, SeqC):
                i = p
                if not isinstance(i, int):
                    big = len(v.layers) == 1 and isinstance(v.layers[0], dict) and len(v.layers[0]) > 16 or z3.is_bv(i)
                    if isinstance(i, FV): i = self.conc(st, i)
                    elif big or z3.is_bv(i):
                        if not self.reveal and z3.is_bv(i) and self.table_kind(v) == 'SZ':
                            return S.SZB(self.idx8(i))
                        if self.reveal or z3.is_bv(i) and len(v.layers) >= 1 and isinstance(v.layers[0], dict) and len(v.layers[0]) > 16:
                            i = self.conc(st, i)
                        else:
                            i = to_int(i, 0)
                    elif self.reveal:
                        i = self.conc(st, i)
                return v.rd(i)
            if isinstance(v, Agg):
                if isinstance(p, int):
                    v = v.c[p]
                    continue
                if not self.reveal and z3.is_bv(p) and self.table_kind(v) == 'LEN':
                    c = self.idx8(p)
                    row = SeqC(8, lambda j, c=c: S.LENB(c, zi(j)))
                    v = row
                    continue
                p = self.conc(st, p)
                v = v.c[p]
                continue
            if isinstance(v, LazyStruct):
                v = v.get(p)
                continue
            raise Unsupported('load through %r' % (v,))
        return v
    def load(self, st, ptr, t):
        if ptr is None:
            self.oblige(st, 'panic', 'nil', 'nil pointer dereference', False)
        if not isinstance(ptr, Ptr): raise Unsupported('load through %r' % (ptr,))
        root = self.getobj(st, ptr.obj)
        if ptr.obj[0] == 'g': self.readglob.add(ptr.obj)
        if isinstance(root, Opaque) and root.what.endswith('/cpu.X86'):
            # feature flags as symbolic booleans
            if len(ptr.path) == 1:
                sty = self.prog.ty(self.prog.ty(self.prog.globals[ptr.obj[1]]['t'])['elem'])
                return z3.Bool('cpu.' + sty['fields'][ptr.path[0]]['n'])
            raise Unsupported('read of ' + root.what)
        v = self.load_path(st, root, ptr.path)
        if isinstance(v, Opaque): raise Unsupported('read of ' + v.what)
        return v
    def store_path(self, st, v, path, x):
        if not path: return x
        p = path[0]
        if isinstance(v, SeqC):
            if len(path) != 1: raise Unsupported('store path')
            if isinstance(p, FV) or (not isinstance(p, int) and self.reveal): p = self.conc(st, p)
            elif not isinstance(p, int) and z3.is_bv(p): p = to_int(p, 0)
            return v.wr(p, x)
        if isinstance(v, Agg):
            if not isinstance(p, int): p = self.conc(st, p)
            c = list(v.c)
            c[p] = self.store_path(st, c[p], path[1:], x)
            return Agg(c)
        raise Unsupported('store through %r' % (v,))
    def isfresh(self, obj):
        # objects made while the packages were initialised belong to the packages
        return obj[0] == 'a' and (self.initmode or obj[1] < INITBASE)
    def store(self, st, ptr, x, pos):
        if ptr is None:
            self.oblige(st, 'panic', 'nil', 'nil pointer dereference', False, pos)
        if not isinstance(ptr, Ptr): raise Unsupported('store through %r' % (ptr,))
        root = self.getobj(st, ptr.obj)
        if not self.isfresh(ptr.obj) and not self.initmode:
            self.frame_ok(st, ptr.obj, ptr.path, ptr.path and ptr.path[-1], None, pos)
        st.mem[ptr.obj] = self.store_path(st, root, ptr.path, x)
    def frame_ok(self, st, obj, path, lo, hi, pos):
        """the write to obj[lo:hi] (or obj[lo]) is allowed by the contract's modifies"""
        if obj[0] in ('g', 'a'):
            self.oblige(st, 'frame', 'frame', 'no write to package variables (%s)' % (str(obj[1]).rsplit('/', 1)[-1] if obj[0] == 'g' else 'memory made at %s' % obj[2]), False, pos)
            return
        if obj[0] == 'p':
            if lo is not None and not isinstance(lo, (int, FV)) and z3.is_bv(lo): lo = to_int(lo, 0)
            alts = []
            for r in self.modranges:
                if r[0] == obj:
                    if hi is None: alts.append(land(icmp('<=', r[1], lo), icmp('<', lo, r[2])))
                    else: alts.append(lor(icmp('>=', lo, hi), land(icmp('<=', r[1], lo), icmp('<=', hi, r[2]))))
            self.oblige(st, 'frame', 'frame', 'write stays within the modifies clause (%s)' % obj[1], lor(*alts) if alts else False, pos)

    # ---------------------------------------------------------------- arithmetic
    def wrapint(self, st, v, w, pos, what, exact=False):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isc(v):
            if lo <= v <= hi: return v
            return ((v - lo) % (1 << w)) + lo
        if isinstance(v, FV):
            return v.map(lambda a: ((a - lo) % (1 << w)) + lo)
        if exact:
            # a type of fixed width: the value modulo 2^w (int and its overflows are obligations: lengths and positions)
            z = zi(v)
            if st.quick(land(z >= lo, z <= hi)) is True or self.must(st, z3.And(z >= lo, z <= hi)): return v
            return z3.If(z3.And(z >= lo, z <= hi), z, (z - lo) % (1 << w) + lo)
        self.oblige(st, 'num', 'overflow', 'no integer overflow in %s' % what, land(zi(v) >= lo, zi(v) <= hi), pos)
        return v
    def shiftcount(self, st, y, yt, pos):
        kd, w = self.prog.kind(yt)
        if isc(y):
            if y < 0: self.oblige(st, 'panic', 'shift', 'shift count is not negative', False, pos)
            return y
        if kd == 'int':
            self.oblige(st, 'panic', 'shift', 'shift count is not negative', icmp('>=', y, 0), pos)
            return self.conc(st, y)
        return y
    def binop(self, st, i, pos):
        op = i['o']
        x, y = self.val(st, i['x']), self.val(st, i['y'])
        xt = i['x'][1]
        kd, w = self.prog.kind(xt)
        if kd == 'int':
            exact = self.prog.ty(xt)['k'] != 'int'
            if op in ('+', '-', '*'):
                f = {'+': iadd, '-': isub, '*': imul}[op]
                if op == '*' and not isc(x) and not isc(y): y = self.conc(st, y) if isinstance(y, FV) else y
                return self.wrapint(st, f(x, y), w, pos, op, exact)
            if op in ('<', '<=', '>', '>=', '==', '!='): return icmp(op, x, y)
            if op in ('/', '%'):
                if not isc(y):
                    self.oblige(st, 'panic', 'div', 'no division by zero', icmp('!=', y, 0), pos)
                    y = self.conc(st, y)
                if y == 0:
                    self.oblige(st, 'panic', 'div', 'no division by zero', False, pos)
                def q(a, b):
                    r = abs(a) // abs(b)
                    return r if (a >= 0) == (b >= 0) else -r
                if isc(x) or isinstance(x, FV):
                    f = (lambda a, b: q(a, b)) if op == '/' else (lambda a, b: a - b * q(a, b))
                    return f(x, y) if isc(x) else x.map(lambda a: f(a, y))
                if y > 0:
                    X = zi(x)
                    if self.must(st, X >= 0):
                        return simp(X / y) if op == '/' else simp(X % y)
                    d = z3.If(X >= 0, X / y, -((-X) / y))
                    return simp(d) if op == '/' else simp(X - y * d)
                raise Unsupported('division by a negative constant')
            if op in ('<<', '>>'):
                n = self.shiftcount(st, y, i['y'][1], pos)
                if not isc(n): n = self.conc(st, n)
                if op == '<<':
                    if n >= w: return 0
                    return self.wrapint(st, imul(x, 1 << n), w, pos, '<<', exact)
                return idivf(x, 1 << min(n, w))
            if op in MASKOPS:
                return self.intbits(st, op, x, y, w, pos)
        if kd == 'uint':
            return self.bvop(st, op, x, y, w, i, pos)
        if kd == 'bool':
            if op in ('==', '!='):
                if isinstance(x, bool) and isinstance(y, bool): return (x == y) == (op == '==')
                e = zb(x) == zb(y)
                return sb(e if op == '==' else z3.Not(e))
        if op in ('==', '!='):
            r = self.eqref(st, x, y)
            return r if op == '==' else lnot(r)
        if kd == 'string' and op == '+' and isinstance(x, str) and isinstance(y, str): return x + y
        raise Unsupported('operator %s on %s' % (op, kd))
    def eqref(self, st, x, y):
        if isinstance(x, str) and isinstance(y, str): return x == y
        if x is None and y is None: return True
        for a, b in ((x, y), (y, x)):
            if b is None or (isinstance(b, Slice) and b.obj is None and isc(b.len)):
                if isinstance(a, Slice):
                    if a.obj is None: return True
                    if a.obj[0] == 'p':
                        v = z3.Bool('isnil.%s' % a.obj[1])
                        return land(v, icmp('==', a.len, 0))
                    return False
                if isinstance(a, (Ptr, FuncRef, Iface)): return False
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj != y.obj: return False
            if len(x.path) == len(y.path):
                return land(*[icmp('==', a, b) for a, b in zip(x.path, y.path)])
        raise Unsupported('comparison of references')
    def intbits(self, st, op, x, y, w, pos):
        f = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '&^': lambda a, b: a & ~b}[op]
        if isc(x) and isc(y): return f(x, y)
        if isinstance(x, (FV, int)) and isinstance(y, (FV, int)):
            if small(x, y): return fv2(x, y, f)
            return f(self.conc(st, x), self.conc(st, y))
        if op == '&^' and isc(y):
            return isub(x, self.intbits(st, '&', x, y, w, pos))
        if op == '&' and (isc(y) or isc(x)):
            if isc(x): x, y = y, x
            if isinstance(x, FV): return x.map(lambda a: a & y)
            X = zi(x)
            if y == -1: return x
            if y >= 0:
                m = y
                if (m & (m + 1)) == 0:
                    return imod(x, m + 1) if m else 0
                # sum of contiguous runs of bits
                r = 0; k = 0
                while m >> k:
                    if (m >> k) & 1:
                        j = k
                        while (m >> j) & 1: j += 1
                        r = iadd(r, imul(imod(idivf(x, 1 << k), 1 << (j - k)), 1 << k))
                        k = j
                    else: k += 1
                return r
            m = ~y       # x & ~m = x - (x & m)
            return isub(x, self.intbits(st, '&', x, m, w, pos))
        if op == '|' and isc(y) and y >= 0:
            return iadd(x, isub(y, self.intbits(st, '&', x, y, w, pos)))
        if op == '|' and isc(x): return self.intbits(st, op, y, x, w, pos)
        # disjoint bits (a | b<<k with a below 2^k) after concretisation, else via bit vectors
        if self.reveal:
            return f(self.conc(st, x), self.conc(st, y))
        # general case: through bit vectors
        a, b = z3.Int2BV(zi(x), w), z3.Int2BV(zi(y), w)
        r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}[op]
        u = z3.BV2Int(r)
        return z3.If(u >= (1 << (w - 1)), u - (1 << w), u)
    def bvop(self, st, op, x, y, w, i, pos):
        mask = (1 << w) - 1
        if op in ('<<', '>>'):
            n = self.shiftcount(st, y, i['y'][1], pos)
            if isc(n):
                if isc(x): return ((x << n) & mask if n < w else 0) if op == '<<' else x >> n
                if n >= w: return 0
                return simp(zbv(x, w) << n) if op == '<<' else simp(z3.LShR(zbv(x, w), n))
            yw = self.prog.kind(i['y'][1])[1]
            X = zbv(x, w)
            m = max(w, yw)
            nn = z3.ZeroExt(m - yw, n) if yw < m else n
            XX = z3.ZeroExt(m - w, X) if w < m else X
            r = XX << nn if op == '<<' else z3.LShR(XX, nn)
            r = z3.Extract(w - 1, 0, r) if w < m else r
            return simp(z3.If(z3.UGE(nn, z3.BitVecVal(w, m)), z3.BitVecVal(0, w), r))
        if isc(x) and isc(y):
            if op == '+': return (x + y) & mask
            if op == '-': return (x - y) & mask
            if op == '*': return (x * y) & mask
            if op == '&': return x & y
            if op == '|': return x | y
            if op == '^': return x ^ y
            if op == '&^': return x & ~y & mask
            if op in ('/', '%'):
                if y == 0: self.oblige(st, 'panic', 'div', 'no division by zero', False, pos)
                return x // y if op == '/' else x % y
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        X, Y = zbv(x, w), zbv(y, w)
        if op in ('+', '-') and w == 32 and self.ground is not None and not self.ground.arith:
            # the code does 32-bit arithmetic itself: interpret the specification's
            self.ground.arith = True
            self.ps.AX += self.ground.arith_axioms()
        if op == '+': return simp(X + Y)
        if op == '-': return simp(X - Y)
        if op == '*': return simp(X * Y)
        if op == '&': return simp(X & Y)
        if op == '|': return simp(X | Y)
        if op == '^': return simp(X ^ Y)
        if op == '&^': return simp(X & ~Y)
        if op in ('/', '%'):
            self.oblige(st, 'panic', 'div', 'no division by zero', sb(Y != 0), pos)
            return simp(z3.UDiv(X, Y)) if op == '/' else simp(z3.URem(X, Y))
        c = {'<': lambda: z3.ULT(X, Y), '<=': lambda: z3.ULE(X, Y), '>': lambda: z3.UGT(X, Y),
             '>=': lambda: z3.UGE(X, Y), '==': lambda: X == Y, '!=': lambda: X != Y}[op]()
        return sb(c)
    def convert(self, st, v, ft, tt, pos):
        fk, fw = self.prog.kind(ft); tk, tw = self.prog.kind(tt)
        if fk == 'int' and tk == 'int':
            if tw >= fw or isc(v) and -(1 << (tw - 1)) <= v < (1 << (tw - 1)): return v
            return self.wrapint(st, v, tw, pos, 'conversion', self.prog.ty(tt)['k'] != 'int')
        if fk == 'int' and tk == 'uint':
            if isc(v): return v & ((1 << tw) - 1)
            if isinstance(v, FV):
                return z3.simplify(S.fvbv(v.map(lambda c: c & ((1 << tw) - 1)), tw)) if True else None
            if z3.is_app(v) and v.decl().name() == 'SZ' and v.num_args() == 1 and tw >= 8:
                r = S.SZB(v.arg(0))
                return z3.ZeroExt(tw - 8, r) if tw > 8 else r
            if self.reveal: 
                return self.conc(st, v) & ((1 << tw) - 1)
            return z3.Int2BV(v, tw)
        if fk == 'uint' and tk == 'uint':
            if isc(v): return v & ((1 << tw) - 1)
            if tw == fw: return v
            if tw < fw: return simp(z3.Extract(tw - 1, 0, v))
            return simp(z3.ZeroExt(tw - fw, v))
        if fk == 'uint' and tk == 'int':
            r = to_int(v, fw)
            if isc(r) or isinstance(r, FV):
                return self.wrapint(st, r, tw, pos, 'conversion')
            if fw >= tw and ub(v) >= (1 << (tw - 1)):
                return simp(z3.If(r >= (1 << (tw - 1)), r - (1 << fw), r)) if fw == tw else self._trunc(r, tw)
            return r
        if fk == tk: return v
        if fk == 'string' and tk == 'slice' or fk == 'slice' and tk == 'string':
            raise Unsupported('string conversion')
        raise Unsupported('conversion %s to %s' % (fk, tk))
    def _trunc(self, r, tw):
        m = r % (1 << tw)
        return simp(z3.If(m >= (1 << (tw - 1)), m - (1 << tw), m))

class LazyStruct:
    pass
