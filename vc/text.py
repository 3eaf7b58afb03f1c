"""The benchmark refresh tool (tools/): a verifier for programs that read, cut up and write texts.

The real code of main (go/ssa form) is executed symbolically for every README that contains the
section, every text on standard input, every value of -w and every I/O failure.  Byte slices and
strings are functions from positions to bytes with a symbolic length in a memory with aliasing, so
an append that overwrites the README it was cut from is seen.  Library functions are used through
the contracts below; everything not listed is refused.  A loop whose trip count is not known is cut:
what its body changes becomes arbitrary, except that texts that only grow keep their beginning.

Contract of main.  Let R[0:N] be the README, S the first position of the opening fence
"## Benchmarks\\n\\n```text\\n" (length L) in R, E the first position of "```\\n" at or after S+L.
For every run on a README where S and E exist, and in which no system call fails:
  main returns (it does not give up, unless reading standard input line by line fails and the README
  is as it was), and with W the text of README.md when it was written
  (which it is if -w is given) or else the text on standard output:
    len(W) >= S+L + N-E
    W[0:S+L] == R[0:S+L]                 every byte before the section, and its opening fence
    W[len(W)-(N-E):] == R[E:N]           the closing fence, and every byte after it
    the text in between is empty or ends with a newline (the closing fence starts a line)
    no byte in between depends on the bytes of R (the old section is replaced, nothing is kept twice)
"""
import z3
from val import *
from sym import *
from exec2 import Verifier, Kill, Stop
import driver

START = '## Benchmarks\n\n```text\n'
END = '```\n'
TAGS = {'func', 'panic'}

class Str(Slice):
    """a string that is not constant: immutable bytes"""
    __slots__ = ('term',)
    def __init__(self, obj, base, len, term=None):
        Slice.__init__(self, obj, (), base, len, len); self.term = term
class Opq:
    """the elements of a list of strings: arbitrary"""
class FileH:
    __slots__ = ('path', 'pos')
    def __init__(self, path, pos): self.path = path; self.pos = pos
class BufV:
    """bytes.Buffer, strings.Builder, bufio.Writer: the text so far (a slice), and where a flush goes"""
    __slots__ = ('s', 'to')
    def __init__(self, s, to=None): self.s = s; self.to = to
class Reader:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
class Alts:
    """several outcomes: (effect on the state, result)"""
    def __init__(self, alts): self.alts = alts
class Contract:
    level = 'composite'; progress = None; opts = {}; params = []; ensures = []; requires = []; modifies = []; ghosts = []; cpu = None; fresh = False; res = None; lets = []; arch = None; split = []

README = ('join', (('env', 'SBYTE_HOME'), 'README.md'))
STDIN, STDOUT, STDERR = ('file', 'stdin'), ('file', 'stdout'), ('file', 'stderr')
PURE = ('strings.', 'strconv.', 'unicode.', 'unicode/utf8.', 'path.', 'path/filepath.', 'fmt.Sprint', 'errors.', 'time.', 'fmt.Errorf')

GHOST = ('ghost',)
class TextVerifier(Verifier):
    def __init__(self, prog, root, initmem, opts=None):
        super().__init__(prog, {}, root, None, initmem, opts)
        self.reveal = False
        self.ground = None
        self.tags = TAGS
        self.con = None
        self.inloop = 0
        self.loops_cut = 0

    # ---------------------------------------------------------------- texts
    def newobj(self, kind, pos=''):
        self.objn += 1
        return (kind, self.objn, pos)
    def isfresh(self, obj):
        return obj[0] in ('a', 's', 'hv') and (self.initmode or obj[1] < INITBASE)
    def strof(self, st, c, n, term=None):
        """a string with the given contents"""
        o = self.newobj('s'); st.mem[o] = c
        return Str(o, 0, n, term)
    def freshstr(self, st, what, term=None):
        f = uf_content(fresh_name(what), 8)
        n = fresh_int('len'); st.assume(n >= 0); st.assume(n <= self.lenmax)
        return self.strof(st, SeqC(8, lambda i: f(zi(i))), n, term)
    def freshbytes(self, st, what):
        f = uf_content(fresh_name(what), 8)
        n, c = fresh_int('len'), fresh_int('cap'); st.assume(n >= 0); st.assume(n <= c); st.assume(c <= self.lenmax)
        o = self.newobj('a'); st.mem[o] = SeqC(8, lambda i: f(zi(i)))
        return Slice(o, (), 0, n, c)
    def view(self, st, x):
        """(contents, base, length) of a constant or symbolic text"""
        if isinstance(x, str):
            b = x.encode('latin-1')
            c = SeqC(8, lambda i: 0)
            for k, v in enumerate(b): c = c.wr(k, v)
            return c, 0, len(b)
        if isinstance(x, Slice):
            if x.obj is None: return SeqC(8, lambda i: 0), 0, 0
            c = self.cont(st, x)
            if not isinstance(c, SeqC) or c.w != 8: raise Unsupported('text of %r' % (c,))
            return c, x.base, x.len
        raise Unsupported('text of %r' % (x,))
    def concrete(self, st, x):
        """the bytes of x if they are all known"""
        if isinstance(x, str): return x.encode('latin-1')
        c, b, n = self.view(st, x)
        if not isc(n) or n > 400: return None
        v = [c.rd(iadd(b, k)) for k in range(n)]
        return bytes(v) if all(isc(y) for y in v) else None
    def copytext(self, st, x, kind):
        """a copy of a text as a new string or slice"""
        if kind == 's':
            if isinstance(x, str): return x
            k = self.concrete(st, x)
            if k is not None: return k.decode('latin-1')
        c, b, n = self.view(st, x)
        if isc(n) and n == 0: return '' if kind == 's' else Slice(self.emptyobj(st), (), 0, 0, 0)
        if isc(n) and n <= 64:
            d = SeqC(8, lambda i: 0)
            for k in range(n): d = d.wr(k, c.rd(iadd(b, k)))
        else: d = SeqC(8, lambda i: 0).region(0, n, lambda i: c.rd(iadd(i, b)))
        o = self.newobj(kind); st.mem[o] = d
        self.shift(st, o, x, 0)
        if kind == 's': return Str(o, 0, n)
        if isc(n): return Slice(o, (), 0, n, n)      # a constant: the runtime may round the capacity up
        cp = fresh_int('cap'); st.assume(cp >= zi(n)); st.assume(cp <= self.lenmax * 2)
        return Slice(o, (), 0, n, cp)
    def emptyobj(self, st):
        o = self.newobj('a'); st.mem[o] = SeqC(8, lambda i: 0); return o
    def concat(self, st, xs):
        """a new string made of several"""
        if all(isinstance(x, str) for x in xs): return ''.join(xs)
        n = 0; d = SeqC(8, lambda i: 0)
        first = True
        for x in xs:
            c, b, m = self.view(st, x)
            if isc(m) and m <= 64:
                for k in range(m): d = d.wr(iadd(n, k), c.rd(iadd(b, k)))
            else: d = d.region(n, iadd(n, m), (lambda c, b, n: lambda i: c.rd(iadd(isub(i, n), b)))(c, b, n))
            n = iadd(n, m)
        o = self.newobj('s'); st.mem[o] = d
        return Str(o, 0, n)
    # where a text came from in the README, so that positions found in one are related to the other
    def shift(self, st, o, x, at):
        """position p of object o was position p + delta of the README"""
        if isinstance(x, str) or x.obj is None: return
        s = st.mem.get(('shift',) + x.obj)
        if s is not None: st.mem[('shift',) + o] = isub(iadd(x.base, s), at)

    # ---------------------------------------------------------------- occurrences
    def match(self, c, p, pat):
        return land(*[sb(zbv(c.rd(iadd(p, k)), 8) == b) for k, b in enumerate(pat)])
    def addfact(self, st, f, delta):
        """f holds at every position; delta: README position minus object position"""
        st.mem['facts'] = st.mem.get('facts', ()) + ((f, delta),)
        for q in st.mem.get('pool', ()): st.assume(f(isub(q, delta)))
    def addpos(self, st, q):
        """a position (in the README) that matters"""
        st.mem['pool'] = st.mem.get('pool', ()) + (q,)
        for f, delta in st.mem.get('facts', ()): st.assume(f(isub(q, delta)))
    def index(self, st, h, pat, last=False):
        """alternatives: (effect, position or -1)"""
        c, b, n = self.view(st, h)
        delta = st.mem.get(('shift',) + h.obj) if isinstance(h, Slice) and h.obj is not None else None
        d = 0 if delta is None else delta
        m = len(pat)
        r = fresh_int('at')
        def yes(s):
            s.assume(z3.And(r >= 0, r + m <= zi(n)))
            p = iadd(b, r)
            s.assume(self.match(c, p, pat))
            if last: self.addfact(s, lambda q: z3.Not(zb(land(icmp('<', p, q), icmp('<=', iadd(q, m), iadd(b, n)), self.match(c, q, pat)))), d)
            else: self.addfact(s, lambda q: z3.Not(zb(land(icmp('<=', b, q), icmp('<', q, p), self.match(c, q, pat)))), d)
            self.addpos(s, iadd(p, d))
        def no(s):
            self.addfact(s, lambda q: z3.Not(zb(land(icmp('<=', b, q), icmp('<=', iadd(q, m), iadd(b, n)), self.match(c, q, pat)))), d)
        return [(yes, r), (no, -1)]

    # ---------------------------------------------------------------- objects
    def getobj(self, st, obj):
        if obj == ('g', 'os.Stdin'): return Ptr(STDIN)
        if obj == ('g', 'os.Stdout'): return Ptr(STDOUT)
        if obj == ('g', 'os.Stderr'): return Ptr(STDERR)
        if obj[0] == 'g' and obj not in st.mem and obj not in self.initmem and not self.initmode:
            g = self.prog.globals.get(obj[1])
            if g is not None and g['n'] not in self.prog.own and self.prog.ty(self.prog.ty(g['t'])['elem'])['k'] == 'iface':
                return Iface('err', Opaque(obj[1]))
        return super().getobj(st, obj)
    def load(self, st, ptr, t):
        if isinstance(ptr, Ptr) and ptr.obj in (('g', 'os.Stdin'), ('g', 'os.Stdout'), ('g', 'os.Stderr')): return self.getobj(st, ptr.obj)
        return super().load(st, ptr, t)
    def load_path(self, st, v, path):
        if isinstance(v, Opq): return self.freshstr(st, 'elem')
        if path and isinstance(v, Agg) and not isinstance(path[0], int):
            k = path[0]
            if isinstance(k, FV) or z3.is_expr(k): return super().load_path(st, v, (self.conc(st, k),) + tuple(path[1:]))
        return super().load_path(st, v, path)
    def store_path(self, st, v, path, x):
        if isinstance(v, Opq): return v
        return super().store_path(st, v, path, x)
    def store(self, st, ptr, x, pos):
        if isinstance(ptr, Ptr) and ptr.obj[0] == 'hv': raise Unsupported('write through a slice a loop moves')
        if isinstance(ptr, Ptr) and ptr.obj[0] == 'g' and not self.initmode:
            # package variables of the tool may change
            st.mem[ptr.obj] = self.store_path(st, self.getobj(st, ptr.obj), ptr.path, x)
            return
        super().store(st, ptr, x, pos)
    def blockcopy(self, st, d, s, n, pos):
        if d.obj[0] == 'hv': raise Unsupported('write through a slice a loop moves')
        if isinstance(self.cont(st, d), Opq) or isinstance(self.cont(st, s), Opq):
            st.mem[d.obj] = Opq(); return
        dv, sv = self.cont(st, d), self.cont(st, s)
        if isinstance(dv, Agg) and isinstance(sv, Agg):
            if isc(n) and isc(d.base) and isc(s.base):
                vs = [sv.c[s.base + k] for k in range(n)]
                x = self.getobj(st, d.obj)
                for k, v in enumerate(vs): x = self.store_path(st, x, d.path + (d.base + k,), v)
                st.mem[d.obj] = x
                return
            if not d.path and all(isinstance(v, (str, Str)) for v in dv.c): st.mem[d.obj] = Opq(); return
        super().blockcopy(st, d, s, n, pos)
    def frame_ok(self, *a): return
    def symval(self, t, name):
        return super().symval(t, name)
    def freshval(self, st, t, what='any'):
        """an arbitrary value of a type"""
        T = self.prog.ty(t); k = T['k']
        if k == 'string': return self.freshstr(st, what)
        if k == 'slice':
            e = self.prog.ty(T['elem'])
            if e['k'] == 'string': return self.freshlist(st)
            if e['k'] in ('uint8', 'byte'): return self.freshbytes(st, what)
        if k == 'iface': return None
        v, fs = self.symval(t, fresh_name(what))
        if v is None: raise Unsupported('value of type ' + T['s'])
        for f in fs: st.assume(f)
        return v
    def freshlist(self, st):
        n, c = fresh_int('len'), fresh_int('cap'); st.assume(n >= 0); st.assume(n <= c); st.assume(c <= self.lenmax)
        o = self.newobj('a'); st.mem[o] = Opq()
        return Slice(o, (), 0, n, c)

    # ---------------------------------------------------------------- expressions
    def binop(self, st, i, pos):
        x, y = self.val(st, i['x']), self.val(st, i['y'])
        if self.prog.ty(i['x'][1])['k'] == 'string' and not (isinstance(x, str) and isinstance(y, str)):
            op = i['o']
            if op == '+': return self.concat(st, [x, y])
            if op in ('==', '!='):
                for a, b in ((x, y), (y, x)):
                    if isinstance(b, str) and len(b) <= 64:
                        c, o, n = self.view(st, a)
                        r = land(icmp('==', n, len(b)), self.match(c, o, b.encode('latin-1')))
                        return r if op == '==' else lnot(r)
                return fresh_bool('cmp')
            return fresh_bool('cmp')
        return super().binop(st, i, pos)
    def eqref(self, st, x, y):
        for a, b in ((x, y), (y, x)):
            if b is None and isinstance(a, (Iface, BufV, Reader)): return False
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x is y: return True
            return fresh_bool('same')
        return super().eqref(st, x, y)
    def convert(self, st, v, ft, tt, pos):
        fk, tk = self.prog.ty(ft)['k'], self.prog.ty(tt)['k']
        if fk == 'string' and tk == 'slice' and self.prog.ty(self.prog.ty(tt)['elem'])['k'] in ('uint8', 'byte'):
            if isinstance(v, str):
                r = self.strslice(st, v, pos)
                return r if r.obj is not None else Slice(self.emptyobj(st), (), 0, 0, 0)
            return self.copytext(st, v, 'a')
        if fk == 'slice' and tk == 'string' and self.prog.ty(self.prog.ty(ft)['elem'])['k'] in ('uint8', 'byte'):
            return self.copytext(st, v, 's')
        if fk == 'string' and tk == 'string': return v
        if tk == 'string': return self.freshstr(st, 'conv')
        return super().convert(st, v, ft, tt, pos)
    def slice(self, st, fr, i, pos):
        x = self.val(st, i['x'])
        super().slice(st, fr, i, pos)
        r = fr.regs[i['n']]
        if isinstance(x, Str) and isinstance(r, Slice) and not isinstance(r, Str): fr.regs[i['n']] = Str(r.obj, r.base, r.len)

    # ---------------------------------------------------------------- instructions
    def instr(self, st, fr, i, work, stop):
        self._work = work; self._stop = stop
        op = i['op']
        if op == 'index' and isinstance(self.val(st, i['x']), Str) or op == 'lookup' and self.prog.ty(i['x'][1])['k'] == 'string':
            x = self.val(st, i['x']); k = self.val(st, i['i'])
            c, b, n = self.view(st, x)
            k = self.bounds(st, k, i['i'][1], n, i.get('pos', ''))
            fr.regs[i['n']] = c.rd(iadd(b, k))
            fr.idx += 1
            return
        if op == 'defer':
            f = i['fn']
            args = [self.val(st, a) for a in i['args']]
            fr.defers = fr.defers + ((self.val(st, f) if f[0] != 'b' else f, args, i),)
            fr.idx += 1
            return
        if op == 'rundefers':
            if not fr.defers:
                fr.idx += 1
                return
            f, args, j = fr.defers[-1]
            fr.defers = fr.defers[:-1]
            fr.idx -= 1           # come back here afterwards
            k = {'n': '!defer', 'op': 'call', 't': j.get('t', 0), 'args': j['args'], 'fn': j['fn'], 'pos': j.get('pos', '')}
            if 'invoke' in j: return self.invoke(st, fr, f, j['invoke'], args, k, k['pos'])
            if not isinstance(f, FuncRef): raise Unsupported('defer of %r' % (f,))
            return self.callfn(st, fr, f.name, f.binds, args, k, k['pos'])
        if op == 'typeassert':
            x = self.val(st, i['x'])
            b = fresh_bool('type')
            if i['ok'] and isinstance(x, Iface):
                same = not isinstance(x.t, str) and x.t == i['at']
                if same: fr.regs[i['n']] = (x.v, True); fr.idx += 1; return
            raise Unsupported('type assertion')
        return super().instr(st, fr, i, work, stop)
    def call(self, st, fr, i, work, stop, pos):
        if 'invoke' in i:
            return self.invoke(st, fr, self.val(st, i['fn']), i['invoke'], [self.val(st, a) for a in i['args']], i, pos)
        return super().call(st, fr, i, work, stop, pos)
    def invoke(self, st, fr, x, method, args, i, pos):
        if x is None:
            self.oblige(st, 'panic', 'nil', 'method call on a nil interface', False, pos)
            raise Kill()
        if not isinstance(x, Iface): raise Unsupported('method call on %r' % (x,))
        if x.t == 'err':
            if method == 'Error':
                fr.regs[i['n']] = self.freshstr(st, 'err'); fr.idx += 1
                return
            raise Unsupported('method %s of an error' % method)
        own = self.method(x, method)
        if own is not None: return self.callfn(st, fr, own, (), [x.v] + args, i, pos)
        t = x.t if isinstance(x.t, str) else self.prog.ty(x.t)['s']
        return self.callfn(st, fr, '(%s).%s' % (t, method), (), [x.v] + args, i, pos)

    def callfn(self, st, fr, name, binds, args, i, pos):
        v = self.library(st, name, args, i, pos) if not self.initmode or not name.endswith('.init') else NotImplemented
        if v is NotImplemented: return super().callfn(st, fr, name, binds, args, i, pos)
        self.externs.add(name)
        if isinstance(v, Alts):
            for k, (eff, r) in enumerate(v.alts):
                s = st.copy()
                try:
                    if eff is not None: eff(s)
                except Kill: continue
                f = s.frames[-1]
                f.regs[i['n']] = r(s) if callable(r) else r
                f.idx += 1
                if self.check(s) != z3.unsat: self._work.append(s)
            return 'stop'
        fr.regs[i['n']] = v
        fr.idx += 1

    # ---------------------------------------------------------------- system and library contracts
    def err(self): return Iface('err', Opaque('error'))
    def fails(self, s): s.mem['ioerr'] = True
    def io(self, ok, value, failvalue=None):
        """a system call: it works, or fails"""
        return Alts([(ok, value), (self.fails, failvalue)])
    def pathof(self, x):
        if isinstance(x, str): return x
        if isinstance(x, Str): return x.term if x.term is not None else ('obj', x.obj)
        raise Unsupported('path %r' % (x,))
    def openfile(self, path, flags):
        def alt(st):
            if flags & 0x200: st.mem[('disk', path)] = (SeqC(8, lambda i: 0), 0)
            elif ('disk', path) not in st.mem: st.mem[('disk', path)] = self.unknownfile(st)
        def val(st):
            o = ('file',) + self.newobj('f')
            st.mem[o] = FileH(path, 'end' if flags & 0x400 else 0)
            return Ptr(o)
        return alt, val
    def unknownfile(self, st):
        s = self.freshstr(st, 'file'); c, b, n = self.view(st, s)
        return c, n
    def readall(self, st, path):
        if ('disk', path) not in st.mem: st.mem[('disk', path)] = self.unknownfile(st)
        c, n = st.mem[('disk', path)]
        o = self.newobj('a')
        st.mem[o] = c
        if path == README and c is self.R: st.mem[('shift',) + o] = 0
        cp = fresh_int('cap'); st.assume(cp >= zi(n)); st.assume(cp <= self.lenmax * 2)
        return Slice(o, (), 0, n, cp)
    def put(self, st, to, x):
        """write a text to a file object"""
        c, b, n = self.view(st, x)
        if to in (STDOUT, STDERR):
            if to == STDERR: return
            oc, on = st.mem.get('stdout', (SeqC(8, lambda i: 0), 0))
            st.mem['stdout'] = (self.paste(oc, on, c, b, n), iadd(on, n))
            return
        h = st.mem[to]
        if h.path not in (README,) and ('disk', h.path) not in st.mem: raise Unsupported('write to %r' % (h.path,))
        oc, on = st.mem[('disk', h.path)]
        p = on if isinstance(h.pos, str) else h.pos
        st.mem[('disk', h.path)] = (self.paste(oc, p, c, b, n), imax(on, iadd(p, n)) if not (isc(on) and on == 0) else iadd(p, n))
        if not isinstance(h.pos, str):
            # a file grows at its end: keep the length simple when nothing is overwritten
            if not isc(on) and (p is on or z3.is_expr(p) and z3.is_expr(on) and p.eq(on)): st.mem[('disk', h.path)] = (st.mem[('disk', h.path)][0], iadd(p, n))
            st.mem[to] = FileH(h.path, iadd(p, n))
    def paste(self, oc, p, c, b, n):
        if isc(n) and n <= 64:
            for k in range(n): oc = oc.wr(iadd(p, k), c.rd(iadd(b, k)))
            return oc
        return oc.region(p, iadd(p, n), lambda i: c.rd(iadd(isub(i, p), b)))
    def write(self, st, w, x, i, pos):
        """Write of a writer (a pointer with its type): outcomes (effect, count, error)"""
        n = self.view(st, x)[2]
        if isinstance(w, Ptr) and w.obj[0] == 'file':
            return Alts([(lambda s: self.put(s, w.obj, x), (n, None)), (self.fails, lambda s: (self.freshn(s, n), self.err()))])
        if isinstance(w, Ptr):
            self.bufappend(st, w, x, i, pos)
            return (n, None)
        raise Unsupported('write to %r' % (w,))
    def freshn(self, st, n):
        v = fresh_int('n'); st.assume(v >= 0); st.assume(v <= zi(n)); return v
    def bufkey(self, p): return ('buf', p.obj, p.path)
    def bufget(self, st, p):
        return st.mem.get(self.bufkey(p), BufV(NILSLICE))
    def bufappend(self, st, p, x, i, pos):
        b = self.bufget(st, p)
        if isinstance(x, str): x = self.strslice(st, x, pos)
        s = self.append(st, b.s, x, {'t': self.bytetype()}, pos)
        if b.s.obj is None and s.obj is not None: self.shift(st, s.obj, x, 0)
        st.mem[self.bufkey(p)] = BufV(s, b.to)
    def bytetype(self):
        for k, T in enumerate(self.prog.types):
            if T['k'] == 'slice' and self.prog.ty(T['elem'])['k'] in ('uint8', 'byte'): return k
        raise Unsupported('no byte slices')
    def append(self, st, d, s, i, pos):
        if d.obj is not None and d.obj[0] == 'hv': raise Unsupported('append to a slice a loop moves')
        if isinstance(s, Str): s = Slice(s.obj, (), s.base, s.len, s.len)
        et = self.prog.ty(self.prog.ty(i['t'])['elem'])
        if et['k'] == 'string':
            # lists of strings: the elements matter only while the list is short and known
            n = iadd(d.len, s.len)
            dv = self.cont(st, d) if d.obj is not None else None; sv = self.cont(st, s) if s.obj is not None else None
            if isinstance(dv, Opq) or isinstance(sv, Opq) or not isc(d.len) or not isc(s.len):
                o = self.newobj('a'); st.mem[o] = Opq()
                c = fresh_int('cap'); st.assume(c >= zi(n))
                return Slice(o, (), 0, n, c)
        r = super().append(st, d, s, i, pos)
        if d.obj is None or isc(d.len) and d.len == 0:
            if r.obj is not None and s.obj is not None and ('shift',) + r.obj not in st.mem: self.shift(st, r.obj, s, 0)
        elif r.obj != d.obj: self.shift(st, r.obj, d, 0)
        return r
    def listof(self, st, x):
        """the elements of a slice of known length, or None"""
        if x.obj is None: return []
        v = self.cont(st, x)
        if isinstance(v, Opq) or not isc(x.len) or not isinstance(v, Agg) or not isc(x.base): return None
        return [v.c[x.base + k] for k in range(x.len)]
    def mklist(self, st, vs):
        o = self.newobj('a'); st.mem[o] = Agg(list(vs))
        return Slice(o, (), 0, len(vs), len(vs))
    def textarg(self, st, v):
        """the text a %s or Print shows for an interface argument"""
        if isinstance(v, Iface):
            if v.t == 'err': return self.freshstr(st, 'err')
            k = self.prog.ty(v.t)
            if k['k'] == 'string': return v.v
            if k['k'] == 'slice' and self.prog.ty(k['elem'])['k'] in ('uint8', 'byte'): return v.v
        return self.freshstr(st, 'shown')
    def isstring(self, v): return isinstance(v, Iface) and v.t != 'err' and self.prog.ty(v.t)['k'] == 'string'
    def formatted(self, st, name, args):
        """the text fmt prints"""
        if name.endswith('f'):
            f = args[0]; vs = self.listof(st, args[1])
            if not isinstance(f, str) or vs is None: return self.freshstr(st, 'shown')
            out = []; k = 0; lit = ''; a = 0
            while k < len(f):
                if f[k] == '%' and k + 1 < len(f):
                    if f[k + 1] == '%': lit += '%'; k += 2; continue
                    if f[k + 1] in 'sv' and a < len(vs) and (f[k + 1] == 's' or self.isstring(vs[a])):
                        out += [lit, self.textarg(st, vs[a])]; lit = ''; a += 1; k += 2; continue
                    return self.freshstr(st, 'shown')
                lit += f[k]; k += 1
            if a != len(vs): return self.freshstr(st, 'shown')
            out.append(lit)
            return self.concat(st, [x for x in out if not (isinstance(x, str) and x == '')] or [''])
        vs = self.listof(st, args[0])
        if vs is None: return self.freshstr(st, 'shown')
        ln = name.endswith('ln')
        out = []
        for k, v in enumerate(vs):
            if not self.isstring(v): return self.freshstr(st, 'shown')
            if ln and k: out.append(' ')
            out.append(v.v)
        if ln: out.append('\n')
        return self.concat(st, out or [''])
    def untouched(self, st):
        d = st.mem.get(('disk', README))
        return d is not None and d[0] is self.R
    def giveup(self, st, what, pos):
        if st.mem.get('refused') and not st.mem.get('ioerr'):
            self.oblige(st, 'func', 'gives-up', '%s: the README is as it was when the input is refused' % what, self.untouched(st), pos, assume=False)
            raise Kill()
        self.oblige(st, 'func', 'gives-up', '%s: only after a failed system call' % what, bool(st.mem.get('ioerr')), pos, assume=False)
        raise Kill()

    def library(self, st, name, args, i, pos):
        L = self.lib.get(name)
        if L is not None: return L(self, st, args, i, pos)
        m = name.rsplit('.', 1)[-1]
        if name.startswith(('log.Fatal', 'log.Panic', '(*log.Logger).Fatal', '(*log.Logger).Panic')): self.giveup(st, name, pos)
        if name.startswith(('log.Print', '(*log.Logger).Print', 'log.Set')): return None
        if name.startswith('fmt.Fprint'):
            t = self.formatted(st, m, args[1:])
            w = args[0]
            if isinstance(w, Iface): w = w.v
            return self.write(st, w, t, i, pos)
        if name.startswith('fmt.Print'):
            return self.write(st, Ptr(STDOUT), self.formatted(st, m[0:], args), i, pos)
        if name.startswith('fmt.Sprint'): return self.formatted(st, m, args)
        if self.initmode: return NotImplemented
        if name.startswith(PURE) and name not in self.prog.funcs or name.startswith(PURE) and not self.prog.funcs[name].blocks and '(' not in name:
            if name == 'strings.Repeat': self.oblige(st, 'panic', 'repeat', 'count is not negative', icmp('>=', args[1], 0), pos)
            T = self.prog.ty(i['t'])
            if T['k'] == 'tuple': return tuple(self.freshval(st, f['t'], m) for f in T['fields'])
            if T['k'] == 'iface': return self.err()
            return self.freshval(st, i['t'], m)
        if name.startswith('bytes.') and self.prog.ty(i['t'])['k'] in ('bool', 'int', 'string'): return self.freshval(st, i['t'], m)
        return NotImplemented

    # ---------------------------------------------------------------- loops
    def goto(self, st, fr, target, work, stop):
        r = super().goto(st, fr, target, work, stop)
        if r == 'stop' or self.initmode: return r
        if target in fr.fn.loops and not self.concrete_guard(st, fr, target):
            if fr.prev in fr.fn.loops[target]:
                raise Unsupported('loop that cannot be cut')
            self.textcut(st, fr, target, work, stop)
            return 'stop'
        return r

    def refs(self, st, o, skip):
        """how many live registers and cells (besides skip) refer to object o"""
        n = 0
        def walk(v):
            nonlocal n
            if isinstance(v, (Slice, Ptr)):
                if v.obj == o: n += 1
            elif isinstance(v, (tuple, list)):
                for x in v: walk(x)
            elif isinstance(v, Agg): walk(v.c)
            elif isinstance(v, Iface): walk(v.v)
            elif isinstance(v, BufV): walk(v.s)
            elif isinstance(v, FuncRef): walk(v.binds)
        for f in st.frames:
            for k, v in f.regs.items():
                if (f, k) in skip: continue
                walk(v)
        for k, v in st.mem.items():
            if k not in skip and k != 'facts' and k != 'pool': walk(v)
        return n

    def textcut(self, st, fr, header, work, stop):
        """replace what the loop changes by something arbitrary; growing texts keep their beginning"""
        self.loops_cut += 1
        blocks = fr.fn.loops[header]
        ins = fr.fn.blocks[header]['i']
        phis = [i for i in ins if i['op'] == 'phi']
        k = fr.fn.blocks[header]['preds'].index(fr.prev)
        entry = {i['n']: self.val(st, i['e'][k]) for i in phis}
        depth = len(st.frames)
        cells = {}                      # memory to make arbitrary: key -> set of candidate facts
        cand = {i['n']: None for i in phis}
        moved = set()                   # phis whose slice may alias something
        unchanged = set(entry)          # phis assumed not to change (references)
        def text0(v): return isinstance(v, Slice) and not isinstance(v, Str)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40: raise Unsupported('loop')
            s = st.copy()
            f = s.frames[-1]
            checks = []                 # (description, function of the state after the body -> goal, drop)
            ints = [i for i in phis if self.prog.kind(i['t'])[0] in ('int', 'uint')]
            if GHOST in cells: self.havoccell(s, GHOST, st.mem.get(GHOST), cells[GHOST], checks)
            for i in ints: self.havocphi(s, f, i, entry[i['n']], cand, moved, checks, st)
            for key in cells:
                if key != GHOST: self.havoccell(s, key, st.mem.get(key), cells[key], checks)
            for i in phis:
                if i not in ints: self.havocphi(s, f, i, entry[i['n']], cand, moved, checks, st)
            f.idx = len(phis)
            sp = Stop(depth, header, blocks); sp.fnframe = fr.fn
            base = dict(s.mem)
            final = rounds > 1 and stable
            if not final: self.quiet += 1
            try: self.run([s], sp)
            finally:
                if not final: self.quiet -= 1
            if final: break
            stable = True
            same0 = [self.samefacts(c) for c in list(cand.values()) + list(cells.values())]
            for b in sp.back:
                for key, v in b.mem.items():
                    if key in base and key not in st.mem and isinstance(key, tuple) and key[0] in ('a', 's'): continue      # made for this round: arbitrary, and checked below
                    if key in base and base[key] is not v and key not in cells:
                        if key in ('facts', 'pool', 'ioerr'): continue
                        if isinstance(key, tuple) and key[0] == 'file' and isinstance(v, FileH) and isinstance(base[key], FileH) and v.path == base[key].path and not isinstance(base[key], str): pass
                        cells[key] = {'prefix': True, 'nl': True}; stable = False
                    elif key not in base and key in ('stdout',) or key not in base and isinstance(key, tuple) and key[0] in ('buf', 'disk'):
                        if key not in cells: cells[key] = {'prefix': True, 'nl': True}; stable = False
            if stable:
                for b in sp.back:
                    bf = b.frames[-1]
                    kk = fr.fn.blocks[header]['preds'].index(bf.prev)
                    save = self.cur; self.cur = b
                    nxt = {i['n']: self.val(b, i['e'][kk]) for i in phis}
                    for goal, drop in checks:
                        g = goal(b, nxt)
                        if g is True: continue
                        if g is False or not self.must(b, g): drop(); stable = False
                    self.cur = save
                if [self.samefacts(c) for c in list(cand.values()) + list(cells.values())] != same0:
                    # the other facts were judged with something wrongly taken to be unchanged
                    for c in list(cand.values()) + list(cells.values()): self.forget(c)
        for b, src, tgt in sp.exits:
            bf = b.frames[-1]
            if tgt is None:
                work.append(b)
                continue
            bf.blk = src
            self.cur = b
            if self.goto(b, bf, tgt, work, stop) != 'stop': work.append(b)

    def samefacts(self, c):
        return [(k, v if k == 'same' else self.samefacts(v)) for k, v in c.items() if k == 'same' or isinstance(v, dict) and k != 'lim']
    def forget(self, c):
        c.pop('bad', None)
        for v in c.values():
            if isinstance(v, dict): self.forget(v)
    def havocval(self, s, t, v0, c, checks, get):
        """an arbitrary value for a part of memory that a loop changes"""
        T = self.prog.ty(t)
        if T['k'] in ('string', 'bool') or T['k'] in ('int', 'int64', 'uint8', 'byte', 'uint64'): return self.freshval(s, t, 'loop')
        if T['k'] == 'slice' and self.prog.ty(T['elem'])['k'] == 'string': return self.freshlist(s)
        if T['k'] == 'array' and self.prog.ty(T['elem'])['k'] == 'string': return Agg([self.freshstr(s, 'loop') for _ in v0.c])
        if T['k'] == 'struct' and isinstance(v0, Agg) and len(v0.c) == len(T['fields']):
            r = []
            for i, (fl, x) in enumerate(zip(T['fields'], v0.c)):
                d = c.setdefault(('field', i), {'same': True, 'prefix': True, 'nl': True})
                g = lambda b, nxt, i=i: get(b, nxt).c[i]
                if d['same']:
                    def drop(d=d): d['same'] = False
                    checks.append((lambda b, nxt, x=x, g=g: g(b, nxt) is x or isinstance(x, (str, bool, int)) and type(g(b, nxt)) is type(x) and g(b, nxt) == x, drop))
                    r.append(x); continue
                y = self.havocval(s, fl['t'], x, d, checks, g)
                if y is None: return None
                r.append(y)
            return Agg(r)
        return None
    def havoccell(self, s, key, v0, c, checks):
        zero = (SeqC(8, lambda i: 0), 0)
        def grow(name, c0, b0, n0):
            """contents that extend (c0, n0)"""
            h = uf_content(fresh_name('loop'), 8)
            n = fresh_int('len'); s.assume(n >= 0); s.assume(n <= self.lenmax)
            c1 = SeqC(8, lambda i: h(zi(i)))
            if c['prefix']:
                s.assume(n >= zi(n0))
                c1 = c1.region(0, n0, lambda i: c0.rd(iadd(i, b0)))
                if c['nl']: s.assume(zb(lor(icmp('==', n, n0), sb(zbv(c1.rd(isub(n, 1)), 8) == 10))))
            return c1, n
        def keeps(c1, n1, c2, b2, n2, n0):
            j = fresh_int('j')
            return land(icmp('>=', n2, n0), lor(z3.Not(z3.And(0 <= j, j < zi(n0))), sb(zbv(c2.rd(iadd(b2, j)), 8) == zbv(c1.rd(j), 8))))
        def nl(c2, b2, n2, n0):
            return lor(icmp('==', n2, n0), sb(zbv(c2.rd(iadd(b2, isub(n2, 1))), 8) == 10))
        def drop(k):
            def f(): c[k] = False
            return f
        if key == 'stdout' or isinstance(key, tuple) and key[0] == 'disk':
            if v0 is None and key != 'stdout': raise Unsupported('a loop opens files')
            c0, n0 = v0 or zero
            c1, n1 = grow('text', c0, 0, n0)
            s.mem[key] = (c1, n1)
            get = lambda b: (b.mem[key][0], 0, b.mem[key][1])
        elif isinstance(key, tuple) and key[0] == 'buf':
            b0 = v0 or BufV(NILSLICE)
            c0, o0, n0 = self.view(s, b0.s)
            if b0.s.obj is not None and self.refs(s, b0.s.obj, {key}): raise Unsupported('a loop fills a shared buffer')
            c1, n1 = grow('text', c0, o0, n0)
            o = self.newobj('a'); s.mem[o] = c1
            cp = fresh_int('cap'); s.assume(cp >= n1); s.assume(cp <= self.lenmax * 2)
            s.mem[key] = BufV(Slice(o, (), 0, n1, cp), b0.to)
            if b0.s.obj is not None and ('shift',) + b0.s.obj in s.mem and c['prefix']: s.mem[('shift',) + o] = iadd(o0, s.mem[('shift',) + b0.s.obj])
            get = lambda b: self.view(b, b.mem[key].s)
        elif isinstance(key, tuple) and key[0] == 'file' and isinstance(v0, FileH):
            # the position moves with what is written
            if isinstance(v0.pos, str): return
            d = s.mem.get(('disk', v0.path))
            on = d[1] if d is not None else 0
            s.mem[key] = FileH(v0.path, on)     # at the end of the file; checked below
            checks.append((lambda b, nxt: icmp('==', b.mem[key].pos, b.mem[('disk', b.mem[key].path)][1]), lambda: self.refuse('a loop that moves in a file')))
            return
        elif isinstance(key, tuple) and key[0] == 'a':
            if isinstance(v0, SeqC):
                h = uf_content(fresh_name('loop'), v0.w, v0.signed)
                s.mem[key] = SeqC(v0.w, lambda i: h(zi(i)), (), v0.signed)
                return
            if isinstance(v0, Opq): return
            if isinstance(v0, Agg) and v0.c and all(isinstance(x, (str, Str)) for x in v0.c): s.mem[key] = Opq(); return
            et = self.celltype.get(key)
            if et is not None:
                x = self.havocval(s, et, v0, c, checks, lambda b, nxt: b.mem[key])
                if x is not None: s.mem[key] = x; return
            raise Unsupported('a loop changes memory made at %s' % (key[2],))
        elif isinstance(key, tuple) and key[0] == 'g':
            et = self.prog.ty(self.prog.globals[key[1]]['t'])['elem']
            s.mem[key] = self.freshval(s, et, 'loop'); return
        else:
            raise Unsupported('a loop changes %s' % (key,))
        if c['prefix']:
            checks.append((lambda b, nxt: keeps(c1, n1, *get(b), n0), drop('prefix')))
            if c['nl']: checks.append((lambda b, nxt: nl(*get(b), n0), drop('nl')))
    def refuse(self, what): raise Unsupported(what)

    def havocphi(self, s, f, i, e, cand, moved, checks, st):
        n = i['n']; T = self.prog.ty(i['t']); k = T['k']
        c = cand[n]
        if c is None: c = cand[n] = {'same': True, 'ge': isc(e), 'le': isc(e), 'prefix': True, 'nl': True}
        def drop(x):
            def g(): c[x] = False
            return g
        if k == 'string' or k == 'slice' and self.prog.ty(T['elem'])['k'] == 'string' or k == 'bool':
            if c['same']:
                f.regs[n] = e
                checks.append((lambda b, nxt: nxt[n] is e or isinstance(e, (str, bool)) and type(nxt[n]) is type(e) and nxt[n] == e, drop('same')))
                return
            if k == 'string' and isinstance(e, (str, Str)) and c['prefix']:
                self.growing(s, f, n, e, c, checks, drop, True, st); return
            f.regs[n] = self.freshval(s, i['t'], 'loop')
            if k == 'slice' and isinstance(e, Slice) and e.obj is not None: 
                for key in [e.obj]: s.mem[key] = Opq() if not isinstance(s.mem.get(key), Opq) else s.mem[key]
            return
        kd, w = self.prog.kind(i['t'])
        if kd in ('int', 'uint'):
            v = self.freshval(s, i['t'], 'loop'); f.regs[n] = v
            if kd == 'int' and isc(e):
                for x, op in (('ge', '>='), ('le', '<=')):
                    if c[x]:
                        s.assume(icmp(op, v, e))
                        checks.append((lambda b, nxt, op=op: icmp(op, nxt[n], e), drop(x)))
            return
        if k == 'slice' and self.prog.ty(T['elem'])['k'] in ('uint8', 'byte'):
            if c['same']:
                f.regs[n] = e
                checks.append((lambda b, nxt: nxt[n] is e, drop('same')))
                return
            if e.obj is None or self.isfresh(e.obj) and e.obj[0] == 'a':
                if e.obj is None or self.refs(st, e.obj, set()) <= self.same_value_refs(st, e): 
                    self.growing(s, f, n, e, c, checks, drop, False, st); return
            raise Unsupported('a loop moves a slice')
        # references: they must not change
        f.regs[n] = e
        def same(b, nxt):
            return nxt[n] is e or e is None and nxt[n] is None or isinstance(e, Ptr) and isinstance(nxt[n], Ptr) and nxt[n].obj == e.obj and nxt[n].path == e.path
        checks.append((same, lambda: self.refuse('a loop changes a reference')))
    def same_value_refs(self, st, e):
        """registers that hold this very slice value (dead after the loop takes it over, or equal to it)"""
        n = 0
        for f in st.frames:
            for v in f.regs.values():
                if isinstance(v, Slice) and v.obj == e.obj: n += 1
        return n if self.onlyappends(st, e) else -1
    def onlyappends(self, st, e):
        return all(not (isinstance(v, Slice) and v.obj == e.obj) for k, v in st.mem.items())
    def growing(self, s, f, n, e, c, checks, drop, string, st):
        c0, b0, n0 = self.view(st, e)
        h = uf_content(fresh_name('loop'), 8)
        m = fresh_int('len'); s.assume(m >= 0); s.assume(m <= self.lenmax)
        c1 = SeqC(8, lambda i: h(zi(i)))
        if c['prefix']:
            s.assume(m >= zi(n0))
            c1 = c1.region(0, n0, lambda i: c0.rd(iadd(i, b0)))
            if c['nl']: s.assume(zb(lor(icmp('==', m, n0), sb(zbv(c1.rd(isub(m, 1)), 8) == 10))))
        o = self.newobj('s' if string else 'a'); s.mem[o] = c1
        if string: f.regs[n] = Str(o, 0, m)
        else:
            cp = fresh_int('cap'); s.assume(cp >= m); s.assume(cp <= self.lenmax * 2)
            f.regs[n] = Slice(o, (), 0, m, cp)
        if isinstance(e, Slice) and e.obj is not None and ('shift',) + e.obj in s.mem and c['prefix']: s.mem[('shift',) + o] = iadd(b0, s.mem[('shift',) + e.obj])
        def ok(b, nxt):
            c2, b2, n2 = self.view(b, nxt[n])
            j = fresh_int('j')
            return land(icmp('>=', n2, n0), lor(z3.Not(z3.And(0 <= j, j < zi(n0))), sb(zbv(c2.rd(iadd(b2, j)), 8) == zbv(c1.rd(j), 8))))
        def nl(b, nxt):
            c2, b2, n2 = self.view(b, nxt[n])
            return lor(icmp('==', n2, n0), sb(zbv(c2.rd(iadd(b2, isub(n2, 1))), 8) == 10))
        if c['prefix']:
            checks.append((ok, drop('prefix')))
            if c['nl']: checks.append((nl, drop('nl')))
        if not string:
            # the slice the loop carries is its own: nothing else holds its memory afterwards
            def own(b, nxt):
                x = nxt[n]
                if x.obj is None or x.obj == o: return True
                return x.obj[0] == 'a' and x.obj not in s.mem and sum(1 for y in nxt.values() if isinstance(y, Slice) and y.obj == x.obj) == 1 or x.obj[0] == 'a' and x.obj[1] > o[1] and sum(1 for y in nxt.values() if isinstance(y, Slice) and y.obj == x.obj) == 1
            checks.append((own, lambda: self.refuse('a loop moves a slice')))

    # ---------------------------------------------------------------- main
    def finish(self, st, vals, pos):
        if self.initmode:
            self.results.append((st, vals)); return
        self.finished += 1
        if st.mem.get('ioerr'): return
        if st.mem.get('refused') and self.untouched(st) and 'stdout' not in st.mem: return
        self.cur = st
        R, N = self.R, self.N
        d = st.mem.get(('disk', README))
        w = z3.Bool('flag.w')
        if d is not None and d[0] is not R:
            self.posttext(st, d[0], d[1], 'README.md', pos)
            return
        self.oblige(st, 'func', 'post', 'with -w the README is written', z3.Not(w), pos, assume=False)
        c, n = st.mem.get('stdout', (SeqC(8, lambda i: 0), 0))
        self.posttext(st, c, n, 'standard output', pos)
    def posttext(self, st, c, n, where, pos):
        R, N, S, E = self.R, self.N, self.S, self.E
        A = S + len(START)
        self.oblige(st, 'func', 'post', '%s: nothing is missing' % where, icmp('>=', n, A + (N - E)), pos)
        j = fresh_int('j')
        self.oblige(st, 'func', 'post', '%s: every byte up to the opening fence is kept' % where, lor(z3.Not(z3.And(j >= 0, j < A)), sb(zbv(c.rd(j), 8) == R.rd(j))), pos, assume=False)
        tail = isub(n, N - E)
        self.oblige(st, 'func', 'post', '%s: every byte from the closing fence on is kept' % where, lor(z3.Not(z3.And(j >= 0, j < N - E)), sb(zbv(c.rd(iadd(tail, j)), 8) == R.rd(simp(E + j)))), pos, assume=False)
        self.oblige(st, 'func', 'post', '%s: the closing fence starts a line' % where, lor(icmp('==', tail, A), sb(zbv(c.rd(isub(tail, 1)), 8) == 10)), pos, assume=False)

        b = zbv(c.rd(j), 8)
        if z3.is_expr(b):
            other = z3.Function('README2', z3.IntSort(), z3.BitVecSort(8))
            b2 = z3.substitute_funs(b, (self.Rf, other(z3.Var(0, z3.IntSort()))))
            self.oblige(st, 'func', 'post', '%s: nothing of the old text is left between the fences' % where, lor(z3.Not(z3.And(j >= A, j < zi(tail))), sb(b == b2)), pos, assume=False)

    def verify_main(self, fn, st):
        self.finished = 0
        self.fn = fn
        r = z3.Function('README', z3.IntSort(), z3.BitVecSort(8))
        self.Rf = r
        self.R = SeqC(8, lambda i: r(zi(i)))
        self.N, self.S, self.E = z3.Int('N'), z3.Int('S'), z3.Int('E')
        N, S, E = self.N, self.S, self.E
        st.frames = [Frame(fn)]
        for f in (S >= 0, S + len(START) <= E, E + len(END) <= N, N <= self.lenmax): st.assume(f)
        s, e = START.encode(), END.encode()
        st.assume(self.match(self.R, S, s)); st.assume(self.match(self.R, E, e))
        self.addfact(st, lambda q: z3.Not(zb(land(icmp('>=', q, 0), icmp('<', q, S), self.match(self.R, q, s)))), 0)
        self.addfact(st, lambda q: z3.Not(zb(land(icmp('>=', q, S + len(START)), icmp('<', q, E), self.match(self.R, q, e)))), 0)
        self.addpos(st, S); self.addpos(st, E)
        st.mem[('disk', README)] = (self.R, N)
        self.cur = st
        self.run([st])

# -------------------------------------------------------------------- contracts of library functions
LIB = {}
TextVerifier.lib = LIB
def lib(*names):
    def f(g):
        for n in names: LIB[n] = g
        return g
    return f

@lib('flag.Bool', 'flag.String', 'flag.Int')
def _(v, st, a, i, pos):
    o = v.newobj('a', pos)
    n = a[0] if isinstance(a[0], str) else None
    v.celltype[o] = v.prog.ty(i['t'])['elem']
    st.mem[o] = a[1]
    st.mem['flags'] = st.mem.get('flags', ()) + ((o, (), n, v.prog.ty(i['t'])['elem']),)
    return Ptr(o)
@lib('flag.BoolVar', 'flag.StringVar', 'flag.IntVar')
def _(v, st, a, i, pos):
    p = a[0]
    if not isinstance(p, Ptr): raise Unsupported('flag variable')
    v.store(st, p, a[2], pos)
    st.mem['flags'] = st.mem.get('flags', ()) + ((p.obj, p.path, a[1] if isinstance(a[1], str) else None, None),)
    return None
@lib('flag.Parse')
def _(v, st, a, i, pos):
    for o, path, n, t in st.mem.get('flags', ()):
        old = v.load_path(st, v.getobj(st, o), path)
        if n == 'w': x = z3.Bool('flag.w')
        elif isinstance(old, (bool, z3.BoolRef)): x = fresh_bool('flag')
        elif isinstance(old, (str, Str)): x = v.freshstr(st, 'flag')
        else:
            x = fresh_int('flag'); st.assume(x >= -(1 << 63)); st.assume(x < 1 << 63)
        st.mem[o] = v.store_path(st, v.getobj(st, o), path, x) if path else x
    return None
@lib('flag.Arg')
def _(v, st, a, i, pos): return v.freshstr(st, 'arg')
@lib('flag.NArg', 'flag.NFlag')
def _(v, st, a, i, pos):
    n = fresh_int('n'); st.assume(n >= 0); st.assume(n <= v.lenmax); return n
@lib('flag.Args')
def _(v, st, a, i, pos): return v.freshlist(st)
@lib('os.Getenv')
def _(v, st, a, i, pos): return v.freshstr(st, 'env', ('env', a[0]) if isinstance(a[0], str) else None)
@lib('os.LookupEnv')
def _(v, st, a, i, pos): return (v.freshstr(st, 'env', ('env', a[0]) if isinstance(a[0], str) else None), fresh_bool('set'))
@lib('path/filepath.Join', 'path.Join')
def _(v, st, a, i, pos):
    vs = v.listof(st, a[0])
    t = None
    if vs is not None:
        ts = [x if isinstance(x, str) else getattr(x, 'term', None) for x in vs]
        if all(x is not None for x in ts): t = ('join', tuple(ts))
    return v.freshstr(st, 'path', t)
@lib('path/filepath.Clean')
def _(v, st, a, i, pos): return a[0] if isinstance(a[0], Str) and isinstance(a[0].term, tuple) and a[0].term[0] == 'join' else v.freshstr(st, 'path')
@lib('os.Open')
def _(v, st, a, i, pos):
    p = v.pathof(a[0]); e, val = v.openfile(p, 0)
    return Alts([(e, lambda s: (val(s), None)), (v.fails, lambda s: (None, v.err()))])
@lib('os.Create')
def _(v, st, a, i, pos):
    p = v.pathof(a[0]); e, val = v.openfile(p, 0x242)
    return Alts([(e, lambda s: (val(s), None)), (v.fails, lambda s: (None, v.err()))])
@lib('os.OpenFile')
def _(v, st, a, i, pos):
    if not isc(a[1]): raise Unsupported('flags of os.OpenFile')
    p = v.pathof(a[0]); e, val = v.openfile(p, a[1])
    return Alts([(e, lambda s: (val(s), None)), (v.fails, lambda s: (None, v.err()))])
@lib('os.CreateTemp', 'io/ioutil.TempFile')
def _(v, st, a, i, pos):
    p = ('temp', v.newobj('t')); e, val = v.openfile(p, 0x242)
    return Alts([(e, lambda s: (val(s), None)), (v.fails, lambda s: (None, v.err()))])
@lib('(*os.File).Name')
def _(v, st, a, i, pos):
    h = st.mem.get(a[0].obj)
    return v.freshstr(st, 'name', h.path if isinstance(h, FileH) else None)
@lib('os.Rename')
def _(v, st, a, i, pos):
    p, q = v.pathof(a[0]), v.pathof(a[1])
    def ok(s):
        if ('disk', p) not in s.mem: raise Unsupported('rename of an unknown file')
        s.mem[('disk', q)] = s.mem[('disk', p)]
    return Alts([(ok, None), (v.fails, lambda s: v.err())])
@lib('os.Remove')
def _(v, st, a, i, pos):
    p = v.pathof(a[0])
    def ok(s): s.mem[('disk', p)] = (SeqC(8, lambda i: 0), 0)
    return Alts([(ok, None), (v.fails, lambda s: v.err())])
@lib('os.Chmod', '(*os.File).Chmod', '(*os.File).Sync')
def _(v, st, a, i, pos): return Alts([(None, None), (v.fails, lambda s: v.err())])
@lib('(*os.File).Close')
def _(v, st, a, i, pos):
    if a[0] is None:
        return v.err()
    return Alts([(None, None), (v.fails, lambda s: v.err())])
@lib('os.ReadFile', 'io/ioutil.ReadFile')
def _(v, st, a, i, pos):
    p = v.pathof(a[0])
    return Alts([(None, lambda s: (v.readall(s, p), None)), (v.fails, lambda s: (v.freshbytes(s, 'part'), v.err()))])
@lib('os.WriteFile', 'io/ioutil.WriteFile')
def _(v, st, a, i, pos):
    p = v.pathof(a[0])
    def ok(s):
        c, b, n = v.view(s, a[1])
        s.mem[('disk', p)] = (SeqC(8, lambda i: c.rd(iadd(i, b))), n)
    return Alts([(ok, None), (v.fails, lambda s: v.err())])
@lib('io.ReadAll', 'io/ioutil.ReadAll')
def _(v, st, a, i, pos):
    r = a[0].v if isinstance(a[0], Iface) else a[0]
    if isinstance(r, Ptr) and r.obj == STDIN:
        return Alts([(None, lambda s: (v.freshbytes(s, 'stdin'), None)), (v.fails, lambda s: (v.freshbytes(s, 'part'), v.err()))])
    if isinstance(r, Ptr) and isinstance(st.mem.get(r.obj), FileH):
        h = st.mem[r.obj]
        if not (isc(h.pos) and h.pos == 0): raise Unsupported('reading from the middle of a file')
        def ok(s): s.mem[r.obj] = FileH(h.path, s.mem[('disk', h.path)][1])
        return Alts([(ok, lambda s: (v.readall(s, h.path), None)), (v.fails, lambda s: (v.freshbytes(s, 'part'), v.err()))])
    raise Unsupported('io.ReadAll of %r' % (r,))
@lib('(*os.File).Write', '(*os.File).WriteString', '(*bytes.Buffer).Write', '(*bytes.Buffer).WriteString', '(*strings.Builder).Write', '(*strings.Builder).WriteString', '(*bufio.Writer).Write', '(*bufio.Writer).WriteString')
def _(v, st, a, i, pos):
    if a[0] is None: v.oblige(st, 'panic', 'nil', 'write to a nil pointer', False, pos); raise Kill()
    return v.write(st, a[0], a[1], i, pos)
@lib('io.WriteString')
def _(v, st, a, i, pos):
    w = a[0]
    if w is None: v.oblige(st, 'panic', 'nil', 'write to a nil writer', False, pos); raise Kill()
    return v.write(st, w.v, a[1], i, pos)
@lib('(*bytes.Buffer).WriteByte', '(*strings.Builder).WriteByte', '(*bufio.Writer).WriteByte')
def _(v, st, a, i, pos):
    o = v.newobj('a'); st.mem[o] = SeqC(8, lambda i: 0).wr(0, a[1])
    v.bufappend(st, a[0], Slice(o, (), 0, 1, 1), i, pos)
    return None
@lib('(*bytes.Buffer).WriteRune', '(*strings.Builder).WriteRune', '(*bufio.Writer).WriteRune')
def _(v, st, a, i, pos):
    if not isc(a[1]) or a[1] >= 128: raise Unsupported('WriteRune')
    v.bufappend(st, a[0], chr(a[1]), i, pos)
    return (1, None)
@lib('(*bytes.Buffer).Bytes')
def _(v, st, a, i, pos): return v.bufget(st, a[0]).s
@lib('(*bytes.Buffer).String', '(*strings.Builder).String')
def _(v, st, a, i, pos): return v.copytext(st, v.bufget(st, a[0]).s, 's')
@lib('(*bytes.Buffer).Len', '(*strings.Builder).Len')
def _(v, st, a, i, pos): return v.bufget(st, a[0]).s.len
@lib('(*bytes.Buffer).Grow', '(*strings.Builder).Grow')
def _(v, st, a, i, pos):
    v.oblige(st, 'panic', 'grow', 'Grow: not negative', icmp('>=', a[1], 0), pos)
    if v.bufget(st, a[0]).s.obj is None and isc(a[1]) is None: pass
    return None
@lib('(*bytes.Buffer).Reset', '(*strings.Builder).Reset')
def _(v, st, a, i, pos):
    b = v.bufget(st, a[0])
    st.mem[v.bufkey(a[0])] = BufV(Slice(b.s.obj, (), b.s.base, 0, b.s.cap) if b.s.obj is not None and 'bytes' in i['fn'][2] else NILSLICE, b.to)
    return None
@lib('bytes.NewBuffer', 'bytes.NewBufferString')
def _(v, st, a, i, pos):
    o = v.newobj('a'); st.mem[o] = Opaque('buffer')
    p = Ptr(o)
    x = a[0]
    if not isinstance(x, Slice) or isinstance(x, Str): x = v.copytext(st, x, 'a') if not isinstance(x, str) else v.strslice(st, x, pos)
    st.mem[v.bufkey(p)] = BufV(x)
    return p
@lib('(*bytes.Buffer).WriteTo')
def _(v, st, a, i, pos):
    w = a[1].v; s0 = v.bufget(st, a[0]).s
    r = v.write(st, w, s0, i, pos)
    st.mem[v.bufkey(a[0])] = BufV(NILSLICE)
    return r
@lib('bytes.NewReader', 'strings.NewReader')
def _(v, st, a, i, pos):
    o = v.newobj('a'); st.mem[o] = Reader(a[0])
    return Ptr(o)
@lib('io.Copy')
def _(v, st, a, i, pos):
    w, r = a[0].v, a[1].v
    if isinstance(r, Ptr) and isinstance(st.mem.get(r.obj), Reader):
        x = st.mem[r.obj].s; st.mem[r.obj] = Reader('')
        return v.write(st, w, x, i, pos)
    if isinstance(r, Ptr) and v.bufkey(r) in st.mem:
        x = st.mem[v.bufkey(r)].s; st.mem[v.bufkey(r)] = BufV(NILSLICE)
        return v.write(st, w, x, i, pos)
    if isinstance(r, Ptr) and isinstance(st.mem.get(r.obj), FileH) and isinstance(w, Ptr) and w.obj[0] != 'file':
        h = st.mem[r.obj]
        if not (isc(h.pos) and h.pos == 0): raise Unsupported('reading from the middle of a file')
        x = v.readall(st, h.path)
        v.bufappend(st, w, x, i, pos)
        bad = st.copy()
        return Alts([(None, (x.len, None)), (v.fails, lambda s: (0, v.err()))])
    raise Unsupported('io.Copy')
@lib('(*bytes.Buffer).ReadFrom')
def _(v, st, a, i, pos):
    r = a[1].v
    if isinstance(r, Ptr) and isinstance(st.mem.get(r.obj), FileH) and isc(st.mem[r.obj].pos) and st.mem[r.obj].pos == 0:
        x = v.readall(st, st.mem[r.obj].path)
        v.bufappend(st, a[0], x, i, pos)
        return Alts([(None, (x.len, None)), (v.fails, lambda s: (0, v.err()))])
    raise Unsupported('ReadFrom')
@lib('bufio.NewWriter', 'bufio.NewWriterSize')
def _(v, st, a, i, pos):
    o = v.newobj('a'); st.mem[o] = Opaque('writer')
    p = Ptr(o); st.mem[v.bufkey(p)] = BufV(NILSLICE, a[0].v)
    return p
@lib('(*bufio.Writer).Flush')
def _(v, st, a, i, pos):
    b = v.bufget(st, a[0])
    st.mem[v.bufkey(a[0])] = BufV(NILSLICE, b.to)
    r = v.write(st, b.to, b.s, i, pos)
    if isinstance(r, Alts): return Alts([(e, (lambda s, x=x: (x(s) if callable(x) else x)[1])) for e, x in r.alts])
    return None
@lib('(*os.File).Truncate')
def _(v, st, a, i, pos):
    h = st.mem[a[0].obj]
    def ok(s):
        c, n = s.mem[('disk', h.path)]
        # what was cut off reads as zero if the file grows again
        s.mem[('disk', h.path)] = (SeqC(8, lambda i: 0).region(0, imin(n, a[1]), lambda i: c.rd(i)), a[1])
    return Alts([(ok, None), (v.fails, lambda s: v.err())])
@lib('os.Truncate')
def _(v, st, a, i, pos):
    p = v.pathof(a[0])
    def ok(s):
        c, n = s.mem[('disk', p)]
        s.mem[('disk', p)] = (SeqC(8, lambda i: 0).region(0, imin(n, a[1]), lambda i: c.rd(i)), a[1])
    return Alts([(ok, None), (v.fails, lambda s: v.err())])
@lib('(*os.File).Seek')
def _(v, st, a, i, pos):
    h = st.mem[a[0].obj]
    if not (isc(a[2])) or a[2] not in (0, 2) or isinstance(h.pos, str): raise Unsupported('Seek')
    def ok(s):
        n = s.mem[('disk', h.path)][1]
        s.mem[a[0].obj] = FileH(h.path, a[1] if a[2] == 0 else iadd(n, a[1]))
    return Alts([(ok, lambda s: (s.mem[a[0].obj].pos, None)), (v.fails, lambda s: (0, v.err()))])
@lib('(*os.File).WriteAt')
def _(v, st, a, i, pos):
    h = st.mem[a[0].obj]
    c, b, n = v.view(st, a[1])
    def ok(s):
        oc, on = s.mem[('disk', h.path)]
        s.mem[('disk', h.path)] = (v.paste(oc, a[2], c, b, n), imax(on, iadd(a[2], n)))
    return Alts([(ok, (n, None)), (v.fails, lambda s: (0, v.err()))])
@lib('bufio.NewScanner', 'bufio.NewReader', 'bufio.NewReaderSize')
def _(v, st, a, i, pos):
    r = a[0].v if isinstance(a[0], Iface) else None
    if not (isinstance(r, Ptr) and r.obj == STDIN): raise Unsupported('line reader on something else than standard input')
    o = v.newobj('a'); st.mem[o] = Opaque('lines')
    return Ptr(o)
@lib('(*bufio.Scanner).Buffer', '(*bufio.Scanner).Split')
def _(v, st, a, i, pos): return None
@lib('(*bufio.Scanner).Scan')
def _(v, st, a, i, pos): return fresh_bool('more')
@lib('(*bufio.Scanner).Text')
def _(v, st, a, i, pos): return v.freshstr(st, 'line')
@lib('(*bufio.Scanner).Bytes')
def _(v, st, a, i, pos): return v.freshbytes(st, 'line')
@lib('(*bufio.Scanner).Err')
def _(v, st, a, i, pos):
    # a failed read, or a line that is too long: the input is refused, which is no reason to touch the README
    def bad(s): s.mem['refused'] = True
    return Alts([(None, None), (bad, lambda s: v.err())])
@lib('(*bufio.Reader).ReadString')
def _(v, st, a, i, pos):
    # the error may be the end of the input: no failure by itself
    return Alts([(None, lambda s: (v.freshstr(s, 'line'), None)), (None, lambda s: (v.freshstr(s, 'line'), Iface('err', Opaque('io.EOF'))))])
@lib('os.Exit')
def _(v, st, a, i, pos):
    if isc(a[0]) and a[0] == 0:
        v.finish(st, [], pos); raise Kill()
    v.giveup(st, 'os.Exit', pos)

def index_of(v, st, h, pat, last, i):
    k = v.concrete(st, pat)
    if k is None or len(k) == 0 or len(k) > 100:
        n = v.view(st, h)[2]
        r = fresh_int('at'); st.assume(r >= -1); st.assume(r <= zi(n))
        return [(None, r)]
    return v.index(st, h, k, last)
@lib('bytes.Index', 'strings.Index')
def _(v, st, a, i, pos): return Alts(index_of(v, st, a[0], a[1], False, i))
@lib('bytes.LastIndex', 'strings.LastIndex')
def _(v, st, a, i, pos): return Alts(index_of(v, st, a[0], a[1], True, i))
@lib('bytes.IndexByte', 'strings.IndexByte', 'bytes.IndexRune', 'strings.IndexRune')
def _(v, st, a, i, pos):
    if not isc(a[1]) or a[1] >= 128: raise Unsupported('IndexByte')
    return Alts(v.index(st, a[0], bytes([a[1]])))
@lib('bytes.Contains', 'strings.Contains')
def _(v, st, a, i, pos):
    return Alts([(e, not (isc(r) and r == -1) if isc(r) else icmp('>=', r, 0)) for e, r in index_of(v, st, a[0], a[1], False, i)])
@lib('bytes.HasPrefix', 'strings.HasPrefix')
def _(v, st, a, i, pos):
    k = v.concrete(st, a[1])
    if k is None: return fresh_bool('prefix')
    c, b, n = v.view(st, a[0])
    return land(icmp('>=', n, len(k)), v.match(c, b, k))
@lib('bytes.HasSuffix', 'strings.HasSuffix')
def _(v, st, a, i, pos):
    k = v.concrete(st, a[1])
    if k is None: return fresh_bool('suffix')
    c, b, n = v.view(st, a[0])
    return land(icmp('>=', n, len(k)), v.match(c, isub(iadd(b, n), len(k)), k))
def sub(v, x, lo, hi):
    """x[lo:hi] of a text"""
    if isinstance(x, Str): return Str(x.obj, iadd(x.base, lo), isub(hi, lo))
    return Slice(x.obj, x.path, iadd(x.base, lo), isub(hi, lo), isub(x.cap, lo))
@lib('bytes.Cut', 'strings.Cut')
def _(v, st, a, i, pos):
    h = a[0]
    if isinstance(h, str): h = v.copytext(st, h, 'a')
    k = v.concrete(st, a[1])
    if k is None or not k: raise Unsupported('Cut')
    out = []
    for e, r in v.index(st, h, k):
        if isc(r): out.append((e, (a[0], NILSLICE if i['fn'][2].startswith('bytes') else '', False)))
        else: out.append((e, (sub(v, h, 0, r), sub(v, h, iadd(r, len(k)), h.len), True)))
    return Alts(out)
@lib('bytes.SplitN', 'strings.SplitN', 'bytes.SplitAfterN', 'strings.SplitAfterN')
def _(v, st, a, i, pos):
    h = a[0]; k = v.concrete(st, a[1])
    if isinstance(h, str) or k is None or not k or a[2] != 2: raise Unsupported('SplitN')
    after = len(k) if 'After' in i['fn'][2] else 0
    out = []
    for e, r in v.index(st, h, k):
        if isc(r): out.append((e, lambda s: v.mklist(s, [h])))
        else:
            x, y = sub(v, h, 0, iadd(r, after)), sub(v, h, iadd(r, len(k)), h.len)
            if not isinstance(x, Str): x = Slice(x.obj, x.path, x.base, x.len, x.len)
            out.append((e, lambda s, x=x, y=y: v.mklist(s, [x, y])))
    return Alts(out)
@lib('strings.Join')
def _(v, st, a, i, pos):
    vs = v.listof(st, a[0])
    if vs is None: return v.freshstr(st, 'joined')
    out = []
    for k, x in enumerate(vs): out += ([a[1]] if k else []) + [x]
    return v.concat(st, out or [''])
@lib('bytes.Join')
def _(v, st, a, i, pos):
    vs = v.listof(st, a[0])
    if vs is None: return v.freshbytes(st, 'joined')
    out = []
    for k, x in enumerate(vs): out += ([a[1]] if k else []) + [x]
    return v.copytext(st, v.concat(st, out or ['']), 'a')
@lib('strings.TrimPrefix', 'strings.TrimSuffix', 'strings.TrimSpace', 'strings.Trim', 'strings.TrimRight', 'strings.TrimLeft')
def _(v, st, a, i, pos): return v.freshstr(st, 'trimmed')
@lib('bytes.Clone')
def _(v, st, a, i, pos): return v.copytext(st, a[0], 'a') if a[0].obj is not None else NILSLICE

def verify(c, data_file, timeout=20000, Verifier=TextVerifier):
    """all obligations of the tool: list of rows, notes"""
    import prog as P, work
    prog = P.load(data_file)
    reset_names()
    pk = [p for p in prog.own if p.endswith('/tools')]
    obls = []; errors = []; done = 0; ex = None; paths = 0; solver = 0.0; ext = set(); inl = set(); queries = 0; cut = 0
    try:
        ini = TextVerifier(prog, 'init', {})
        ini.initmode = True
        states = [State()]
        for n, p in enumerate(prog.inits):
            fn = prog.funcs.get(p + '.init')
            if fn is None or not fn.blocks: continue
            nxt = []
            for s in states:
                s = s.copy(); s.frames = [Frame(fn)]
                ini.results = []; ini.objn = INITBASE + (n + 1) * 100000; ini.fn = fn
                ini.run([s])
                nxt += [x for x, _ in ini.results]
            states = nxt
        if not states: raise Unsupported('the package initialisers do not finish')
        for s in states:
            fn = prog.funcs.get(pk[0] + '.main') if pk else None
            if fn is None: raise Unsupported('no main function')
            ex = Verifier(prog, 'tools.main', dict(s.mem), dict(maxbad=4, budget=300, timeout=timeout))
            st = s.copy()
            try: ex.verify_main(fn, st)
            finally:
                obls += [work.row(o) for o in ex.obls]; paths += ex.paths; solver += ex.ps.time; queries += ex.ps.queries; ext |= ex.externs; inl |= ex.inlined; cut += ex.loops_cut
            done += ex.finished
    except (Unsupported, PathLimit) as e:
        errors.append('%s: %s' % (type(e).__name__, e))
    except Dead: pass
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError, z3.Z3Exception) as e:
        import traceback
        errors.append('internal: %r' % e)
        if c is None: traceback.print_exc()
    if not errors and not done: errors.append('no execution of main reaches its end')
    return dict(obls=obls, errors=errors, finished=done, paths=paths, solver=solver, queries=queries, externs=sorted(ext), inlined=sorted(inl), cut=cut)

def main(Verifier):
    import sys, time, json, argparse
    sys.setrecursionlimit(100000)
    ap = argparse.ArgumentParser()
    ap.add_argument('ssa'); ap.add_argument('--json'); ap.add_argument('--timeout', type=int, default=20000)
    a = ap.parse_args()
    t = time.time()
    r = verify(None if not a.json else True, a.ssa, a.timeout, Verifier)
    if a.json:
        json.dump(r, open(a.json, 'w'), default=str)
        sys.exit(0)
    print({k: v for k, v in r.items() if k not in ('obls',)}, '%.1fs' % (time.time() - t))
    print(len(r['obls']), 'obligations')
    for o in r['obls']:
        if o['status'] != 'proved': print(o['status'], o['tag'], o['kind'], o['desc'], o['pos'], o['time'])

if __name__ == '__main__': main(TextVerifier)
