"""The benchmark refresh tool: what the new text of the section says.

The same execution as in vc/text.py, with the lines of standard input known to a ghost text: B, what
the section is to say about the lines read so far, and `has`, whether a benchmark result was among
them.  Reading line l extends B by

    "\\n"                       if l starts with "goos" and has
    l without "Benchmark", "\\n" if l starts with "Benchmark" (and has becomes true)
    l, "\\n"                    if l starts with "goos", "goarch", "pkg" or "cpu"
    "--\\n"                     if l starts with "cpu"
    nothing                    otherwise

Contract of main: for every README with the section and every list of lines, in every run in which no
system call fails and no line is too long to be read, all lines are read and the text written has B
(if B is empty: nothing or an empty line) between the opening fence and the closing one.

Loops are cut as in vc/text.py.  Invariants inferred in addition: a list of strings, or the part of a
text that grew in the loop, is B (the last newline with or without), or the elements of a list up to
the loop's index; a flag is `has`, or whether B is empty.
"""
import z3
from val import *
from sym import *
from exec2 import Kill
import text
from text import TextVerifier, Str, Opq, BufV, Alts, Slice, START, END, NILSLICE

G = ('ghost',)
LINE = ('line',)
BYTES = ('linebytes',)
ZERO = SeqC(8, lambda i: 0)
CASES = [b'goos', b'goarch', b'pkg', b'cpu', b'Benchmark']

class SL(Opq):
    """a list of strings: cnt elements; c[0:n] is all of them, each followed by a newline; off(k): where element k starts"""
    __slots__ = ('c', 'n', 'cnt', 'off')
    def __init__(self, c, n, cnt, off): self.c, self.n, self.cnt, self.off = c, n, cnt, off

def chop(n): return ite(icmp('==', n, 0), 0, isub(n, 1))

class ContentVerifier(TextVerifier):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.tc = []
    def fails(self, s): raise Kill()        # runs in which a system call fails are not of interest
    # ---------------------------------------------------------------- lists of strings
    def mksl(self, st, c, n, cnt):
        off = z3.Function(fresh_name('off'), z3.IntSort(), z3.IntSort())
        st.assume(off(0) == 0); st.assume(off(zi(cnt)) == zi(n))
        o = self.newobj('a'); st.mem[o] = SL(c, n, cnt, off)
        cp = fresh_int('cap'); st.assume(cp >= zi(cnt))
        return Slice(o, (), 0, cnt, cp)
    def listtext(self, st, x):
        """(text, length) of the elements of a list, each followed by a newline"""
        if x.obj is None: return ZERO, 0
        v = self.cont(st, x)
        if isinstance(v, SL):
            if isc(x.base) and x.base == 0 and (x.len is v.cnt or isc(x.len) and isc(v.cnt) and x.len == v.cnt): return v.c, v.n
            return None
        vs = self.listof(st, x)
        if vs is None: return None
        return self.addall(st, ZERO, 0, [y for z in vs for y in (z, '\n')])
    def addall(self, st, c, n, xs):
        for x in xs:
            d, b, m = self.view(st, x)
            if isc(m) and m <= 64:
                for k in range(m): c = c.wr(iadd(n, k), d.rd(iadd(b, k)))
            else: c = c.region(n, iadd(n, m), (lambda d, b, n: lambda i: d.rd(iadd(isub(i, n), b)))(d, b, n))
            n = iadd(n, m)
        return c, n
    def append(self, st, d, s, i, pos):
        et = self.prog.ty(self.prog.ty(i['t'])['elem'])
        if et['k'] == 'string' and not isinstance(s, Str):
            dv = self.cont(st, d) if d.obj is not None else None; sv = self.cont(st, s) if s.obj is not None else None
            if isinstance(dv, SL) or isinstance(sv, SL):
                a, b = self.listtext(st, d), self.listtext(st, s)
                if isinstance(dv, SL) and (a is None or ('used',) + d.obj in st.mem): raise Unsupported('append to a part of a list')
                if d.obj is not None: st.mem[('used',) + d.obj] = True
                if a is not None and b is not None:
                    m = b[1]
                    if isinstance(sv, SL) or not isc(s.len): c, n = a[0].region(a[1], iadd(a[1], m), lambda i: b[0].rd(isub(i, a[1]))), iadd(a[1], m)
                    else: c, n = self.addall(st, a[0], a[1], [y for z in self.listof(st, s) for y in (z, '\n')])
                    return self.mksl(st, c, n, iadd(d.len, s.len))
        return super().append(st, d, s, i, pos)
    def load_path(self, st, v, path):
        if isinstance(v, SL) and len(path) == 1:
            k = zi(path[0])
            a, e = v.off(k), v.off(k + 1)
            st.assume(z3.And(k <= a, a < e, e <= zi(v.n)))
            st.assume(zb(sb(zbv(v.c.rd(e - 1), 8) == 10)))
            st.assume(zb(lor(a == 0, sb(zbv(v.c.rd(a - 1), 8) == 10))))
            o = self.newobj('s'); st.mem[o] = v.c
            return Str(o, a, simp(e - 1 - a))
        return super().load_path(st, v, path)
    def store_path(self, st, v, path, x):
        if isinstance(v, SL): raise Unsupported('a list is changed in place')
        return super().store_path(st, v, path, x)
    def blockcopy(self, st, d, s, n, pos):
        if isinstance(self.cont(st, d), SL): raise Unsupported('a list is changed in place')
        super().blockcopy(st, d, s, n, pos)
    def havoccell(self, s, key, v0, c, checks):
        if key == G:
            self.tc[-1]['ghost'] = v0
            h = uf_content(fresh_name('said'), 8)
            n = fresh_int('said'); s.assume(n >= 0); s.assume(n <= self.lenmax)
            s.mem[G] = (SeqC(8, lambda i: h(zi(i))), n, fresh_bool('has'))
            # what is said ends with a newline
            ends = lambda g: lor(icmp('==', g[1], 0), sb(zbv(g[0].rd(isub(g[1], 1)), 8) == 10))
            s.assume(zb(ends(s.mem[G])))
            checks.append((lambda b, nxt: ends(b.mem[G]), lambda: self.refuse('ghost text')))
            if not (isc(v0[1]) and v0[1] == 0): self.refuse('lines are read in two loops')
            return
        if key == BYTES:
            # a line read as bytes in one iteration is not looked at in the next
            def unused(b, nxt):
                o = b.mem.get(BYTES); seen = [list(nxt.values()), [v for k, v in b.mem.items() if k not in (BYTES, o)]]
                while seen:
                    v = seen.pop()
                    if isinstance(v, (Slice, Ptr)) and v.obj == o and o is not None: return False
                    if isinstance(v, (list, tuple)): seen += list(v)
                    elif isinstance(v, Agg): seen += list(v.c)
                    elif isinstance(v, Iface): seen.append(v.v)
                    elif isinstance(v, BufV): seen.append(v.s)
                    elif isinstance(v, FuncRef): seen += list(v.binds or [])
                return True
            checks.append((unused, lambda: self.refuse('the bytes of a line are kept over a loop')))
            s.mem.pop(BYTES, None); return
        if key == LINE: s.mem[LINE] = self.freshstr(s, 'line'); return
        if key == 'stdout' or isinstance(key, tuple) and key[0] == 'disk':
            if v0 is None and key != 'stdout': raise Unsupported('a loop opens files')
            c0, n0 = v0 or (ZERO, 0)
            t = self.track(s, c, c0, 0, n0, checks, lambda b, nxt: (b.mem[key][0], 0, b.mem[key][1]))
            if t is not None: s.mem[key] = t; return
        elif isinstance(key, tuple) and key[0] == 'buf':
            b0 = v0 or BufV(NILSLICE)
            c0, o0, n0 = self.view(s, b0.s)
            if b0.s.obj is not None and self.refs(s, b0.s.obj, {key}): raise Unsupported('a loop fills a shared buffer')
            t = self.track(s, c, c0, o0, n0, checks, lambda b, nxt: self.view(b, b.mem[key].s))
            if t is not None:
                s.mem[key] = BufV(self.own(s, t, b0.s, o0), b0.to); return
        super().havoccell(s, key, v0, c, checks)
    def havocval(self, s, t, v0, c, checks, get):
        T = self.prog.ty(t); r = None
        if T['k'] == 'bool': r = self.trackbool(s, c, v0, checks, get)
        elif T['k'] == 'int' and isc(v0) and v0 == 0: r = self.trackint(s, c, checks, get, self.freshval(s, t, 'loop'))
        elif T['k'] == 'slice' and self.prog.ty(T['elem'])['k'] == 'string': r = self.tracklist(s, c, v0, checks, get)
        elif T['k'] == 'string' and isinstance(v0, (str, Str)):
            c0, o0, n0 = self.view(s, v0)
            x = self.track(s, c, c0, o0, n0, checks, lambda b, nxt: self.view(b, get(b, nxt)))
            if x is not None: r = self.strof(s, *x)
        elif T['k'] == 'slice' and self.prog.ty(T['elem'])['k'] in ('uint8', 'byte') and isinstance(v0, Slice) and (v0.obj is None or self.isfresh(v0.obj) and v0.obj[0] == 'a'):
            if v0.obj is not None and self.refs(s, v0.obj, set()) > 1: raise Unsupported('a loop moves a slice')
            c0, o0, n0 = self.view(s, v0)
            x = self.track(s, c, c0, o0, n0, checks, lambda b, nxt: self.view(b, get(b, nxt)))
            if x is not None: r = self.own(s, x, v0, o0)
        return r if r is not None else super().havocval(s, t, v0, c, checks, get)
    def trackint(self, s, c, checks, get, v):
        """a number is positive if and only if a benchmark result was read"""
        bad = c.setdefault('bad', [])
        if 'count' not in bad and self.ghost0() and self.tc[-1]['ghost'][2] is False:
            s.assume(v >= 0)
            s.assume(zb(sb((v > 0) == zb(s.mem[G][2]))))
            checks.append((lambda b, nxt: land(icmp('>=', get(b, nxt), 0), sb(zb(icmp('>', get(b, nxt), 0)) == zb(b.mem[G][2]))), lambda: bad.append('count')))
        return v
    def own(self, s, t, old, o0):
        """a slice of its own with the given contents"""
        o = self.newobj('a'); s.mem[o] = t[0]
        cp = fresh_int('cap'); s.assume(cp >= zi(t[1])); s.assume(cp <= self.lenmax * 2)
        if old.obj is not None and ('shift',) + old.obj in s.mem: s.mem[('shift',) + o] = iadd(o0, s.mem[('shift',) + old.obj])
        return Slice(o, (), 0, t[1], cp)
    def havocphi(self, s, f, i, e, cand, moved, checks, st):
        n = i['n']; T = self.prog.ty(i['t']); k = T['k']
        if cand[n] is None: cand[n] = {'same': True, 'ge': isc(e), 'le': isc(e), 'prefix': True, 'nl': True}
        c = cand[n]
        get = lambda b, nxt: nxt[n]
        if k == 'bool' and not c['same']:
            t = self.trackbool(s, c, e, checks, get)
            if t is not None: f.regs[n] = t; return
        if k == 'slice' and self.prog.ty(T['elem'])['k'] == 'string' and not c['same']:
            t = self.tracklist(s, c, e, checks, get)
            if t is not None: f.regs[n] = t; return
        if k == 'string' and not c['same'] and isinstance(e, (str, Str)):
            c0, b0, n0 = self.view(s, e)
            t = self.track(s, c, c0, b0, n0, checks, lambda b, nxt: self.view(b, nxt[n]))
            if t is not None: f.regs[n] = self.strof(s, *t); return
        if k == 'slice' and self.prog.ty(T['elem'])['k'] in ('uint8', 'byte') and not c['same'] and isinstance(e, Slice) and (e.obj is None or self.isfresh(e.obj) and e.obj[0] == 'a'):
            if e.obj is None or self.refs(st, e.obj, set()) <= self.same_value_refs(st, e):
                c0, b0, n0 = self.view(s, e)
                t = self.track(s, c, c0, b0, n0, checks, lambda b, nxt: self.view(b, nxt[n]))
                if t is not None:
                    x = self.own(s, t, e, b0); f.regs[n] = x
                    def owned(b, nxt):
                        y = nxt[n]
                        return y.obj is None or y.obj == x.obj or y.obj[0] == 'a' and y.obj[1] > x.obj[1] and sum(1 for z in nxt.values() if isinstance(z, Slice) and z.obj == y.obj) == 1
                    checks.append((owned, lambda: self.refuse('a loop moves a slice')))
                    return
        super().havocphi(s, f, i, e, cand, moved, checks, st)
        kd, w = self.prog.kind(i['t'])
        if kd == 'int' and isc(e) and e == 0: self.trackint(s, c, checks, get, f.regs[n])
        if kd == 'int' and isc(e) and e in (-1, 0):
            # an index into a list
            for key in self.lists(st):
                lim = c.setdefault('lim', {})
                if lim.get(key) is False: continue
                v = st.mem[key]
                s.assume(zb(icmp('<=', iadd(f.regs[n], -e), v.cnt)))
                def drop(key=key): lim[key] = False
                checks.append((lambda b, nxt, v=v, e=e: icmp('<=', iadd(nxt[n], -e), v.cnt), drop))
                self.tc[-1].setdefault('index', []).append((key, n, -e)) if (key, n, -e) not in self.tc[-1].get('index', []) else None
    def lists(self, st):
        r = []
        for fr in st.frames:
            for v in fr.regs.values():
                if isinstance(v, Slice) and v.obj is not None and not v.path and isinstance(st.mem.get(v.obj), SL) and v.obj not in r: r.append(v.obj)
        for v in list(st.mem.values()):
            if isinstance(v, Slice) and v.obj is not None and not v.path and isinstance(st.mem.get(v.obj), SL) and v.obj not in r: r.append(v.obj)
        return r
    # ---------------------------------------------------------------- invariants
    def ghost0(self):
        """the ghost changes in this loop, and starts from nothing"""
        g = self.tc[-1].get('ghost') if self.tc else None
        return g is not None and isc(g[1]) and g[1] == 0
    def tracks(self):
        r = []
        if self.ghost0(): r += [('said', False), ('said', True)]
        for x in self.tc[-1].get('index', []) if self.tc else []: r += [(x, False), (x, True)]
        return r
    def tracked(self, b, regs, t):
        """the text to compare with in state b"""
        w, ch = t
        if w == 'said': c, n = b.mem[G][0], b.mem[G][1]
        else:
            v = b.mem[w[0]]
            c, n = v.c, simp(v.off(zi(iadd(regs[w[1]], w[2]))))
            if not isc(n): b.assume(z3.And(n >= 0, n >= zi(iadd(regs[w[1]], w[2]))))
        return c, (chop(n) if ch else n)
    def track(self, s, c, c0, b0, n0, checks, get):
        """(contents, length): what was there, and a text the loop is known to add"""
        bad = c.setdefault('bad', [])
        for t in self.tracks():
            if t in bad: continue
            fr = s.frames[-1]
            if t[0] != 'said' and not isinstance(fr.regs.get(t[0][1]), (int, FV)) and not z3.is_expr(fr.regs.get(t[0][1])): continue
            tc, tn = self.tracked(s, fr.regs, t)
            def whole(tc, tn):
                m = iadd(n0, tn)
                return ZERO.region(0, n0, lambda i: c0.rd(iadd(i, b0))).region(n0, m, lambda i: tc.rd(isub(i, n0))), m
            def good(b, nxt, t=t):
                c1, m = whole(*self.tracked(b, nxt, t))
                c2, b2, n2 = get(b, nxt)
                j = fresh_int('j')
                return land(icmp('==', n2, m), lor(z3.Not(z3.And(0 <= j, j < zi(m))), sb(zbv(c2.rd(iadd(b2, j)), 8) == zbv(c1.rd(j), 8))))
            checks.append((good, lambda t=t: bad.append(t) if t not in bad else None))
            return whole(tc, tn)
        return None
    def trackbool(self, s, c, e, checks, get):
        if not self.ghost0() or not isinstance(e, bool): return None
        g0 = self.tc[-1]['ghost']
        bad = c.setdefault('bad', [])
        for what, val, at0 in (('has', lambda g: g[2], False), ('has not', lambda g: lnot(g[2]), True), ('empty', lambda g: icmp('==', g[1], 0), True), ('not empty', lambda g: icmp('>', g[1], 0), False)):
            if what in bad or at0 != e or what.startswith('has') and g0[2] is not False: continue
            checks.append((lambda b, nxt, val=val: sb(zb(get(b, nxt)) == zb(val(b.mem[G]))), lambda what=what: bad.append(what)))
            return val(s.mem[G])
        return None
    def tracklist(self, s, c, e, checks, get):
        if not self.ghost0() or not isinstance(e, Slice) or 'list' in c.setdefault('bad', []): return None
        if not (isc(e.len) and e.len == 0): return None
        gc, gn = s.mem[G][0], s.mem[G][1]
        cnt = fresh_int('cnt'); s.assume(cnt >= 0); s.assume(cnt <= gn); s.assume(z3.Implies(cnt == 0, gn == 0))
        x = self.mksl(s, gc, gn, cnt)
        def good(b, nxt):
            y = get(b, nxt)
            if not isinstance(y, Slice): return False
            t = self.listtext(b, y)
            if t is None: return False
            hc, hn = b.mem[G][0], b.mem[G][1]
            j = fresh_int('j')
            return land(icmp('==', t[1], hn), icmp('<=', y.len, hn), lor(icmp('>', y.len, 0), icmp('==', hn, 0)), lor(z3.Not(z3.And(0 <= j, j < zi(hn))), sb(zbv(t[0].rd(j), 8) == zbv(hc.rd(j), 8))))
        checks.append((good, lambda: c['bad'].append('list')))
        return x
    def textcut(self, *a):
        self.tc.append({})
        try: super().textcut(*a)
        finally: self.tc.pop()
    # ---------------------------------------------------------------- main
    def verify_main(self, fn, st):
        st.mem[G] = (ZERO, 0, False)
        super().verify_main(fn, st)
    def finish(self, st, vals, pos):
        if st.mem.get('refused'):
            self.finished += 1; return
        super().finish(st, vals, pos)
    def posttext(self, st, c, n, where, pos):
        A = self.S + len(START)
        gc, gn, _ = st.mem[G]
        # nothing to say: no text or an empty line
        empty = icmp('==', gn, 0)
        m = ite(land(empty, sb(zbv(c.rd(A), 8) == 10)), 1, gn)
        j = fresh_int('j')
        self.oblige(st, 'func', 'post', '%s: standard input is read to its end' % where, bool(st.mem.get('ended')), pos, assume=False)
        self.oblige(st, 'func', 'post', '%s: the section is there in full length' % where, icmp('>=', n, A + zi(m) + len(END)), pos, assume=False)
        want = ite(empty, 10, gc.rd(j), 8)
        self.oblige(st, 'func', 'post', '%s: the section says what the benchmark output says' % where, lor(z3.Not(z3.And(j >= 0, j < zi(m))), sb(zbv(c.rd(iadd(A, j)), 8) == zbv(want, 8))), pos, assume=False)
        self.oblige(st, 'func', 'post', '%s: and nothing else' % where, self.match(c, iadd(A, m), END.encode()), pos, assume=False)

LIB = dict(text.LIB)
ContentVerifier.lib = LIB
def lib(*names):
    def f(g):
        for n in names: LIB[n] = g
        return g
    return f
@lib('(*bufio.Scanner).Scan')
def _(v, st, a, i, pos):
    def end(s): s.mem['ended'] = True
    def more(case, has):
        def eff(s):
            x = v.freshstr(s, 'line')
            c, b, n = v.view(s, x)
            is_ = lambda p: land(icmp('>=', n, len(p)), v.match(c, b, p))
            gc, gn, gh = s.mem[G]
            if case is None:
                for p in CASES: s.assume(zb(lnot(is_(p))))
                add = []
            else:
                s.assume(zb(is_(case)))
                add = [x, '\n']
                if case == b'goos':
                    if has and gh is False: raise Kill()
                    s.assume(zb(gh if has else lnot(gh)))
                    if has: add = ['\n'] + add
                elif case == b'cpu': add += ['--\n']
                elif case == b'Benchmark':
                    add = [Str(x.obj, iadd(x.base, len(case)), isub(x.len, len(case))), '\n']; gh = True
            gc, gn = v.addall(s, gc, gn, add)
            s.mem[G] = (gc, gn, gh) if add else s.mem[G]
            s.mem[LINE] = x
        return eff
    st.mem.pop('ended', None)
    o = st.mem.pop(BYTES, None)
    if o is not None:
        h = uf_content(fresh_name('overwritten'), 8); st.mem[o] = SeqC(8, lambda i: h(zi(i)))
    return Alts([(end, False)] + [(more(p, h), True) for p in CASES + [None] for h in ((True, False) if p == b'goos' else (False,))])
@lib('(*bufio.Scanner).Text')
def _(v, st, a, i, pos): return st.mem.get(LINE) or v.freshstr(st, 'line')
@lib('(*bufio.Scanner).Bytes')
def _(v, st, a, i, pos):
    x = st.mem.get(LINE)
    if x is None: return v.freshbytes(st, 'line')
    r = v.copytext(st, x, 'a')
    st.mem[BYTES] = r.obj           # the scanner's buffer: the next Scan may overwrite it
    return r
@lib('(*bufio.Scanner).Split')
def _(v, st, a, i, pos):
    if not (isinstance(a[1], FuncRef) and a[1].name == 'bufio.ScanLines'): raise Unsupported('Split')
    return None
@lib('(*bufio.Reader).ReadString', '(*bufio.Reader).ReadBytes', '(*bufio.Reader).ReadLine', 'bufio.NewReader', 'bufio.NewReaderSize')
def _(v, st, a, i, pos): raise Unsupported('reading standard input in another way than with a Scanner')
@lib('strings.TrimPrefix', 'strings.CutPrefix', 'bytes.TrimPrefix')
def _(v, st, a, i, pos):
    cut = i['fn'][2].endswith('CutPrefix')
    k = v.concrete(st, a[1])
    if k is None: return (v.freshstr(st, 'trimmed'), fresh_bool('found')) if cut else v.freshval(st, i['t'], 'trimmed')
    h = a[0]
    if isinstance(h, str):
        y = h.encode('latin-1').startswith(k)
        r = h[len(k):] if y else h
        return (r, y) if cut else r
    c, b, n = v.view(st, h)
    m = land(icmp('>=', n, len(k)), v.match(c, b, k))
    t = text.sub(v, h, len(k), h.len)
    return Alts([(lambda s: s.assume(zb(m)), (t, True) if cut else t), (lambda s: s.assume(zb(lnot(m))), (h, False) if cut else h)])
@lib('strings.Join')
def _(v, st, a, i, pos):
    x = a[0]
    t = v.listtext(st, x) if x.obj is not None and isinstance(v.cont(st, x), SL) else None
    if t is None or a[1] != '\n': return text.LIB['strings.Join'](v, st, a, i, pos)
    c, n = t
    if isc(n): return v.strof(st, c, n - 1) if n else ''
    return Alts([(lambda s: s.assume(zi(n) == 0), ''), (lambda s: s.assume(zi(n) > 0), lambda s: v.strof(s, c, isub(n, 1)))])

if __name__ == '__main__': text.main(ContentVerifier)
