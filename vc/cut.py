"""Loops whose trip count is not concrete: cut by an inductive invariant.

The contract gives a ghost group counter G with its range, and templates over G
(measures for integers, words for 32-bit values, `done` ranges for memory).  Which
variable satisfies which template is inferred (Houdini); what is kept is proved
inductive by obligations.
"""
import z3
from val import *
from sym import *
import spec as S

class NoMeasure(Unsupported):
    pass
class RefChange(Unsupported):
    pass

class Comp:
    __slots__ = ('where', 'key', 'part', 'sort', 'x0', 'cands', 'k', 'delta', 'cur', 'first', 'last')
    def __init__(self, where, key, part, sort, x0):
        self.where, self.key, self.part, self.sort, self.x0 = where, key, part, sort, x0
        self.cands = []; self.k = 0; self.delta = None; self.cur = None
    def name(self):
        return '%s%s' % (self.key, '' if self.part is None else '.' + str(self.part))
    @property
    def leaf(self):
        """the part of the innermost value"""
        p = self.part
        while isinstance(p, tuple): p = p[2]
        return p
    def kind(self):
        p, n = self.part, ''
        while isinstance(p, tuple): n += 'field %s ' % p[1]; p = p[2]
        return (n + str(p or '')).strip() or 'value'

def symbols(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    st = [e]; seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())
    return acc

def glo_zero(con): return con.progress[1] == ('num', 0)

class CutMixin:
    def decomp(self, v, t):
        """[(part, sort, value)] for the parts of a loop-carried value that may change"""
        if isinstance(v, Agg):
            # a struct (or an array of such): its fields, each with its own parts
            r = []
            for n, (x, xt) in enumerate(zip(v.c, self.fieldtypes(v, t))):
                if isinstance(x, SeqC): continue
                for part, sort, y in self.decomp(x, xt): r.append((('field', n, part), sort, y))
            return r
        if isinstance(v, Slice):
            if v.obj is None: return [('base', 'int', 0), ('len', 'int', 0), ('cap', 'int', 0)]
            return [('base', 'int', v.base), ('len', 'int', v.len), ('cap', 'int', v.cap)]
        if isinstance(v, Ptr):
            r = []
            for n, p in enumerate(v.path):
                if not isc(p) : r.append((n, 'int', p))
            return r
        if v is None or isinstance(v, (FuncRef, str, Iface, tuple)): return []
        if t is None: raise Unsupported('loop-carried value')
        kd, w = self.prog.kind(t)
        if kd == 'int': return [(None, 'int', v)]
        if kd == 'uint': return [(None, w, v)]
        if kd == 'bool': return [(None, 'bool', v)]
        raise Unsupported('loop-carried value of kind %s' % kd)
    def fieldtypes(self, v, t):
        T = self.prog.ty(t) if t is not None else {'k': None}
        if T['k'] == 'struct' and len(T.get('fields') or []) == len(v.c): return [f['t'] for f in T.get('fields') or []]
        if T['k'] == 'array': return [T['elem']] * len(v.c)
        if all(isinstance(x, (SeqC, Slice, Agg)) for x in v.c): return [None] * len(v.c)
        raise Unsupported('aggregate changed in a loop')
    def recomp(self, v, vals, seq=None, path=()):
        """rebuild a value from new parts"""
        if isinstance(v, Agg):
            out = []
            for n, x in enumerate(v.c):
                if isinstance(x, SeqC): out.append(seq(x, path + (n,)) if seq else x)
                else: out.append(self.recomp(x, {k[2]: y for k, y in vals.items() if k[1] == n}, seq, path + (n,)))
            return Agg(out)
        if isinstance(v, Slice):
            return Slice(v.obj, v.path, vals.get('base', v.base), vals.get('len', v.len), vals.get('cap', v.cap))
        if isinstance(v, Ptr):
            return Ptr(v.obj, tuple(vals.get(n, p) for n, p in enumerate(v.path)))
        if None in vals: return vals[None]
        return v
    def sameref(self, a, b):
        if isinstance(a, Agg): return isinstance(b, Agg) and len(a.c) == len(b.c) and all(self.sameref(x, y) for x, y in zip(a.c, b.c))
        if isinstance(a, SeqC): return isinstance(b, SeqC)
        if isinstance(a, Slice): return isinstance(b, Slice) and a.obj == b.obj and a.path == b.path
        if isinstance(a, Ptr): return isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path)
        if isinstance(a, FuncRef): return isinstance(b, FuncRef) and a.name == b.name and a.binds == b.binds
        if a is None or isinstance(a, (str, Iface, tuple)): return a is b or (isinstance(a, str) and a == b)
        return True

    def cut(self, st, fr, header, work, stop):
        con = self.con
        fn = fr.fn
        blocks = fn.loops[header]
        depth = len(st.frames)
        Gname, glo, ghi = con.progress
        s0 = st.copy()
        f0 = s0.frames[-1]
        self.cur = s0
        self.enter_phis(s0, f0)
        hb = fn.blocks[header]
        phis = [(i['n'], i['t']) for i in hb['i'] if i['op'] == 'phi']
        idx0 = f0.idx
        ptmpl = {n: f0.regs[n] for n, t in phis}
        comps = []
        for n, t in phis:
            for part, sort, v in self.decomp(ptmpl[n], t):
                comps.append(Comp('phi', n, part, sort, v))
        G = fresh_int('G_%s_%d' % (fn.short, header))
        Gend = self.evl.ev(ghi, self.env0)
        Gbeg = self.evl.ev(glo, self.env0)
        modified = {}      # obj -> kind
        hav = {}
        def template(name, g):
            return self.evl.ev(name, self.env0.bind(Gname, g))
        # ---------------------------------------------------------- building a header state
        def mkheader(vals, g, facts):
            s = s0.copy()
            f = s.frames[-1]
            byphi = {}
            for c, v in vals:
                byphi.setdefault((c.where, c.key), {})[c.part] = v
            for n, t in phis:
                f.regs[n] = self.recomp(ptmpl[n], byphi.get(('phi', n), {}))
            for obj, kd in modified.items():
                if kd == 'seq':
                    s.mem[obj] = seqheader(obj, g)
                elif kd == 'cell':
                    s.mem[obj] = self.recomp(s0.mem[obj], byphi.get(('cell', obj), {}))
                elif kd == 'agg':
                    s.mem[obj] = self.recomp(s0.mem[obj], byphi.get(('cell', obj), {}), lambda x, path: havocseq(x, obj, path))
            for x in facts: s.assume(x)
            return s
        def havocseq(v, obj, path):
            key = (obj, path)
            if key not in hav: hav[key] = uf_content(fresh_name('h'), v.w, v.signed)
            h = hav[key]
            return SeqC(v.w, lambda i: h(zi(i)), (), v.signed)
        dones = {}         # obj -> list of (lo expr, hi expr, var, body); None -> the elements are finished from the top downwards
        def seqheader(obj, g):
            c0 = s0.mem.get(obj) if obj in s0.mem else self.getobj(s0, obj)
            if obj not in hav: hav[obj] = uf_content(fresh_name('h'), c0.w, c0.signed)
            h = hav[obj]
            if obj[0] == 'p':
                c = self.pre(obj)
                for o, lo, hi in self.modranges:
                    if o == obj: c = c.region(lo, hi, lambda i: h(zi(i)))
            else:
                c = SeqC(c0.w, lambda i: h(zi(i)), (), c0.signed)
            if g is not None:
                for d in dones.get(obj, []):
                    env = self.env0.bind(Gname, g)
                    lo, hi = self.donerange(d, g, dones)
                    def val(i, d=d, env=env):
                        return self.evl.ev(d[4], env.bind(d[3], i))
                    c = c.region(lo, hi, val)
            return c
        def newcells():
            """components for modified scalar cells"""
            have = {c.key for c in comps if c.where == 'cell'}
            for obj, kd in modified.items():
                if kd != 'seq' and obj not in have:
                    t = self.celltype.get(obj)
                    for part, sort, v in self.decomp(s0.mem[obj], t):
                        comps.append(Comp('cell', obj, part, sort, v))
        def runbody(s, quiet):
            from exec2 import Stop
            sp = Stop(depth, header, blocks)
            sp.fnframe = fn
            if quiet: self.quiet += 1
            sc = self.cur
            hints = list(self.localhints)
            self.localhints = hints + [z3.simplify(G + k) for k in range(9)]
            w = [s]
            try:
                self.run(w, sp)
            finally:
                if quiet: self.quiet -= 1
                self.cur = sc
                self.localhints = hints
            return sp
        def nextvals(b):
            """values of the components after an iteration (back-edge state b)"""
            fb = b.frames[-1]
            k = hb['preds'].index(fb.prev)
            save = self.cur
            self.cur = b
            out = {}
            for i in hb['i']:
                if i['op'] != 'phi': break
                v = self.val(b, i['e'][k])
                if not self.sameref(ptmpl[i['n']], v): raise RefChange('a loop changes a reference (%s)' % fn.key)
                p = {}
                for part, sort, x in self.decomp(v, i['t']): p[part] = x
                if isinstance(ptmpl[i['n']], Ptr):
                    p = {n: x for n, x in enumerate(v.path)}
                    for n, x in enumerate(ptmpl[i['n']].path):
                        if isc(x) and not (isc(v.path[n]) and v.path[n] == x):
                            if not any(c.key == i['n'] and c.part == n for c in comps):
                                comps.append(Comp('phi', i['n'], n, 'int', x)); out['again'] = True
                for part, x in p.items(): out[('phi', i['n'], part)] = x
            for obj, kd in modified.items():
                if kd != 'seq':
                    v = b.mem[obj]
                    if not self.sameref(s0.mem[obj], v): raise RefChange('a loop changes a reference (%s)' % fn.key)
                    for part, sort, x in self.decomp(v, self.celltype.get(obj)): out[('cell', obj, part)] = x
            self.cur = save
            return out
        def freshcomp(c):
            if c.cur is None:
                nm = 'l_%s' % c.name()
                if c.sort == 'int': c.cur = fresh_int(nm)
                elif c.sort == 'bool': c.cur = fresh_bool(nm)
                else: c.cur = fresh_bv(nm, c.sort)
            return c.cur
        def rangefact(c, v):
            if c.sort != 'int' or isc(v) or isinstance(v, FV): return []
            w = self.prog.wordbits
            lo = 0 if c.leaf in ('base', 'len', 'cap') else -(1 << (w - 1))
            return [zi(v) >= lo, zi(v) < (1 << (w - 1))]
        # ---------------------------------------------------------- 1. which objects change, and by how much
        backs = None
        while True:
            for c in comps: freshcomp(c)
            vals = [(c, c.cur) for c in comps]
            facts = []
            for c in comps: facts += rangefact(c, c.cur)
            s = mkheader(vals, None, facts)
            base = dict(s.mem)
            sp = runbody(s, True)
            backs = sp.back
            new = False
            for b in backs + [e[0] for e in sp.exits]:
                for obj, v in b.mem.items():
                    if obj in base and v is not base[obj] or obj not in base and obj in s0.mem and v is not s0.mem[obj]:
                        if obj in modified: continue
                        if b not in backs: continue
                        old = s0.mem.get(obj)
                        if isinstance(v, SeqC): modified[obj] = 'seq'
                        elif isinstance(v, Agg): modified[obj] = 'agg'
                        else: modified[obj] = 'cell'
                        new = True
            newcells()
            nv = []; kept = []; rc = None
            for b in backs:
                # a path on which the loop would change a reference (an append that grows) may yet prove impossible
                try: nv.append(nextvals(b)); kept.append(b)
                except RefChange as e: self.cur = s; rc = e
            if rc is not None and not kept: raise rc
            backs = kept
            if any('again' in x for x in nv): new = True
            if not new: break
        if not backs:
            # the loop body never reaches the header again: no cut needed
            self.loopinfo.append((fn.key, header, 'no back edge'))
            for (x, src, tgt) in self.rerun_exits(mkheader([(c, c.x0) for c in comps], None, []), runbody):
                self.resume(x, src, tgt, work, stop)
            return
        for obj, kd in modified.items():
            if kd != 'seq': continue
            for d in con.done:
                if d[0] == 'fresh' and self.isfresh(obj) and obj in self.slices or obj[0] == 'p' and d[0] == obj[1]:
                    dones.setdefault(obj, []).append(d)
        for c in comps:
            if c.sort != 'int': continue
            ds = []
            for x in nv:
                d = isub(x[(c.where, c.key, c.part)], c.cur)
                ds.append(d if isc(d) else None)
            c.delta = ds[0] if all(x is not None and x == ds[0] for x in ds) else None
        # ---------------------------------------------------------- 2. the pivot
        forms = []
        four = lambda g: imul(4, g)
        meas = [(lambda g, e=e: template(e, g)) for e in con.measures]
        mintext = [e for e in con.measures if e[0] == 'call' and e[1] == 'min']
        for c in comps:
            if c.sort != 'int': continue
            if c.delta:
                if c.delta > 0:
                    d = c.delta
                    forms.append((c, lambda g: g, lambda x: x, d))
                    if d % 4 == 0: forms.append((c, four, lambda x: idivf(x, 4), d // 4))
                    forms.append((c, lambda g: isub(g, 1), lambda x: iadd(x, 1), d))
                    for k in (2, 4, 8, 16):
                        forms.append((c, lambda g, k=k: idivf(g, k), lambda x, k=k: imul(x, k), d * k))
                        forms.append((c, lambda g, k=k: isub(idivf(g, k), 1), lambda x, k=k: imul(iadd(x, 1), k), d * k))
                else:
                    d = -c.delta
                    forms.append((c, lambda g: isub(Gend, g), lambda x: isub(Gend, x), d))
                    forms.append((c, lambda g: isub(isub(Gend, 1), g), lambda x: isub(isub(Gend, 1), x), d))
                    if mintext:
                        n = self.evl.ev(mintext[0][2][1], self.env0)
                        if d % 4 == 0:
                            forms.append((c, lambda g: isub(n, imul(4, g)), lambda x: idivf(isub(n, x), 4), d // 4))
            elif c.delta is None and mintext:
                n = self.evl.ev(mintext[0][2][1], self.env0)
                forms.append((c, lambda g: imin(imul(4, g), n), lambda x: idivf(iadd(x, 3), 4), None))
                forms.append((c, lambda g: isub(n, imin(imul(4, g), n)), lambda x: idivf(iadd(isub(n, x), 3), 4), None))
        # stable preference: slope-one and groups-of-four forms of plain integers first
        failure = 'no progress measure fits'
        for c, form, inv, d in sorted(forms, key=lambda f: (f[3] is None, f[0].leaf is not None)):
            self.cur = s0
            G0 = inv(c.x0)
            ok = land(icmp('==', form(G0), c.x0), icmp('<=', Gbeg, G0), icmp('<=', G0, Gend))
            if not self.must(s0, ok): continue
            r = self.cutwith(st, s0, fr, header, work, stop, comps, c, form, inv, d, G0, G, Gbeg, Gend, mkheader, runbody, nextvals, rangefact, dones, seqheader, template, meas, modified, freshcomp)
            if r is True: return
            failure = r
        # no pivot: a named obligation cannot be established
        raise NoMeasure('loop in %s: %s' % (fn.key, failure))

    def rerun_exits(self, s, runbody):
        return runbody(s, False).exits

    def resume(self, x, src, tgt, work, stop):
        """continue an exit state of a loop"""
        if tgt is None:
            # returned out of the function
            if stop is not None and len(x.frames) < stop.depth:
                stop.exits.append((x, None, None))
            else: work.append(x)
            return
        f = x.frames[-1]
        f.blk = src
        self.cur = x
        from exec2 import Kill
        try:
            if self.goto(x, f, tgt, work, stop) != 'stop': work.append(x)
        except (Kill, Dead):
            pass

    def cutwith(self, st, s0, fr, header, work, stop, comps, piv, form, inv, d, G0, G, Gbeg, Gend, mkheader, runbody, nextvals, rangefact, dones, seqheader, template, meas, modified, freshcomp):
        con = self.con
        fn = fr.fn
        Gname = con.progress[0]
        env = self.env0.bind(Gname, G)
        mintext = [e for e in con.measures if e[0] == 'call' and e[1] == 'min']
        # candidates for the other components
        for c in comps:
            c.k = 0; c.cands = []
            if c is piv:
                c.cands = [('pivot', form)]
                continue
            x0 = c.x0
            if c.sort == 'int':
                if c.delta == 0: c.cands.append(('unchanged', lambda g, x0=x0: x0))
                elif c.delta is not None and d:
                    if c.delta % d == 0:
                        q = c.delta // d
                        c.cands.append(('linear', lambda g, x0=x0, q=q: iadd(x0, imul(q, isub(g, G0)))))
                    else:
                        q = c.delta
                        c.cands.append(('linear', lambda g, x0=x0, q=q: iadd(x0, imul(q, idivf(isub(g, G0), d)))))
                c.cands.append(('unchanged', lambda g, x0=x0: x0))
                for n, m in enumerate(meas):
                    c.cands.append(('measure %d' % n, m))
                for n, m in enumerate(meas):
                    c.cands.append(('measure %d + offset' % n, lambda g, m=m, x0=x0: iadd(x0, isub(m(g), m(G0)))))
                    c.cands.append(('offset - measure %d' % n, lambda g, m=m, x0=x0: isub(x0, isub(m(g), m(G0)))))
                for nb, eb in con.opts_bounds():
                    # quantities that only move with full groups
                    bv = self.evl.ev(eb, self.env0)
                    def upto(f, bv=bv): return lambda g: f(imin(g, bv))
                    if c.delta is None and d: c.cands.append(('linear up to %s' % nb, upto(lambda g, x0=x0: iadd(x0, isub(g, G0)))))
                    if c.delta is None and d: c.cands.append(('groups of four up to %s' % nb, upto(lambda g, x0=x0: iadd(x0, imul(4, isub(g, G0))))))
                    if c.delta is None and d: c.cands.append(('minus groups of four up to %s' % nb, upto(lambda g, x0=x0: isub(x0, imul(4, isub(g, G0))))))
                    for n, m in enumerate(meas):
                        c.cands.append(('measure %d + offset up to %s' % (n, nb), upto(lambda g, m=m, x0=x0: iadd(x0, isub(m(g), m(G0))))))
                        c.cands.append(('offset - measure %d up to %s' % (n, nb), upto(lambda g, m=m, x0=x0: isub(x0, isub(m(g), m(G0))))))
                c.cands.append(('any', None))
            elif c.sort == 'bool':
                c.cands = [('unchanged', lambda g, x0=x0: x0), ('any', None)]
            else:
                c.cands = [('unchanged', lambda g, x0=x0: x0)]
                if c.sort == 32:
                    for n, e in enumerate(con.words):
                        c.cands.append(('word %d' % n, lambda g, e=e: template(e, g)))
                    for nb, eb in con.opts_bounds():
                        bv = self.evl.ev(eb, self.env0)
                        for n, e in enumerate(con.words):
                            c.cands.append(('word %d up to %s' % (n, nb), lambda g, e=e, bv=bv: template(e, imin(g, bv))))
                c.cands.append(('any', None))
        def eq(c, a, b):
            if c.sort == 'int': return icmp('==', a, b)
            if c.sort == 'bool': return sb(zb(a) == zb(b))
            return sb(zbv(a, c.sort) == zbv(b, c.sort))
        # drop candidates that fail on entry
        self.cur = s0
        for c in comps:
            if c is piv: continue
            c.cands = [(n, f) for n, f in c.cands if f is None or self.must(s0, eq(c, c.x0, f(G0)))]
        extra = []          # boolean candidates over g
        if d and d > 1:
            extra.append(('aligned', lambda g: sb(zi(imod(isub(g, G0), d)) == 0)))
            if True:
                extra.append(('aligned to zero', lambda g: sb(zi(imod(g, d)) == 0)))
        for n, e in con.opts_bounds():
            extra.append((n, lambda g, e=e: icmp('<=', g, self.evl.ev(e, self.env0))))
        extra = [(n, f) for n, f in extra if self.must(s0, f(G0))]
        extra0 = list(extra)
        guard = [None]
        G0z = zi(G0)
        def header_states():
            """the states at the loop header; two of them if the last, partial group is not settled"""
            facts = [zi(G0) <= G, G <= zi(Gend), zi(Gbeg) <= G]
            for n, f in extra: facts.append(zb(f(G)))
            if guard[0] is not None:
                facts.append(z3.Or(G == G0z, z3.substitute(guard[0], (G, G - d))))
            tmp = s0.copy()
            for x in facts: tmp.assume(x)
            alts = [[]]
            if mintext:
                n = self.evl.ev(mintext[0][2][1], self.env0)
                full = sb(4 * G <= zi(n))
                self.cur = tmp
                if self.decide(full) is full:
                    alts = [[x] for x in (full, z3.Not(full)) if self.feasible(tmp, x)]
            out = []
            for alt in alts:
                t = tmp.copy()
                for x in alt: t.assume(x)
                self.cur = t
                vals = []
                fs = facts + alt
                for c in comps:
                    n, f = c.cands[c.k]
                    if f is None:
                        # anything, but on arrival it still has its first value
                        v = freshcomp(c)
                        if c.sort != 'bool' and not isinstance(c.x0, FV): v = ite(sb(G == G0z), c.x0, v, None if c.sort == 'int' else c.sort)
                    else: v = f(G)
                    vals.append((c, v))
                    fs = fs + rangefact(c, v)
                out.append(mkheader(vals, G, fs))
            return out
        def runheaders(quiet):
            """one iteration from every header state: back edges (with the length of the path at the header) and exits"""
            backs, exits = [], []
            for hs in header_states():
                n0 = len(hs.trace)
                self.cur = hs
                sp = runbody(hs, quiet)
                backs += [(b, n0) for b in sp.back]
                exits += sp.exits
            return backs, exits
        entrysyms = None
        retries = 3
        for c in comps: c.first = c.last = -1
        for rnd in range(60):
            backs, _ = runheaders(True)
            changed = False
            conds = []; drop = []; noprogress = False
            kept = []; rc = None
            for b, n0 in backs:
                try: nextvals(b); kept.append((b, n0))
                except RefChange as e: rc = e
            backs = kept
            for b, _ in backs:
                nv = nextvals(b)
                self.cur = b
                G1 = inv(nv[(piv.where, piv.key, piv.part)])
                save = self.localhints
                self.localhints = save + [z3.simplify(G + k) for k in range(9)]
                try:
                    if d:
                        gok = icmp('==', G1, iadd(G, d))
                    else:
                        gok = icmp('>', G1, G)
                    if not self.must(b, land(gok, icmp('==', form(G1), nv[(piv.where, piv.key, piv.part)]), icmp('<=', G1, Gend))):
                        if guard[0] is None or d is None: pass
                        else: noprogress = True
                    # one kind at a time: a candidate may fail only because another one is still wrong
                    for stage in (0, 1):
                        for c in comps:
                            n, f = c.cands[c.k]
                            if c is piv or f is None or c in conds or (stage == 0) != (n in ('unchanged', 'linear')): continue
                            if stage == 1 and c.sort != 'int': continue
                            if not self.must(b, eq(c, nv[(c.where, c.key, c.part)], f(G1))):
                                changed = True
                                conds.append(c)
                        if conds: break
                    if not conds:
                        for n, f in list(extra):
                            if not self.must(b, f(G1)):
                                drop.append((n, f)); changed = True
                finally:
                    self.localhints = save
            if not changed:
                for b, _ in backs:
                    nv = nextvals(b)
                    self.cur = b
                    G1 = inv(nv[(piv.where, piv.key, piv.part)])
                    save = self.localhints
                    self.localhints = save + [z3.simplify(G + k) for k in range(9)]
                    try:
                        for c in comps:
                            n, f = c.cands[c.k]
                            if c is piv or f is None or c in conds or c.sort == 'int' or n == 'unchanged': continue
                            if not self.must(b, eq(c, nv[(c.where, c.key, c.part)], f(G1))):
                                changed = True
                                conds.append(c)
                    finally:
                        self.localhints = save
            for c in conds:
                c.k += 1
                c.last = rnd
                if c.first < 0: c.first = rnd
            if not conds:
                for x in drop:
                    if x in extra: extra.remove(x)
            if changed: continue
            if noprogress: return 'progress'
            if rc is not None: raise rc
            # what the path to the back edge says about G alone
            if guard[0] is None and d:
                g = self.backguard(backs, G, s0)
                if g is not None:
                    guard[0] = g
                    for c in comps:
                        if c is not piv and (c.cands[c.k][1] is None or 'offset' in c.cands[c.k][0]): c.k = 0
                    extra = list(extra0)
                    continue
            # a component given up while another one was still wrong gets a second chance
            again = [c for c in comps if c is not piv and c.cands[c.k][1] is None and len(c.cands) > 1
                     and any(o is not c and o is not piv and o.cands[o.k][1] is not None and o.last >= c.first >= 0 for o in comps)]
            if again and retries > 0:
                retries -= 1
                for c in again: c.k = 0; c.first = c.last = -1
                extra = list(extra0)
                continue
            break
        else:
            return 'invariant inference did not stabilise'
        if d and piv.delta is not None and piv.delta < 0 and glo_zero(con) and any(self.mirrors(x) for o, l in dones.items() for x in l):
            # the elements may be finished from the first to the last or from the last to the first
            def finished():
                if not self.doneholds(s0, dones, G0): return False
                for b, _ in runheaders(True)[0]:
                    nv = nextvals(b)
                    if not self.doneholds(b, dones, simp(inv(nv[(piv.where, piv.key, piv.part)]))): return False
                return True
            if not finished():
                dones[None] = [Gend]
                if not finished(): del dones[None]
        # ---------------------------------------------------------- the proof
        self.loopinfo.append((fn.key, header, {c.name(): c.cands[c.k][0] for c in comps}))
        pos = 'loop in ' + fn.key
        quiet = self.quiet
        self.cur = s0
        save = self.localhints
        self.localhints = save + [z3.simplify(G + k) for k in range(9)]
        self.localhints += [G0z]
        for c in comps:
            n, f = c.cands[c.k]
            if f is not None and c is not piv: self.oblige(s0, 'inv', 'inv-entry', 'loop invariant on entry (%s: %s)' % (c.kind(), n), eq(c, c.x0, f(G0)), pos)
        self.oblige(s0, 'term', 'inv-entry', 'progress counter in range on entry', land(icmp('<=', Gbeg, G0), icmp('<=', G0, Gend), icmp('==', form(G0), piv.x0)), pos)
        for n, f in extra: self.oblige(s0, 'inv', 'inv-entry', n + ' on entry', f(G0), pos)
        self.donecheck(s0, dones, G0, 'inv-entry', pos)
        self.localhints = save
        backs, exits = runheaders(False)
        for b, _ in backs:
            nv = nextvals(b)
            self.cur = b
            self.localhints = save + [z3.simplify(G + k) for k in range(9)]
            G1 = inv(nv[(piv.where, piv.key, piv.part)])
            self.oblige(b, 'term', 'progress', 'each iteration makes progress within bounds',
                        land(icmp('>', G1, G) if not d else icmp('==', G1, iadd(G, d)), icmp('<=', G1, Gend), icmp('==', form(G1), nv[(piv.where, piv.key, piv.part)])), pos)
            G1 = simp(iadd(G, d)) if d else G1
            for c in comps:
                n, f = c.cands[c.k]
                if f is not None and c is not piv:
                    self.oblige(b, 'inv', 'inv', 'loop invariant preserved (%s: %s)' % (c.kind(), n), eq(c, nv[(c.where, c.key, c.part)], f(G1)), pos)
            for n, f in extra: self.oblige(b, 'inv', 'inv', n + ' preserved', f(G1), pos)
            self.donecheck(b, dones, G1, 'inv', pos)
            self.localhints = save
        for (x, src, tgt) in exits:
            x.ghosts = x.ghosts + [G, z3.simplify(G + 1)]
            self.resume(x, src, tgt, work, stop)
        return True

    def backguard(self, backs, G, s0):
        if len(backs) > 8: return None
        syms0 = set()
        seen = set()
        for f in s0.trace: symbols(f, syms0, seen)
        ok = {G.decl().name()} | {n for n in syms0}
        for n in list(self.env0.names):
            ok.add(n); ok.add('len(%s)' % n); ok.add('cap(%s)' % n)
        alts = []
        for b, n0 in backs:
            cs = [f for f in b.trace[n0:] if symbols(f) <= ok and G.decl().name() in symbols(f)]
            if not cs: return None
            alts.append(z3.And(*cs) if len(cs) > 1 else cs[0])
        return z3.Or(*alts) if len(alts) > 1 else alts[0]

    def mirrors(self, d):
        """elements 0 to G, each one its own: they may be finished from the other end as well"""
        return d[1] == ('num', 0) and d[2] == ('var', self.con.progress[0])
    def donerange(self, d, g, dones):
        if None in dones and self.mirrors(d): return isub(dones[None][0], g), dones[None][0]
        env = self.env0.bind(self.con.progress[0], g)
        return self.evl.ev(d[1], env), self.evl.ev(d[2], env)
    def doneholds(self, b, dones, g):
        self.cur = b
        for f in self.donefacts(b, dones, g):
            if not self.must(b, f[1]): return False
        return True
    def donecheck(self, b, dones, g, kind, pos):
        for name, e in self.donefacts(b, dones, g):
            self.oblige(b, 'func', kind, 'contents so far (%s)' % name, e, pos, assume=False)
    def donefacts(self, b, dones, g):
        for obj, ds in dones.items():
            if obj is None: continue
            c = b.mem.get(obj)
            if c is None: c = self.getobj(b, obj)
            for d in ds:
                env = self.env0.bind(self.con.progress[0], g)
                lo, hi = self.donerange(d, g, dones)
                if icmp('<', lo, hi) is False: continue
                k = fresh_int('sk_' + d[3])
                want = self.evl.ev(d[4], env.bind(d[3], k))
                have = c.rd(k)
                e = zi(have) == zi(want) if c.signed else zbv(have, c.w) == zbv(want, c.w)
                yield d[0], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), e)
