"""Loading the program, executing its initialisers, verifying functions."""
import os, sys, json, time, subprocess, traceback, tempfile, hashlib
import z3
from val import *
import prog as P
import contract
from sym import *
from exec2 import Verifier, PathLimit, Kill
import spec as S

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
GOENV = dict(os.environ, GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOFLAGS='')
PKGS = './pkg/encode,./pkg/decode,./pkg/shared,./pkg/util,./pkg/stream/reader,./pkg/stream/writer'

def build_frontend(outdir):
    exe = os.path.join(outdir, 'frontend')
    env = dict(GOENV, GOFLAGS='-mod=mod')
    r = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=os.path.join(ROOT, 'frontend'), env=env, capture_output=True, text=True)
    if r.returncode: raise RuntimeError('frontend does not build: ' + r.stderr)
    return exe

def dump(exe, outdir, arch, repo=None, roots=PKGS):
    out = os.path.join(outdir, 'ssa_%s.json' % arch)
    r = subprocess.run([exe, '-dir', repo or REPO, '-arch', arch, '-roots', roots, '-out', out], env=GOENV, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError('frontend failed: ' + r.stderr[-2000:])
    return P.load(out)

def run_inits(prog):
    """execute the package initialisers of the repository under symbolic CPU features:
    the possible states of the package variables after start-up"""
    ex = Verifier(prog, {}, 'init', None, {})
    ex.initmode = True
    states = [(State(), [])]
    for pn, pkg in enumerate(prog.inits):
        fn = prog.funcs.get(pkg + '.init')
        if fn is None or not fn.blocks: continue
        nxt = []
        for s0, _ in states:
            st = s0.copy()
            st.frames = [Frame(fn)]
            ex.results = []
            ex.objn = INITBASE + (pn + 1) * 100000
            ex.fn = fn
            ex.run([st])
            for s, _ in ex.results: nxt.append((s, None))
        states = nxt
        if not states: raise Unsupported('initialisation of %s does not finish' % pkg)
    return [(s.trace, s.mem) for s, _ in states], ex

def same(a, b):
    if a is b: return True
    if isinstance(a, FuncRef) and isinstance(b, FuncRef): return a.name == b.name and a.binds == b.binds
    if isinstance(a, (int, str, bool)) and type(a) == type(b): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.path == b.path
    if isinstance(a, Slice) and isinstance(b, Slice): return a.obj == b.obj and isc(a.len) and isc(b.len) and a.len == b.len and a.base == b.base
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        if len(a.layers) == len(b.layers) == 1 and isinstance(a.layers[0], dict) and isinstance(b.layers[0], dict): return a.layers[0] == b.layers[0]
        return not a.layers and not b.layers
    if isinstance(a, Agg) and isinstance(b, Agg): return len(a.c) == len(b.c) and all(same(x, y) for x, y in zip(a.c, b.c))
    return a is None and b is None

class Program:
    """one architecture: SSA, contracts, initial states"""
    def __init__(self, prog, contracts):
        self.prog = prog; self.contracts = contracts
        self.variants, self.initex = run_inits(prog)
        keys = set()
        for tr, mem in self.variants: keys |= set(mem)
        self.varglob = set()
        m0 = self.variants[0][1]
        for k in keys:
            for tr, mem in self.variants[1:]:
                if k not in mem or k not in m0 or not same(m0[k], mem[k]): self.varglob.add(k)
        self.features = {}

class Result:
    def __init__(self, key, arch):
        self.key = key; self.arch = arch
        self.obls = []; self.error = None; self.time = 0.0; self.cases = 0; self.paths = 0
        self.called = set(); self.externs = set(); self.inlined = set(); self.loops = []; self.finished = 0; self.vacuous = 0; self.solver = 0.0; self.queries = 0
        self.variants = 0; self.tb = ''
        self.body = ''

def splitsets(con):
    sets = [[]]
    for e, vals in con.split:
        nums = [v for v in vals if v != 'else']
        out = []
        for s in sets:
            for v in vals:
                out.append(s + [(e, ('else', nums) if v == 'else' else v)])
        sets = out
    return sets

def verify(pg, key, opts=None, cases=None):
    """verify one function against its contract; cases: slice (i, n) of the case split"""
    opts = dict(opts or {})
    prog = pg.prog
    res = Result(key, prog.arch)
    con = pg.contracts.get(key)
    fn = prog.bykey.get(key)
    t0 = time.time()
    if con is None or fn is None or (con.arch and prog.arch not in con.arch):
        res.error = 'function not found' if fn is None else 'no contract'
        return res
    opts['features'] = pg.features
    # first without any assumption on the start-up state; if the function reads a variable that
    # differs between the start-up states, once for each of them
    runs = [(0, [], pg.variants[0][1])]
    first = True
    while runs:
        vn, tr, mem = runs.pop(0)
        reset_names()
        o = dict(opts)
        o['variant_trace'] = tr
        cons = {k: c for k, c in pg.contracts.items() if k != key}
        if con.level == 'asm':
            import asm
            ex = asm.AsmVerifier(prog, cons, key, con, mem, o, getattr(pg, 'asm', {}).get(key.split('.')[0]))
        else: ex = Verifier(prog, cons, key, con, mem, o)
        ex.variant = vn
        try:
            ss = splitsets(con)
            if cases: ss = ss[cases[0]::cases[1]]
            n = ex.verify(fn, ss)
            res.cases += n
        except (Unsupported, PathLimit) as e:
            res.error = '%s: %s' % (type(e).__name__, e)
            res.tb = traceback.format_exc()
        except Dead:
            pass
        except RecursionError as e:
            res.error = 'recursion limit'
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, z3.Z3Exception) as e:
            res.error = 'internal: %r' % e
            res.tb = traceback.format_exc()
        if first and len(pg.variants) > 1 and ex.readglob & pg.varglob:
            first = False
            res.error = None; res.tb = ''; res.cases = 0
            runs = [(n, t, m) for n, (t, m) in enumerate(pg.variants)]
            continue
        first = False
        for ob in ex.obls: ob.variant = vn; ob.arch = prog.arch
        res.obls += ex.obls; res.paths += ex.paths; res.called |= ex.called; res.inlined |= ex.inlined; res.externs |= ex.externs
        res.loops += ex.loopinfo; res.solver += ex.ps.time; res.queries += ex.ps.queries
        res.finished += getattr(ex, 'nfinished', 0); res.vacuous += getattr(ex, 'vacuous', 0)
        res.variants += 1
        if res.error: break
    res.time = time.time() - t0
    return res

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--arch', default='amd64')
    ap.add_argument('--ssa')
    ap.add_argument('--repo', default=REPO)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('funcs', nargs='*')
    a = ap.parse_args()
    sys.setrecursionlimit(100000)
    if a.ssa: prog = P.load(a.ssa)
    else:
        d = tempfile.mkdtemp(prefix='vc')
        exe = os.path.join(ROOT, 'build', 'frontend')
        os.makedirs(ROOT + '/build', exist_ok=True)
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(os.path.join(ROOT, 'frontend', 'main.go')): exe = build_frontend(ROOT + '/build')
        prog = dump(exe, d, a.arch, a.repo)
    t0 = time.time()
    pg = Program(prog, contract.load(os.path.join(ROOT, 'contracts')))
    print('init: %d variants, %.1fs, differing: %s' % (len(pg.variants), time.time() - t0, sorted(str(k[1]) for k in pg.varglob)))
    try:
        import asm
        asm.attach(pg, a.repo)
    except ImportError: pass
    for f in a.funcs:
        r = verify(pg, f)
        bad = [o for o in r.obls if o.status != 'proved']
        print('%-32s %s fin=%d vac=%d obl=%d bad=%d paths=%d cases=%d variants=%d %.1fs (solver %.1fs, %d queries) %s' % (f, 'OK' if not bad and not r.error else 'FAIL', r.finished, r.vacuous, len(r.obls), len(bad), r.paths, r.cases, r.variants, r.time, r.solver, r.queries, r.error or ''))
        if r.tb and a.v: print(r.tb)
        if a.v:
            for l in r.loops: print('   loop', l)
        if a.v:
            for o in sorted(r.obls, key=lambda o: -o.time)[:8]:
                if o.time > 1: print('   slow %.1fs %s %s %s %s %s' % (o.time, o.backend, o.tag, o.kind, o.desc, o.pos))
        seen = set()
        for o in bad:
            k = (o.tag, o.desc, o.pos)
            if k in seen: continue
            seen.add(k)
            print('   ', o.status, o.tag, o.kind, o.desc, o.pos, dict(list((o.model or {}).items())[:6]) if a.v else '')
