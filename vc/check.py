"""The check of one property:  check.py ID [--tier quick|thorough]

1. dump the current source of the repository (go/ssa) for the architectures concerned
2. discharge every obligation of every function under contract the property depends on,
   and of the lemmas that connect the contracts to the property
3. for what is not discharged: look for a failing input on the real code
Exit status 0 (all discharged) or 1 (a VIOLATION line)."""
import os, sys, json, time, tempfile, shutil, subprocess, hashlib, threading, signal
import concurrent.futures as cf
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
ROOT = os.path.dirname(HERE)
import driver, contract, cone, asm, prog as P
from props import PROPS, ARCH32, ARCH64, weight, slices

T0 = time.time()
def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Check:
    def __init__(self, pid, tier, seed, repo):
        self.pid, self.tier, self.seed, self.repo = pid, tier, seed, repo
        self.spec = PROPS[pid]
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.fails = []            # dict(kind=..., ...)
        self.results = []
        self.notes = []
        self.hashes = {}
        self.obls = []             # extra obligations (not from the verifier), rows
        self.budget = float(os.environ.get('VERIF_BUDGET', '480' if tier == 'quick' else '620'))

    def extra(self, fn, tag, kind, desc, ok, backend, pos='', arch='', detail=None):
        self.obls.append(dict(fn=fn, tag=tag, kind=kind, desc=desc, pos=pos, status='proved' if ok else 'failed', backend=backend, time=0.0, arch=arch, model=detail))
        return ok

    # ------------------------------------------------------------------ programs
    def dump_all(self, archs):
        exe = driver.build_frontend(self.tmp)
        out = {}
        with cf.ThreadPoolExecutor(4) as ex:
            fs = {a: ex.submit(self.dump, exe, a) for a in archs}
            for a, f in fs.items(): out[a] = f.result()
        return out
    def dump(self, exe, arch):
        f = os.path.join(self.tmp, 'ssa_%s%s.json' % (arch, '_' + os.path.basename(self.repo) if self.spec.get('trees') else ''))
        env = dict(driver.GOENV)
        r = subprocess.run([exe, '-dir', self.repo, '-arch', arch, '-roots', driver.PKGS, '-out', f], env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(f): return dict(error=['front end: ' + (r.stderr or r.stdout)[-1500:]], file=None)
        d = json.load(open(f))
        if d['errors']: return dict(error=d['errors'], file=None)
        h = hashlib.sha256(json.dumps([d['funcs'], d['types'], d['globals'], d['inits'], d.get('consts')], sort_keys=True).encode()).hexdigest()
        return dict(error=None, file=f, hash=h)

    # ------------------------------------------------------------------ verification
    def verify(self, jobs, ssa):
        """jobs: list of (which, key); discharge them in parallel"""
        tasks = []
        for which, key in jobs:
            n = slices(key)
            for i in range(n):
                tasks.append((weight(key) / n, (which, key, (i, n) if n > 1 else None, dict(tags=self.tags_of(key), budget=self.budget * 0.8, timeout=20000 if self.tier == 'quick' else 60000,
                              cross=0 if self.tier == 'quick' else 60))))
        tasks.sort(key=lambda t: -t[0])
        ctx = mp.get_context('spawn')
        import work
        cfg = dict(ssa=ssa, repo=self.repo, contracts=os.path.join(ROOT, 'contracts'))
        n = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, len(tasks)))
        ex = cf.ProcessPoolExecutor(n, mp_context=ctx, initializer=work.init, initargs=(cfg,))
        fut = {ex.submit(work.task, t): t for _, t in tasks}
        deadline = T0 + self.budget
        nbad = 0
        try:
            for f in cf.as_completed(fut, timeout=max(5, deadline - time.time())):
                t = fut[f]
                try: r = f.result()
                except Exception as e: r = dict(key=t[1], which=t[0], cases=t[2], obls=[], error='worker: %r' % e, time=0, solver=0, called=[], finished=0, vacuous=0, loops=[], queries=0, ncases=0, externs=[], inlined=[])
                self.results.append(r)
                bad = [o for o in r['obls'] if o['status'] != 'proved']
                log('%-34s %-6s %s obligations %d, open %d, %.1fs%s' % (r['key'] + ('[%d/%d]' % r['cases'] if r['cases'] else ''), r['which'][0] if r['which'] else '', 'ok  ' if not bad and not r['error'] else 'OPEN', len(r['obls']), len(bad), r['time'], ' ' + r['error'] if r['error'] else ''))
                if self.relevant_failures(r): nbad += 1
                if nbad >= 6: break        # decided; what is left is not needed
        except cf.TimeoutError:
            pass
        done = {(r['which'], r['key'], r['cases']) for r in self.results}
        self.unfinished = [t for _, t in tasks if (t[0], t[1], t[2]) not in done]
        if nbad < 6:
            for t in self.unfinished:
                self.results.append(dict(key=t[1], which=t[0], cases=t[2], obls=[], error='not finished within the time budget', time=0, solver=0, called=[], finished=0, vacuous=0, loops=[], queries=0, ncases=0, externs=[], inlined=[]))
        procs = list(ex._processes.values()) if ex._processes else []
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try: p.kill()
            except Exception: pass

    def tags_of(self, key):
        s = self.spec.get('fntags', {})
        for k, v in s.items():
            if k == key or k.endswith('*') and key.startswith(k[:-1]): return set(v)
        return set(self.spec['tags'])
    def relevant_failures(self, r):
        tags = self.tags_of(r['key'])
        out = [o for o in r['obls'] if o['status'] != 'proved' and (o['tag'] in tags or r['key'].startswith('@'))]
        if r['error'] and not out:
            out.append(dict(fn=r['key'], tag='undecided', kind='unsupported', desc=r['error'], pos='', status='unknown', backend='', time=0, arch=r['which'][0] if r['which'] else '', model=None))
        if not r['error'] and not out and not r['key'].startswith('@') and not r['cases'] and r['finished'] == 0 and not any(o['status'] != 'proved' for o in r['obls']):
            out.append(dict(fn=r['key'], tag='undecided', kind='vacuous', desc='no execution of the function reaches its end', pos='', status='unknown', backend='', time=0, arch='', model=None))
        return out

    def run(self):
        if self.spec.get('custom'): return self.spec['custom'](self)
        if not self.spec.get('trees'): return self.run_tree()
        trees = self.spec['trees'](self)
        for n, t in enumerate(trees):
            self.repo = driver.REPO = t
            bad = self.run_tree()
            if bad: return bad
        return bad

    def run_tree(self):
        s = self.spec
        archs = list(s.get('archs', ['amd64']))
        allarch = archs + [a for a in s.get('compile', []) if a not in archs]
        log('property %s (%s): dumping %s' % (self.pid, self.tier, ' '.join(allarch)))
        d = self.dump_all(allarch)
        ssa = {}
        for a in allarch:
            ok = d[a]['error'] is None
            if s.get('compile') or not ok:
                self.extra('build', 'compile', 'compile', 'all library packages compile for %s' % a, ok, 'go/types', arch=a, detail=None if ok else d[a]['error'])
        for a in s.get('compile', []):
            if d[a]['error']: continue
            rep = ARCH32[0] if a in ARCH32 else ARCH64[0]
            if a != rep and d[rep]['error'] is None:
                same = d[a]['hash'] == d[rep]['hash']
                if same: self.extra('build', 'compile', 'same', 'the program for %s is the one verified for %s' % (a, rep), True, 'comparison of the SSA form', arch=a)
                else: archs.append(a)       # verify it by itself
        for a in archs:
            if d[a]['error'] is None: ssa[(a, None)] = dict(file=d[a]['file'])
        if s.get('prepare'): s['prepare'](self, ssa)
        jobs = []
        self.keys = []
        contracts = contract.load(os.path.join(ROOT, 'contracts'))
        self.missing = []
        for which in list(ssa):
            try: pg = driver.Program(P.load(ssa[which]['file']), contracts)
            except Exception as e:
                self.obls.append(dict(fn='init', tag='undecided', kind='init', desc='package initialisation: %s' % e, pos='', status='unknown', backend='', time=0, arch=which[0], model=None))
                continue
            roots = s['roots'](pg) if callable(s['roots']) else s['roots']
            for k in roots:
                con = contracts[k]
                if con.arch and pg.prog.arch not in con.arch: continue
                if k not in pg.prog.bykey:
                    self.obls.append(dict(fn=k, tag='func', kind='missing', desc='the function %s exists' % k, pos='', status='failed', backend='', time=0, arch=which[0], model=None))
            ks = cone.cone(pg, roots) if s.get('cone', True) else [k for k in roots if cone.usable(pg, k)]
            if s.get('keyfilter'): ks = [k for k in ks if s['keyfilter'](k, pg)]
            for k in ks: jobs.append((which, k))
            self.keys += [(which[0] + ('+' + which[1] if which[1] else ''), k) for k in ks]
            if s.get('static'): s['static'](self, pg, which)
        base = (archs[0], None) if (archs[0], None) in ssa else None
        for l in s.get('lemmas', []): jobs.append((base, '@' + l))
        log('%d functions under contract, %d lemma groups' % (len(self.keys), len(s.get('lemmas', []))))
        self.verify(jobs, ssa)
        bad = []
        for r in self.results: bad += self.relevant_failures(r)
        tags = set(s['tags']) | {'compile', 'undecided', 'func'}
        bad += [o for o in self.obls if o['status'] != 'proved']
        return bad

    # ------------------------------------------------------------------ evidence
    def evidence(self, bad, violations):
        s = self.spec
        nob = ndis = 0
        backends = {}; cross = {}; solver = 0.0; perfn = {}; externs = set(); queries = 0; inl = set()
        for r in self.results:
            tags = self.tags_of(r['key'])
            solver += r['solver']; queries += r['queries']; externs |= set(r['externs']); inl |= set(r['inlined'])
            for o in r['obls']:
                if o['tag'] not in tags and not r['key'].startswith('@'): continue
                nob += 1
                k = (r['which'][0] if r['which'] else '-') + ' ' + r['key']
                f = perfn.setdefault(k, [0, 0])
                f[0] += 1
                if o['status'] == 'proved':
                    ndis += 1; f[1] += 1
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                if o.get('cross'): cross[o['cross']] = cross.get(o['cross'], 0) + 1
        for o in self.obls:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
        import trusted
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=s.get('level', 'proof'),
                  coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt vc/check.py %s --tier %s' % (self.pid, self.tier),
                                trusted_base=trusted.base(s, externs),
                                functions_under_contract={k: dict(obligations=v[0], discharged=v[1]) for k, v in sorted(perfn.items())},
                                inlined_functions=sorted(inl),
                                backends=backends, solver_seconds=round(solver, 2), solver_queries=queries,
                                bounded=s.get('bounded', []),
                                open_obligations=[dict(fn=o['fn'], kind=o['kind'], desc=o['desc'], pos=o['pos'], arch=o['arch']) for o in bad][:50]),
                  assumptions=trusted.assumptions(s, externs),
                  violations=len(violations), violation_details=violations, wall_s=round(time.time() - T0, 2))
        if self.tier != 'quick' and any(k.endswith('Asm') for k in perfn):
            import cputest
            ev['coverage']['instruction_semantics_compared_with_the_cpu'] = cputest.run(60, self.seed)
        if self.tier != 'quick' and not s.get('custom'):
            import gotest
            ev['coverage']['executor_semantics_compared_with_compiled_go'] = gotest.run(120, self.seed)
        if self.tier != 'quick': ev['coverage']['cvc5_answers_on_obligations_proved_by_z3'] = cross
        if s.get('evidence'): ev['coverage'].update(s['evidence'](self))
        ev['coverage'].update(getattr(self, 'more', {}))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        return ev

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--no-search', action='store_true')
    a = ap.parse_args()
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    driver.REPO = a.repo
    c = Check(a.pid, a.tier, seed, a.repo)
    try:
        bad = c.run()
        violations = []
        if bad:
            seen = set()
            for o in bad:
                k = (o['fn'], o['kind'], o['desc'], o['pos'], o['arch'])
                if k in seen: continue
                seen.add(k)
                if len(seen) <= 25: log('OPEN %s %s %s/%s: %s %s' % (o['arch'], o['status'], o['fn'], o['kind'], o['desc'], o['pos']))
            found = None
            if not a.no_search:
                import search
                found = search.search(c, bad)
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'replays', '%s.json' % a.pid)
            rep = dict(property=a.pid, failing_input=found, obligations=[{k: o[k] for k in ('fn', 'tag', 'kind', 'desc', 'pos', 'arch', 'status', 'model')} for o in bad][:60])
            json.dump(rep, open(path, 'w'), indent=1, default=str)
            violations = [dict(obligation='%s/%s/%s' % (bad[0]['fn'], bad[0]['kind'], bad[0]['desc']), replay=path, failing_input=found)]
            c.evidence(bad, violations)
            print('VIOLATION property=%s replay=%s%s' % (a.pid, path, '' if found else ' no-failing-input-found'), flush=True)
            code = 1
        else:
            ev = c.evidence(bad, [])
            log('%s holds: %d of %d obligations discharged' % (a.pid, ev['coverage']['discharged'], ev['coverage']['obligations']))
            code = 0
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

if __name__ == '__main__':
    main()
