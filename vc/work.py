"""Worker processes: each loads the dumped programs it needs and verifies slices of functions."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
CFG = {}
PGS = {}

def init(cfg):
    sys.setrecursionlimit(100000)
    import threading
    CFG.update(cfg)
    # a worker does not outlive its parent
    ppid = os.getppid()
    def watch():
        while True:
            time.sleep(2)
            if os.getppid() != ppid: os._exit(1)
    threading.Thread(target=watch, daemon=True).start()

def program(which):
    """which: (arch, asm override or None)"""
    if which not in PGS:
        import prog as P, contract, driver, asm
        arch, gen = which
        c = CFG['ssa'][which]
        pg = driver.Program(P.load(c['file']), contract.load(CFG['contracts']))
        asm.attach(pg, CFG['repo'], c.get('asm'))
        PGS[which] = pg
    return PGS[which]

def row(o):
    m = None
    if o.status != 'proved' and o.model:
        m = {k: v for k, v in list(o.model.items())[:60]}
    return dict(fn=o.fn, tag=o.tag, kind=o.kind, desc=o.desc, pos=o.pos, status=o.status, backend=o.backend, time=round(o.time, 4), arch=o.arch, model=m, cross=o.cross)

def task(t):
    which, key, cases, opts = t
    import driver
    t0 = time.time()
    try:
        if key.startswith('@'):
            import lemmas
            obls = lemmas.run(key[1:], program(which) if which else None, cases)
            return dict(key=key, which=which, cases=cases, obls=[row(o) for o in obls], error=None, time=time.time() - t0, solver=sum(o.time for o in obls),
                        called=[], finished=1, vacuous=0, loops=[], queries=len(obls), ncases=1, externs=[], inlined=[])
        r = driver.verify(program(which), key, opts, cases)
        return dict(key=key, which=which, cases=cases, obls=[row(o) for o in r.obls], error=r.error, tb=r.tb, time=time.time() - t0, solver=r.solver,
                    called=sorted(r.called), inlined=sorted(r.inlined), finished=r.finished, vacuous=r.vacuous, loops=[str(x)[:300] for x in r.loops],
                    queries=r.queries, ncases=r.cases, externs=sorted(r.externs))
    except Exception as e:
        return dict(key=key, which=which, cases=cases, obls=[], error='internal: %r' % e, tb=traceback.format_exc(), time=time.time() - t0, solver=0, called=[],
                    finished=0, vacuous=0, loops=[], queries=0, ncases=0, externs=[], inlined=[])
