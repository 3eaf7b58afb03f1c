"""A failed obligation: look for a failing input on the real code, built from the
repository's current source.  Nothing here decides a property."""
import os, re, json, time, subprocess, glob
import driver, asm
from contract import load as load_contracts

HERE = os.path.dirname(os.path.abspath(__file__))
RP = os.path.join(os.path.dirname(HERE), 'replay')
GENV = dict(driver.GOENV)
ALLMODES = {'func', 'size', 'num', 'panic', 'mem', 'frame', 'fresh', 'term'}

def log(*a):
    import check as C
    print('   search:', *a, flush=True)

class Build:
    def __init__(self, c):
        self.c = c; self.n = 0; self.cache = {}
    def overlay(self, extra=None):
        repo = self.c.repo
        rep = {os.path.join(repo, 'zz_verif_replay', os.path.basename(f)): f for f in glob.glob(os.path.join(RP, '*.go')) if not os.path.basename(f).startswith(('guard_', 'opt_'))}
        rep.update(extra or {})
        return rep
    def build(self, name, arch='amd64', extra=None, race=False):
        """the harness; registrations that do not compile (a function is gone or has another
        type) are dropped"""
        k = (name, arch, race)
        if k in self.cache: return self.cache[k]
        self.n += 1
        d = os.path.join(self.c.tmp, 'rp%d' % self.n); os.makedirs(d)
        rep = self.overlay(extra)
        out = os.path.join(d, 'replay')
        exe = None; err = ''
        for attempt in range(6):
            ov = os.path.join(d, 'ov.json'); json.dump({'Replace': rep}, open(ov, 'w'))
            env = dict(GENV, GOARCH=arch, GOFLAGS='')
            env['CGO_ENABLED'] = '1' if race else '0'
            r = subprocess.run(['go', 'build', '-overlay', ov] + (['-race'] if race else []) + ['-o', out, './zz_verif_replay'], cwd=self.c.repo, env=env, capture_output=True, text=True)
            if r.returncode == 0: exe = out; break
            err = r.stdout + r.stderr
            hit = {}
            for m in re.finditer(r'zz_verif_replay/(\w+\.go):(\d+):', err): hit.setdefault(m.group(1), set()).add(int(m.group(2)))
            changed = False
            for f, ls in hit.items():
                key = os.path.join(self.c.repo, 'zz_verif_replay', f)
                src = open(rep[key]).read().split('\n')
                for l in ls:
                    i = l - 1
                    while i >= 0 and not src[i].startswith('\tadd('): i -= 1
                    if i < 0: continue
                    j = i
                    if src[i].rstrip().endswith('{'):
                        while not src[j].startswith('\t})'): j += 1
                    for t in range(i, j + 1): src[t] = ''
                    changed = True
                # imports no longer used
                for m in re.finditer(re.escape(f) + r':(\d+):\d+: "[^"]*" imported and not used', err):
                    src[int(m.group(1)) - 1] = ''; changed = True
                p = os.path.join(d, '%d_%s' % (attempt, f)); open(p, 'w').write('\n'.join(src))
                rep[key] = p
            if not changed: break
        if exe is None: log('the harness does not build for %s: %s' % (arch, err.strip()[-600:]))
        self.cache[k] = exe
        self.err = err
        return exe

    def run(self, exe, funcs, modes, secs, seed, hints=None, env=None, flags=(), par=8):
        e = dict(os.environ); e.update(env or {})
        cmd = [exe, '-funcs', ','.join(funcs), '-modes', ','.join(sorted(modes)), '-time', str(secs), '-seed', str(seed), '-par', str(par)] + list(flags)
        if hints: cmd += ['-hints', hints]
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=secs + 60, errors='replace')
        except subprocess.TimeoutExpired:
            return dict(what='the harness did not finish', crash=True) if 'term' in modes else None
        line = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
        if r.returncode == 3:
            try: f = json.loads(line)
            except ValueError: f = dict(raw=line[:2000])
            f['command'] = ' '.join('%s=%s' % x for x in (env or {}).items()) + ' replay -funcs %s' % ','.join(funcs)
            return f
        if r.returncode == 0: return None
        if r.returncode == 66: return dict(what='data race', output=r.stderr[-3000:], mode='race')
        # a crash the harness could not turn into a finding
        tail = r.stderr[:3000]
        return dict(what='crash (exit status %d)' % r.returncode, output=tail, crash=True, funcs=funcs, env=env or {})

# ------------------------------------------------------------------ hints
def consts_of(x, out):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == 'c' and isinstance(x[2], str):
            try: out.add(int(x[2]))
            except ValueError: pass
            return
        for y in x: consts_of(y, out)
    elif isinstance(x, dict):
        for y in x.values(): consts_of(y, out)

def hints(c, bad):
    out = set()
    for f in glob.glob(os.path.join(c.tmp, 'ssa_*.json')):
        try: d = json.load(open(f))
        except (ValueError, OSError): continue
        for n, fn in (d.get('funcs') or {}).items():
            if 'simdgo' in n and not n.endswith('.init'): consts_of(fn.get('blocks'), out)
        break
    for f in glob.glob(os.path.join(c.repo, 'pkg', '*', '*.s')):
        for m in re.finditer(r'\$(-?0x[0-9a-fA-F]+|-?\d+)\b', open(f).read()): out.add(int(m.group(1), 0))
    for o in bad:
        for v in (o.get('model') or {}).values() if isinstance(o.get('model'), dict) else []:
            try: out.add(int(v))
            except (TypeError, ValueError): pass
    extra = set()
    for k in out:
        if abs(k) < 1 << 34: extra |= {k, k + 1, k - 1}
    out = [k for k in extra if k not in (0, 1, 2, 3, 4, 8, -1)]
    p = os.path.join(c.tmp, 'hints.json')
    json.dump(dict(Consts=sorted(out)[:4000]), open(p, 'w'))
    return p

def modes_of(tags):
    m = set(tags) & ALLMODES
    if m & {'num', 'panic', 'mem'}: m.add('panic')
    if 'num' in tags: m.add('size')
    return m

# ------------------------------------------------------------------ overlays
def strip_bodyless(src):
    return re.sub(r'(?m)^func (\w+Asm)\((?=[^{]*?\)[ \w()]*$)', r'func zz\1(', src)

def guard_overlay(c):
    """the assembly functions behind wrappers that check their memory precondition"""
    rep = {}; d = os.path.join(c.tmp, 'guard'); os.makedirs(d, exist_ok=True)
    for pk in ('encode', 'decode'):
        base = os.path.join(c.repo, 'pkg', pk)
        names = set()
        for f in glob.glob(os.path.join(base, '*_amd64.go')):
            s = open(f).read()
            t = re.sub(r'(?ms)^func (\w+FastAsm)\(([^{}]*?)\)([ \w]*|\s*\([^{}()]*\)[ ]*)\n', lambda m: names.add(m.group(1)) or 'func zz%s(%s)%s\n' % m.groups(), s)
            if t != s:
                p = os.path.join(d, pk + '_' + os.path.basename(f)); open(p, 'w').write(t); rep[f] = p
        for f in glob.glob(os.path.join(base, '*.s')):
            s = open(f).read()
            t = re.sub(r'·(\w+FastAsm)\(SB\)', lambda m: '·zz%s(SB)' % m.group(1) if m.group(1) in names else m.group(0), s)
            p = os.path.join(d, pk + '_' + os.path.basename(f)); open(p, 'w').write(t); rep[f] = p
        rep[os.path.join(base, 'zz_guard_amd64.go')] = os.path.join(RP, 'guard_%s.go' % pk)
    return rep

def undef_overlay(c, feature):
    """assembly that needs a CPU feature starts with an illegal instruction"""
    rep = {}; d = os.path.join(c.tmp, 'undef_' + feature); os.makedirs(d, exist_ok=True)
    for pk in ('encode', 'decode'):
        p = asm.load_pkg(c.repo, 'pkg/' + pk)
        if feature not in p.features: continue
        need = {n for n, (ins, _, _) in p.fns.items() if any(i.op != ':' and feature in asm.features_of(i) for i in ins)}
        for f in p.files:
            t = re.sub(r'(?m)^(TEXT\s+·(\w+)(?:<>)?\(SB\).*)$', lambda m: m.group(1) + ('\n\tUNDEF' if m.group(2) in need else ''), open(f).read())
            o = os.path.join(d, pk + '_' + os.path.basename(f)); open(o, 'w').write(t); rep[f] = o
    return rep

FLAG = {'HasAVX': 'avx', 'HasAVX2': 'avx2', 'HasSSE41': 'sse41', 'HasSSE42': 'sse42', 'HasSSSE3': 'ssse3', 'HasSSE3': 'sse3', 'HasBMI1': 'bmi1', 'HasBMI2': 'bmi2', 'HasFMA': 'fma',
        'HasPOPCNT': 'popcnt', 'HasAVX512F': 'avx512f', 'HasAVX512BW': 'avx512bw', 'HasAVX512VL': 'avx512vl', 'HasAVX512VBMI': 'avx512vbmi'}
OFF = ['', 'cpu.avx2=off', 'cpu.avx=off', 'cpu.avx=off,cpu.avx2=off']

def rand_overlay(c):
    """the utilities with a scripted random source"""
    rep = {os.path.join(c.repo, 'zz_verif_replay', 'opt_rand.go'): os.path.join(RP, 'opt_rand.go'),
           os.path.join(c.repo, 'zz_verif_rand', 'rand.go'): os.path.join(RP, 'rand', 'rand.go')}
    d = os.path.join(c.tmp, 'rand'); os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(c.repo, 'pkg', 'util', '*.go')):
        if f.endswith('_test.go'): continue
        s = open(f).read()
        t = re.sub(r'"math/rand"', '"github.com/theMPatel/streamvbyte-simdgo/zz_verif_rand"', s)
        if t != s:
            p = os.path.join(d, os.path.basename(f)); open(p, 'w').write(t); rep[f] = p
    return rep

def rand_search(c, b, bad):
    exe = b.build('rand', extra=rand_overlay(c))
    if not exe: return None
    return b.run(exe, ['util.RandUint32'], {'func', 'panic'}, 3, c.seed, hints(c, bad), par=1)

def cpu_search(c, b):
    import props
    feats = set()
    for pk in ('encode', 'decode'):
        try: feats |= asm.load_pkg(c.repo, 'pkg/' + pk).features
        except Exception: pass
    for f in sorted(feats):
        flag = FLAG.get(f)
        if not flag: continue
        exe = b.build('undef_' + f, extra=undef_overlay(c, f))
        if not exe: continue
        env = dict(GODEBUG='cpu.%s=off' % flag)
        for fn in props.GENERAL:
            r = b.run(exe, [fn], {'func', 'size', 'panic', 'frame'}, 0.6, c.seed, env=env, par=2)
            if r:
                if r.get('crash') and 'SIGILL' in r.get('output', ''): r['what'] = '%s executes instructions that need %s although the CPU does not report it' % (fn, flag)
                r['cpu'] = env['GODEBUG']
                return r
        exe2 = b.build('plain')
        if exe2:
            r = b.run(exe2, ['mode'], {'func'}, 0.1, c.seed, env=env, par=1, flags=['-needs', ','.join(pk for pk in ('encode', 'decode') if f in asm.load_pkg(c.repo, 'pkg/' + pk).features)])
            if r: return r
    return None

def compile_search(c, bad):
    for o in bad:
        if o['tag'] == 'compile':
            r = subprocess.run(['go', 'build', './pkg/encode', './pkg/decode', './pkg/shared', './pkg/util', './pkg/stream/...'], cwd=c.repo, env=dict(GENV, GOARCH=o['arch'], CGO_ENABLED='0'), capture_output=True, text=True)
            if r.returncode: return dict(what='GOARCH=%s go build fails' % o['arch'], output=(r.stdout + r.stderr)[-3000:])
    return None

def search(c, bad):
    s = c.spec
    b = Build(c)
    c.builder = b
    deadline = time.time() + float(os.environ.get('VERIF_SEARCH', '170'))
    left = lambda: deadline - time.time()
    try:
        if s.get('search'):
            r = s['search'](c, b, bad)
            if r or s.get('search_only'): return r
        r = compile_search(c, bad)
        if r: return r
        roots = list(s.get('searchroots') or (s['roots'] if not callable(s['roots']) else []))
        if not roots: return None
        tags = s.get('searchtags') or s['tags']
        modes = modes_of(tags)
        h = hints(c, bad)
        archs = {o['arch'] for o in bad if o.get('arch')} or {'amd64'}
        if 'cpu' in s['tags']:
            if 'amd64' in archs or 'amd64' in s.get('archs', ['amd64']):
                r = cpu_search(c, b)
                if r: return r
        specarchs = s.get('archs', ['amd64'])
        plans = []        # (exe, env, share, flags)
        if 'amd64' in specarchs:
            exe = b.build('plain')
            if exe:
                plans += [(exe, {}, 0.4, [])]
                if s.get('tables') or any(k in GENERALSET() for k in roots): plans += [(exe, dict(GODEBUG='cpu.avx2=off'), 0.15, []), (exe, dict(GODEBUG='cpu.avx=off,cpu.avx2=off'), 0.15, [])]
            if modes & {'mem'}:
                g = b.build('guard', extra=guard_overlay(c))
                if g: plans.insert(0, (g, {}, 0.3, []))
            if 'fresh' in modes:
                rc = b.build('race', race=True)
                if rc: plans.append((rc, dict(GORACE='exitcode=66 halt_on_error=1'), 0.25, ['-concurrent']))
        if '386' in specarchs or any(a in ('386',) for a in archs):
            exe = b.build('plain386', '386')
            if exe: plans.append((exe, {}, 0.5, []))
        # the functions of the open obligations first, if they are roots
        openf = [k for k in roots if any(o['fn'] == k for o in bad)]
        total = max(20, left())
        short = 8
        for exe, env, share, flags in plans:
            if openf and len(openf) < len(roots):
                r = b.run(exe, openf, modes, short, c.seed, h, env, flags)
                if r: return r
            r = b.run(exe, roots + (['tables'] if s.get('tables') else []), modes, short, c.seed + 7, h, env, flags)
            if r: return r
        for exe, env, share, flags in plans:
            if left() < 5: break
            for fs in ([openf] if openf else []) + [roots]:
                t = min(left(), max(5, total * share / 2))
                if t < 3: break
                r = b.run(exe, fs, modes, t, c.seed + 100, h, env, flags)
                if r: return r
        # a broken helper the roots did not show: reported as a note only
        helpers = sorted({o['fn'] for o in bad} - set(roots))
        exe = b.build('plain')
        if helpers and exe:
            r = b.run(exe, helpers, modes, 8, c.seed, h)
            if r: c.helper = r
        return None
    except (OSError, subprocess.SubprocessError) as e:
        log('search failed: %r' % e)
        return None

def GENERALSET():
    import props
    return set(props.GENERAL)
