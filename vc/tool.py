"""C20 and C21: the benchmark refresh tool.  Every obligation of main (vc/text.py: the rest of the README,
vc/content.py: what the section says) is discharged on the current source; what is not is looked for on the
real tool, run as an unprivileged user in a scratch directory."""
import os, re, sys, json, time, random, shutil, subprocess, threading
import concurrent.futures as cf
import driver

HERE = os.path.dirname(os.path.abspath(__file__))
START = b'## Benchmarks\n\n```text\n'
END = b'```\n'

def run(c, verifier='text.py'):
    exe = driver.build_frontend(c.tmp)
    out = os.path.join(c.tmp, 'ssa_tools.json')
    try: r = subprocess.run([exe, '-dir', c.repo, '-arch', 'amd64', '-roots', './tools', '-out', out], env=dict(driver.GOENV), capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired: r = None
    errs = None
    if r is None or r.returncode or not os.path.exists(out): errs = 'front end: ' + ((r.stderr or r.stdout)[-1500:] if r else 'timeout')
    else:
        d = json.load(open(out))
        if d['errors']: errs = d['errors']
    c.extra('build', 'compile', 'compile', 'the tool compiles', errs is None, 'go/types', arch='amd64', detail=errs)
    res = dict(key='tools.main', which=('amd64', None), cases=None, obls=[], error=None, time=0, solver=0, called=[], finished=0, vacuous=0, loops=[], queries=0, ncases=1, externs=[], inlined=[])
    if errs is None:
        t = time.time()
        f = os.path.join(c.tmp, 'tools_result.json')
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, verifier), out, '--json', f, '--timeout', '20000' if c.tier == 'quick' else '60000'], capture_output=True, text=True, timeout=c.budget * 0.7)
            if os.path.exists(f): v = json.load(open(f))
            else: v = dict(obls=[], errors=['the verifier ended with status %d: %s' % (r.returncode, r.stderr[-500:])], finished=0, solver=0, queries=0, externs=[], inlined=[], cut=0)
        except subprocess.TimeoutExpired:
            v = dict(obls=[], errors=['not finished within the time budget'], finished=0, solver=0, queries=0, externs=[], inlined=[], cut=0)
        for o in v['obls']: o['fn'] = 'tools.main'; o['arch'] = 'amd64'
        e = '; '.join(v['errors'])
        if e and any(o['status'] != 'proved' for o in v['obls']): e = e if 'PathLimit' not in e else None
        res.update(obls=v['obls'], error=e or None, time=time.time() - t, solver=v['solver'], finished=v['finished'], queries=v['queries'], externs=v['externs'], inlined=v['inlined'], loops=[str(v['cut'])])
        c.more = dict(paths_to_the_end=v['finished'], loops_cut=v['cut'])
        print('   tools.main: obligations %d, open %d, %d paths reach the end, %.1fs %s' % (len(v['obls']), sum(o['status'] != 'proved' for o in v['obls']), v['finished'], time.time() - t, e), flush=True)
    c.results.append(res)
    bad = []
    for r in c.results: bad += c.relevant_failures(r)
    bad += [o for o in c.obls if o['status'] != 'proved']
    return bad

# ------------------------------------------------------------------ failing inputs
def literals(repo):
    out = set()
    for dp, dn, fn in os.walk(os.path.join(repo, 'tools')):
        for f in fn:
            if not f.endswith('.go'): continue
            s = open(os.path.join(dp, f), errors='replace').read()
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                try: out.add(json.loads('"%s"' % m.group(1)).encode('utf-8', 'replace'))
                except ValueError: pass
            for m in re.finditer(r'`([^`]*)`', s): out.add(m.group(1).encode())
            for m in re.finditer(r"'(.|\\n|\\t|\\r)'", s): out.add({'\\n': b'\n', '\\t': b'\t', '\\r': b'\r'}.get(m.group(1), m.group(1).encode('utf-8', 'replace')))
    return sorted(x for x in out if x and b'.' not in x[:0] and len(x) < 200)

def numbers(repo):
    out = set()
    for dp, dn, fn in os.walk(os.path.join(repo, 'tools')):
        for f in fn:
            if f.endswith('.go'):
                for m in re.finditer(r'\b(0x[0-9a-fA-F]+|\d+)\b', open(os.path.join(dp, f), errors='replace').read()):
                    try: n = int(m.group(1), 0)
                    except ValueError: continue
                    if 4 <= n <= 1 << 20: out.add(n)
                for m in re.finditer(r'\b(\d+)\s*<<\s*(\d+)\b', open(os.path.join(dp, f), errors='replace').read()):
                    n = int(m.group(1)) << min(int(m.group(2)), 40)
                    if n <= 1 << 21: out.add(n)
    return sorted(out)

WORDS = [b'goos: linux\n', b'goarch: amd64\n', b'pkg: x\n', b'cpu: y\n', b'BenchmarkA-8   \t 100\t 12.3 ns/op\n', b'--\n', b'PASS\n', b'ok  \tx\t1.2s\n', b'\n', b'text ', b'# Title\n',
         b'## Benchmarks\n', b'## Benchmarks', b'```go\nx := 1\n```\n', b'```text\nplain\n```\n', b'```\n', b'```', b'\n\n', b'\r\n', b'\xff\xfe', b'\xc3\xa9', b'\x00', b'`', b'## License\n\nMIT\n', b'%s %d\n', b'\t']

def text(rng, lits, n):
    out = b''
    for _ in range(n):
        k = rng.random()
        if k < 0.6: out += rng.choice(WORDS)
        elif k < 0.75 and lits: out += rng.choice(lits) + rng.choice([b'', b'\n', b' '])
        elif k < 0.9: out += bytes(rng.choice(b'abc `#\n') for _ in range(rng.randrange(1, 30)))
        else: out += b'x' * rng.choice([1, 10, 100]) + b'\n'
    return out

def sized(rng, b, nums):
    """a text of an interesting length"""
    k = rng.choice(nums + [512, 848, 1280, 1792, 2560, 4096]) + rng.randrange(-2, 3)
    return (b + b'.' * max(0, k - len(b)))[:max(0, k)] if rng.random() < 0.8 else b

def case(rng, lits, nums):
    pre = text(rng, lits, rng.choice([0, 1, 3, 8, 20]))
    if rng.random() < 0.3: pre = sized(rng, pre, nums)
    pre = pre.replace(START, b'-')
    sec = text(rng, lits, rng.choice([0, 1, 3, 8, 20])).replace(b'`', b"'")
    if rng.random() < 0.3: sec += b'y' * rng.choice([100, 1000, 5000] + nums)
    if sec and rng.random() < 0.9: sec = b'@old@' + sec + b'@old@\n'
    post = text(rng, lits, rng.choice([0, 1, 3, 8, 20, 60]))
    k = rng.random()
    if k < 0.2: post += START + b'again\n' + END + b'tail\n'
    elif k < 0.4: post = sized(rng, post, nums)
    elif k < 0.5: post += b'no newline'
    readme = pre + START + sec + END + post
    k = rng.random()
    if k < 0.15: inp = b''
    elif k < 0.5:
        inp = b''
        for _ in range(rng.randrange(1, 5)):
            inp += b'goos: linux\ngoarch: amd64\npkg: p%d\ncpu: c\n' % rng.randrange(9)
            for _ in range(rng.randrange(0, 12)): inp += b'Benchmark%c/%d-8 \t %d\t %d ns/op\n' % (65 + rng.randrange(26), rng.randrange(99), rng.randrange(10 ** 6), rng.randrange(10 ** 6))
            inp += b'PASS\nok  \tp\t1.0s\n'
    else: inp = text(rng, lits, rng.choice([1, 3, 10, 40, 200]))
    if rng.random() < 0.05: inp += b'Benchmark' + b'z' * 70000 + b'\n' + b'goos: x\n'
    if rng.random() < 0.1: inp = inp.rstrip(b'\n')
    return readme, inp.replace(b'@old@', b''), rng.random() < 0.5

def keeps(readme, inp, w, rc, out, after):
    s = readme.find(START); e = readme.find(END, s + len(START))
    a = s + len(START); tail = readme[e:]
    toolong = any(len(l) >= 64 * 1024 - 1 for l in inp.split(b'\n'))
    if toolong and after == readme and (rc != 0 or not out or w): return None
    if rc != 0: return 'the tool ends with status %s although the section is there' % rc
    got = after if w else out
    if not w and after != readme: return 'README.md changed without -w'
    if len(got) < a + len(tail): return 'text is missing: %d bytes, at least %d are to be kept' % (len(got), a + len(tail))
    if got[:a] != readme[:a]: return 'the text before the section changed'
    if not got.endswith(tail): return 'the text after the section changed'
    mid = got[a:len(got) - len(tail)]
    if mid and not mid.endswith(b'\n'): return 'the closing fence does not start a line'
    if b'@old@' in mid: return 'the old benchmarks are still there'
    return None

SELECTED = (b'goos', b'goarch', b'pkg', b'cpu', b'Benchmark')
def block(inp):
    """the text of the section for a benchmark output"""
    lines = inp.split(b'\n')
    if not lines[-1]: lines.pop()
    out, has = b'', False
    for l in lines:
        if l.endswith(b'\r'): l = l[:-1]
        if not l.startswith(SELECTED): continue
        if l.startswith(b'Benchmark'): out += l[len(b'Benchmark'):] + b'\n'; has = True
        elif l.startswith(b'goos') and has: out += b'\n' + l + b'\n'
        elif l.startswith(b'cpu'): out += l + b'\n--\n'
        else: out += l + b'\n'
    return out
def says(readme, inp, w, rc, out, after):
    """C21"""
    if any(len(l) >= 64 * 1024 - 2 for l in inp.split(b'\n')): return None
    a = readme.find(START) + len(START)
    if rc != 0: return 'the tool ends with status %s although the section is there' % rc
    got = (after if w else out)[a:]
    want = block(inp)
    if want and got.startswith(want + END) or not want and got.startswith((END, b'\n' + END)): return None
    return 'the section does not say what the benchmark output says: %r expected, it continues %r' % (want[:2000], got[:2000])

def search(c, b, bad, judge=None):
    judge = judge or keeps
    tool = os.path.join(c.tmp, 'tool')
    r = subprocess.run(['go', 'build', '-o', tool, './tools'], cwd=c.repo, env=dict(driver.GOENV, CGO_ENABLED='0'), capture_output=True, text=True)
    if r.returncode: return None
    os.chmod(c.tmp, 0o755); os.chmod(tool, 0o755)
    lits, nums = literals(c.repo), numbers(c.repo)
    deadline = time.time() + (45 if c.tier == 'quick' else 120)
    found = []
    def loop(n):
        rng = random.Random(c.seed * 1000 + n)
        home = os.path.join(c.tmp, 'home%d' % n); os.makedirs(home)
        os.chown(home, 65534, 65534)
        f = os.path.join(home, 'README.md')
        while time.time() < deadline and not found:
            readme, inp, w = case(rng, lits, nums)
            for x in os.listdir(home): os.remove(os.path.join(home, x))
            with open(f, 'wb') as h: h.write(readme)
            os.chown(f, 65534, 65534)
            try:
                p = subprocess.run([tool] + (['-w'] if w else []), input=inp, cwd=home, env=dict(SBYTE_HOME=home, HOME=home, TMPDIR=home, PATH=os.environ.get('PATH', '')), capture_output=True, timeout=20, user=65534, group=65534, extra_groups=[])
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired: rc, out, err = 'timeout', b'', b''
            except (OSError, subprocess.SubprocessError): return
            try: after = open(f, 'rb').read()
            except OSError: after = b''
            what = judge(readme, inp, w, rc, out, after)
            if what:
                found.append(dict(what=what, func='tools.main', command='SBYTE_HOME=<dir with README.md> tools %s < input' % ('-w' if w else ''), readme=readme.decode('latin-1'), input=inp[:4000].decode('latin-1'), status=rc, stdout=out[:4000].decode('latin-1'), readme_after=after[:8000].decode('latin-1'), stderr=err[-500:].decode('latin-1')))
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(loop, range(8)))
    return min(found, key=lambda d: len(d['readme']) + len(d['input'])) if found else None
