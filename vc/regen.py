"""C14: the generators are run, as the go:generate directives of the working tree say, on a copy of it;
the regenerated tree is what is verified."""
import os, re, shutil, subprocess, glob
import driver

PK = ['pkg/encode', 'pkg/decode', 'pkg/shared']
MARK = 'left over from before the generators ran'

def copy(repo, dst):
    shutil.copytree(repo, dst, symlinks=True, ignore=lambda d, names: [n for n in names if n == '.git'])

def outputs(root):
    """the files that hold generated code: the assembly, and Go files marked as generated"""
    out = []
    for p in PK:
        for f in sorted(glob.glob(os.path.join(root, p, '*'))):
            if f.endswith('.s'): out.append(f)
            elif f.endswith('.go') and not f.endswith('_test.go'):
                head = open(f, errors='replace').read(2000)
                if re.search(r'(?m)^// Code generated .* DO NOT EDIT\.$', head) and not re.search(r'(?m)^// Code generated by (command: .*avo|stringer|mockgen)', head): out.append(f)
    return out

def directives(root):
    out = []
    for dp, dn, fn in os.walk(root):
        for f in fn:
            if not f.endswith('.go'): continue
            for m in re.finditer(r'(?m)^//go:generate[ \t]+(.*)$', open(os.path.join(dp, f), errors='replace').read()): out.append((dp, m.group(1).strip()))
    return out

def run(c):
    env = dict(driver.GOENV, CGO_ENABLED='0')
    gen = os.path.join(c.tmp, 'gen')
    copy(c.repo, gen)
    c.committed = c.repo
    rel = lambda f: os.path.relpath(f, gen)
    before = outputs(gen)
    # whatever the outputs held before must be gone afterwards
    for f in before:
        with open(f, 'a') as h: h.write('\n// %s\n' % MARK * 3)
    try: r = subprocess.run(['go', 'generate', './...'], cwd=gen, env=env, capture_output=True, text=True, timeout=200); rc, msg = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: rc, msg = 1, 'not finished after 200 s'
    c.extra('generators', 'func', 'run', 'go generate ./... succeeds', rc == 0, 'execution', arch='amd64', detail=None if rc == 0 else [msg[-2000:]])
    stale = [rel(f) for f in before if not os.path.exists(f) or MARK in open(f, errors='replace').read()]
    if rc == 0:
        for f in before:
            c.extra('generators', 'func', 'output', 'the generators write %s anew' % rel(f), rel(f) not in stale, 'execution', arch='amd64')
        have = ''.join(open(f).read() for f in before if f.endswith('.s'))
    # the same generators writing to a file that does not exist yet: the same contents
    other = {}
    if rc == 0:
        for d, cmd in directives(gen):
            m = re.match(r'^(go run .*\s-+out[= ])(\S+)(.*)$', cmd)
            if not m: continue
            new = os.path.join(c.tmp, 'fresh_%d_%s' % (len(other), os.path.basename(m.group(2))))
            try: r = subprocess.run(['sh', '-c', m.group(1) + new + m.group(3)], cwd=d, env=env, capture_output=True, text=True, timeout=100)
            except subprocess.TimeoutExpired: r = None
            ok = r is not None and r.returncode == 0 and os.path.exists(new)
            c.extra('generators', 'func', 'run', 'the generator of %s succeeds on a new output file' % rel(os.path.join(d, m.group(2))), ok, 'execution', arch='amd64', detail=None if ok else [(r.stderr if r else 'timeout')[-2000:]])
            if ok: other[os.path.normpath(os.path.join(d, m.group(2)))] = new
    trees = [gen]
    diff = {f: n for f, n in other.items() if not os.path.exists(f) or strip(open(f).read()) != strip(open(n).read())}
    if diff:
        g2 = os.path.join(c.tmp, 'gen2'); shutil.copytree(gen, g2, symlinks=True)
        for f, n in diff.items(): shutil.copy(n, os.path.join(g2, rel(f)))
        trees.append(g2)
    for t in list(trees):
        r = subprocess.run(['go', 'build', './pkg/...'], cwd=t, env=env, capture_output=True, text=True)
        c.extra('generators', 'func', 'compile', 'the regenerated library compiles and assembles', r.returncode == 0, 'go build', arch='amd64', detail=None if r.returncode == 0 else [(r.stdout + r.stderr)[-2000:]])
    c.more = dict(regenerated=[rel(f) for f in before], regenerated_differs_from_committed=[rel(f) for f in before if os.path.exists(f) and open(f).read() != open(os.path.join(c.repo, rel(f))).read()],
                  output_depends_on_output_file=[rel(f) for f in diff])
    return trees

def strip(s):
    """without comments (the generated assembly names its command line in one)"""
    return re.sub(r'(?m)//.*$', '', s)

def search(c, b, bad):
    for o in bad:
        if o['fn'] == 'generators': return dict(what=o['desc'] + ': it does not', output=(o['model'] or [''])[0], command='go generate ./... in a copy of the repository')
    return None
