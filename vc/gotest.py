"""The trusted semantics of the Go executor (vc/exec2.py, sym.py, val.py) compared with the Go compiler.

Random Go functions over uint8..uint64, int8..int64, int, slices, arrays, structs, closures and loops are
compiled and run; the value they return and what they leave in their slice argument is then stated as a
contract, which the verifier must prove, and a wrong value as a second contract, which it must not prove.
This tests the verifier; it decides no property.    gotest.run(n) -> counts"""
import os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, contract

U = ['uint8', 'uint16', 'uint32', 'uint64']
I = ['int8', 'int16', 'int32', 'int64']
W = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'int': 64, 'uint': 64}

class Gen:
    def __init__(self, r):
        self.r = r; self.n = 0; self.vars = {}; self.lines = []; self.ind = 1; self.depth = 0
    def new(self):
        self.n += 1
        return 'v%d' % self.n
    def emit(self, s): self.lines.append('\t' * self.ind + s)
    def lit(self, t):
        r = self.r
        if t == 'int': return '(zint + %d)' % r.choice([0, 1, 2, 3, 7, 15, 100])
        w = W[t]; hi = (1 << w) - 1 if t[0] == 'u' else (1 << (w - 1)) - 1
        v = r.choice([0, 1, 2, hi, hi - 1, hi // 2, r.randint(0, hi), r.randint(0, min(hi, 300))])
        return '(z%s + %d)' % (t, v)
    def var(self, t):
        c = [v for v, u in self.vars.items() if u == t]
        return self.r.choice(c) if c else None
    def expr(self, t, d=0):
        r = self.r
        k = r.random()
        if d > 3 or k < 0.12: return self.lit(t)
        v = self.var(t)
        if v and k < 0.35: return v
        if t == 'int':
            o = r.randrange(7)
            if o == 0: return 'int(%s & 0x3ff)' % self.expr(r.choice(['uint16', 'uint32', 'uint64']), d + 1)
            if o == 1: return 'int(%s)' % self.expr(r.choice(['uint8', 'int8', 'uint16', 'int16']), d + 1)
            if o == 2: return 'len(%s)' % r.choice(['s', 't', 's[%d:%d]' % (r.randint(0, 3), r.randint(3, 8)), 'arr'])
            if o == 3: return '(%s %% 1000)' % self.expr('int', d + 1)
            if o == 4: return '((%s & 0xff) * %d)' % (self.expr('int', d + 1), r.randint(0, 9))
            if o == 5: return '((%s & 0xfff) >> %d)' % (self.expr('int', d + 1), r.randint(0, 5))
            return '(%s & 0xffff %s %s & 0xffff)' % (self.expr('int', d + 1), r.choice('+-'), self.expr('int', d + 1))
        o = r.randrange(15)
        sub = lambda: self.expr(t, d + 1)
        if o < 4: return '(%s %s %s)' % (sub(), r.choice(['+', '-', '&', '|', '^', '&^']), sub())
        if o == 4: return '(%s * %s)' % (sub(), self.lit(t)) if W[t] < 64 else '(%s + %s)' % (sub(), sub())
        if o == 5:
            if t[0] == 'i': return '(-%s)' % sub()
            d0 = r.choice([3, 7, 10, 16])
            return '(%s %s %d)' % (sub(), r.choice('/%'), d0)
        if o == 6: return '(%s %s %d)' % (sub(), r.choice(['<<', '>>']), r.choice([0, 1, 3, 7, W[t] - 1, W[t], W[t] + 5]))
        if o == 7: return '(%s %s (%s & %d))' % (sub(), r.choice(['<<', '>>']), self.expr(r.choice(['uint8', 'uint32']), d + 1), r.choice([7, 15, 63]))
        if o == 8: return '(^%s)' % sub()
        if o in (9, 10, 11): return '%s(%s)' % (t, self.expr(r.choice(U + I + ['int']), d + 1))
        if o == 12:
            if t == 'uint8': return 's[%s]' % self.index(d)
            if t == 'uint32': return 't[%s]' % self.index(d)
            if t == 'uint16': return 'arr[%s]' % self.index(d)
            if t == 'int16': return 'st.a'
            if t == 'uint64': return r.choice(['st.b', 'st.in.c'])
            return sub()
        if o == 13:
            if t == 'uint32': return 'help(%s, %s)' % (self.expr('uint32', d + 1), self.expr('uint8', d + 1))
            if t == 'uint16': return 'pure(%s)' % self.expr('uint16', d + 1)
            if t == 'uint8': return 'uint8(bits.Len32(%s))' % self.expr('uint32', d + 1)
            return sub()
        return '%s(%s)' % (t, sub())
    def index(self, d=0):
        return self.r.choice([str(self.r.randrange(4)), '%s & 3' % self.expr(self.r.choice(['uint8', 'uint32', 'int']), d + 2)])
    def cond(self, d=0):
        r = self.r
        o = r.randrange(6)
        if o < 4 or d > 2:
            t = r.choice(U + I + ['int'])
            return '%s %s %s' % (self.expr(t, 2), r.choice(['<', '<=', '>', '>=', '==', '!=']), self.expr(t, 2))
        if o == 4: return '(%s) %s (%s)' % (self.cond(d + 1), r.choice(['&&', '||']), self.cond(d + 1))
        return '!(%s)' % self.cond(d + 1)
    def assign(self):
        r = self.r
        o = r.randrange(12)
        if o < 3:
            t = r.choice(U + I + ['int']); e = self.expr(t); v = self.new()
            self.emit('%s := %s' % (v, e) if t != 'int' or True else ''); self.emit('_ = ' + v)
            # untyped constants take the type they are converted to
            self.lines[-2] = '\t' * self.ind + 'var %s %s = %s' % (v, t, e)
            self.vars[v] = t
        elif o < 6:
            c = [(v, t) for v, t in self.vars.items() if t != 'int']
            if not c: return
            v, t = r.choice(c)
            if r.random() < 0.5: self.emit('%s = %s' % (v, self.expr(t)))
            else: self.emit('%s %s= %s' % (v, r.choice(['+', '-', '^', '|', '&']), self.expr(t)))
        elif o == 6: self.emit('s[%s] = %s' % (self.index(), self.expr('uint8')))
        elif o == 7: self.emit('t[%s] %s %s' % (self.index(), r.choice(['=', '+=', '^=']), self.expr('uint32')))
        elif o == 8: self.emit('arr[%s] = %s' % (self.index(), self.expr('uint16')))
        elif o == 9: self.emit(r.choice(['st.a = %s' % self.expr('int16'), 'st.b = %s' % self.expr('uint64'), 'st.in.c += %s' % self.expr('uint64'), 'copied = st', 'st.b ^= copied.b']))
        elif o == 10: self.emit('{ %s }' % r.choice(['acc++', 'pt := &st; pt.b++', 'pa := &arr; pa[1]++', 'u := s[1:4]; u[%d]++' % r.randint(0, 2), 'copy(s[%d:], s[%d:%d])' % (r.randint(0, 3), r.randint(0, 3), r.randint(3, 8)), 'b2 := arr; b2[0]++; acc += uint64(b2[0]) + uint64(arr[0])',
                                           'sl = append(sl, %s)' % self.expr('uint8'), 'acc += uint64(len(sl))', 'x, y := two(%s, %s); acc = acc*3 + uint64(x) + uint64(y)' % (self.expr('uint32'), self.expr('uint32')),
                                           'clo(%s)' % self.expr('uint16'), 'sl = append(sl, s[:%d]...)' % r.randint(0, 4), 'sl = append([]byte(nil), s[2:5]...); sl[0] = 9']))
        else: self.emit('acc = acc*31 + uint64(%s)' % self.expr(r.choice(U + I)))
    def block(self, n):
        keep = dict(self.vars)
        self.ind += 1; self.depth += 1
        for _ in range(n): self.stmt()
        self.ind -= 1; self.depth -= 1
        self.vars = keep
    def stmt(self):
        r = self.r
        if self.depth > 1 or r.random() < 0.7: return self.assign()
        o = r.randrange(6)
        if o == 0:
            self.emit('if %s {' % self.cond()); self.block(r.randint(1, 2))
            if r.random() < 0.5: self.emit('} else {'); self.block(1)
            self.emit('}')
        elif o == 1:
            i = self.new(); self.emit('for %s := 0; %s < %d; %s++ {' % (i, i, r.randint(0, 3), i))
            self.vars[i] = 'int'
            self.block(r.randint(1, 2))
            del self.vars[i]
            self.emit('}')
        elif o == 2:
            i, x = self.new(), self.new()
            rng, t = r.choice([('arr', 'uint16'), ('s[:3]', 'uint8'), ('t[2:]', 'uint32')])
            self.emit('for %s, %s := range %s {' % (i, x, rng)); self.emit('\t_, _ = %s, %s' % (i, x))
            self.vars[i] = 'int'; self.vars[x] = t
            self.block(r.randint(1, 2))
            del self.vars[i]; del self.vars[x]
            self.emit('}')
        elif o == 3:
            self.emit('switch %s & 3 {' % self.expr('uint8', 2))
            for k in range(3):
                self.emit('case %d:' % k); self.block(1)
            if r.random() < 0.6: self.emit('default:'); self.block(1)
            self.emit('}')
        elif o == 4:
            self.emit('for k := 0; ; k++ {'); self.ind += 1
            self.emit('if k == %d || %s { break }' % (r.randint(1, 3), self.cond(2)))
            if r.random() < 0.5: self.emit('if %s { continue }' % self.cond(2))
            self.ind -= 1; self.block(1); self.emit('}')
        else:
            self.emit('func() {'); self.block(2); self.emit('}()')
    def func(self, name):
        self.vars = {'a': 'uint32', 'b': 'uint8', 'c': 'uint16', 'e': 'uint64', 'g': 'int8', 'h': 'int32', 'acc': 'uint64', 'n': 'int'}
        for _ in range(self.r.randint(6, 14)): self.stmt()
        body = '\n'.join(self.lines)
        return ('''func %s(s []byte, t []uint32, a uint32, b uint8, c uint16, e uint64, g int8, h int32, n int) (acc uint64) {
	var arr [4]uint16
	var st, copied rec
	var sl []byte
	clo := func(x uint16) uint16 {
		arr[3] += x
		acc++
		return x ^ arr[2]
	}
	pure := func(x uint16) uint16 { return x*3 ^ uint16(b) }
	_, _, _, _ = pure, clo, sl, copied
''' + ''.join('\tvar z%s %s\n\t_ = z%s\n' % (t, t, t) for t in U + I + ['int']) + '''%s
	for _, x := range arr { acc = acc*5 + uint64(x) }
	for _, x := range sl { acc = acc*7 + uint64(x) }
	return acc + st.b + st.in.c + uint64(st.a) + copied.b + %s
}
''') % (name, body, self.expr('uint64', 2))

PRE = '''package x

import "math/bits"

type inner struct{ c uint64 }
type rec struct {
	a  int16
	b  uint64
	in inner
}

var _ = bits.Len32

func help(x uint32, y uint8) uint32 {
	if x > uint32(y) {
		return x - uint32(y)
	}
	return x<<1 | 1
}
func two(x, y uint32) (p uint32, q uint32) {
	defer func() {}()
	p, q = y, x
	if p == q {
		p++
	}
	return
}
'''.replace('\tdefer func() {}()\n', '')

def run(n=40, seed=1, verbose=False):
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='gotest')
    try:
        os.makedirs(d + '/r/pkg/x'); os.makedirs(d + '/c')
        open(d + '/r/go.mod', 'w').write('module gotest\ngo 1.16\n')
        src = PRE; args = []
        for k in range(n):
            src += Gen(r).func('F%d' % k)
            args.append(dict(s=[r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(8)], t=[r.choice([0, 1, 2**31, 2**32 - 1, r.randrange(2**32)]) for _ in range(4)],
                             a=r.choice([0, 1, 2**32 - 1, r.randrange(2**32)]), b=r.randrange(256), c=r.randrange(65536), e=r.choice([0, 2**64 - 1, r.randrange(2**64)]), g=r.randint(-128, 127), h=r.randint(-2**31, 2**31 - 1), n=r.randint(0, 20)))
        open(d + '/r/pkg/x/x.go', 'w').write(src)
        main = 'package main\nimport ("fmt"; "gotest/pkg/x")\nfunc main() {\n'
        for k, v in enumerate(args):
            main += '\t{ s := []byte{%s}; t := []uint32{%s}; r := x.F%d(s, t, %d, %d, %d, %d, %d, %d, %d); fmt.Println(r, s, t) }\n' % (
                ','.join(map(str, v['s'])), ','.join(map(str, v['t'])), k, v['a'], v['b'], v['c'], v['e'], v['g'], v['h'], v['n'])
        os.makedirs(d + '/r/cmd'); open(d + '/r/cmd/main.go', 'w').write(main + '}\n')
        o = subprocess.run(['go', 'run', './cmd'], cwd=d + '/r', env=driver.GOENV, capture_output=True, text=True)
        if o.returncode:
            if verbose: print(src); print(o.stderr[:2000])
            return dict(skipped='the random program does not run: ' + o.stderr[:300])
        spec = 'x\n'
        for k, l in enumerate(o.stdout.strip().split('\n')):
            l = l.replace('[', ' ').replace(']', ' ').split()
            v = args[k]; args[k]['want'] = int(l[0]); so = l[1:9]; to = l[9:13]
            spec += '\n//@ func x.F%d(s, t, a, b, c, e, g, h, n) (result)\n//@ level leaf\n' % k
            spec += '//@ requires len(s) == 8\n//@ requires len(t) == 4\n//@ modifies s[0:8]\n//@ modifies t[0:4]\n'
            for j, x in enumerate(v['s']): spec += '//@ requires s[%d] == %d\n' % (j, x)
            for j, x in enumerate(v['t']): spec += '//@ requires t[%d] == %d\n' % (j, x)
            for p in 'abcen': spec += '//@ requires %s == %d\n' % (p, v[p])
            for p in 'gh': spec += '//@ requires %s == %s\n' % (p, v[p] if v[p] >= 0 else '0 - %d' % -v[p])
            spec += '//@ ensures result == %s\n' % l[0]
            for j in range(8): spec += '//@ ensures s[%d] == %s\n' % (j, so[j])
            for j in range(4): spec += '//@ ensures t[%d] == %s\n' % (j, to[j])
            spec += '//@ ensures result == %d\n' % (int(l[0]) ^ (1 << r.randrange(64)))
        open(d + '/c/x.spec', 'w').write(spec)
        exe = driver.build_frontend(d)
        prog = driver.dump(exe, d, 'amd64', d + '/r', './pkg/x')
        pg = driver.Program(prog, contract.load(d + '/c'))
        agree = 0; bad = []; refused = []
        for k in range(n):
            key = 'x.F%d' % k
            q = driver.verify(pg, key, dict(maxbad=100, budget=60, timeout=10000))
            if q.error: refused.append('%s: %s' % (key, q.error)); (print(q.tb) if verbose else None); continue
            post = [o for o in q.obls if o.kind == 'post']
            wrong = [o for o in post if o.status == 'proved' and o.desc == pg.contracts[key].ensures[-1].text]
            right = [o for o in post if o.status != 'proved' and o.desc != pg.contracts[key].ensures[-1].text]
            pan = [o for o in q.obls if o.status != 'proved' and o.tag in ('panic', 'mem')]
            if any(o.tag == 'num' and o.status != 'proved' for o in q.obls): refused.append('%s: may overflow int' % key); continue
            if wrong or right or pan or not post:
                bad.append(dict(function=key, wrong_value_proved=bool(wrong), not_proved=[o.desc for o in right][:5], panics=[o.desc + ' ' + o.pos for o in pan][:3]))
                if verbose:
                    st = src.index('func %s(' % key[2:]); print(src[st:src.index('\n}\n', st) + 3]); print(args[k]); print(bad[-1])
                    for o in right[:3]: print(o.status, o.desc, o.model)
            else: agree += 1
        return dict(functions=n, agree=agree, disagreements=bad[:10], refused=refused)
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import json, time
    sys.setrecursionlimit(100000)
    t = time.time()
    print(json.dumps(run(int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1, True), indent=1)); print('%.1fs' % (time.time() - t))
