"""The trusted instruction semantics of vc/asm.py compared with the CPU.

For every instruction form asm.py gives a meaning to, a routine is assembled with the Go
assembler and run on operand values (edge-case bytes and random ones); asm.py executes the
same instruction on the same values as constants.  This is a test of the verifier (its
trusted base), not of the repository; it decides no property.

    cputest.run(vectors) -> dict(instructions=, comparisons=, disagreements=[...], skipped=)"""
import os, random, shutil, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, asm, driver
from asm import AsmVerifier, Ins, B8, Unsupported

def forms():
    out = []
    def f(op, *a): out.append((op, list(a)))
    for op in sorted(asm.BIN) + sorted(asm.PACK) + sorted(asm.UNPCK): f(op, 'X1', 'X0', 'X2')
    for op in sorted(asm.SHIFT):
        if op == 'VPSRAQ': continue                    # AVX-512 only
        w = asm.SHIFT[op][0]
        for k in (0, 1, 7, w - 1, w, w + 3): f(op, '$%d' % k, 'X0', 'X2')
    for k in (0, 1, 4, 8, 12, 15, 16, 17, 31, 32, 40):
        f('VPALIGNR', '$%d' % k, 'X1', 'X0', 'X2')
    for k in (0, 1, 4, 8, 15, 16, 20):
        f('VPSLLDQ', '$%d' % k, 'X0', 'X2'); f('VPSRLDQ', '$%d' % k, 'X0', 'X2')
    for k in (0, 0xff, 0xe4, 0x1b, 0x39, 0x93):
        for op in ('VPSHUFD', 'VPSHUFLW', 'VPSHUFHW'): f(op, '$%d' % k, 'X0', 'X2')
        f('VPBLENDW', '$%d' % k, 'X1', 'X0', 'X2')
        f('VPBLENDD', '$%d' % (k & 15), 'X1', 'X0', 'X2')
    f('VPSHUFB', 'X1', 'X0', 'X2')
    for op in ('VPBROADCASTB', 'VPBROADCASTW', 'VPBROADCASTD', 'VPBROADCASTQ', 'VBROADCASTSS', 'VMOVDQU', 'VMOVUPS', 'VMOVDQA', 'VMOVAPS'): f(op, 'X0', 'X2')
    f('VPMOVMSKB', 'X0', 'AX')
    f('VMOVQ', 'AX', 'X2'); f('VMOVD', 'AX', 'X2'); f('MOVQ', 'AX', 'X2'); f('MOVQ', 'X0', 'AX'); f('VMOVQ', 'X0', 'AX'); f('VMOVD', 'X0', 'AX'); f('VMOVQ', 'X0', 'X2')
    for op, n in (('VPEXTRB', 16), ('VPEXTRW', 8), ('VPEXTRD', 4), ('VPEXTRQ', 2)):
        for k in (0, 1, n - 1): f(op, '$%d' % k, 'X0', 'AX')
    for w in 'LQW':
        for o in ('ADD', 'SUB', 'AND', 'OR', 'XOR', 'IMUL'):
            f(o + w, 'BX', 'AX')
            if o != 'IMUL': f(o + w, '$-3', 'AX')
        f('XOR' + w, 'AX', 'AX')
        for o in ('SHL', 'SHR', 'SAR'):
            for k in (0, 1, 4, 8, 15, 31): f(o + w, '$%d' % k, 'AX')
            f(o + w, 'CX', 'AX')
    for o in ('INC', 'DEC', 'NEG', 'NOT'):
        for w in 'LQ': f(o + w, 'AX')
    for w in 'BWLQ':
        f('MOV' + w, 'BX', 'AX')
    f('MOVB', 'AH', 'BX'); f('MOVB', 'BL', 'AH')
    for o in ('MOVBWZX', 'MOVBLZX', 'MOVBQZX', 'MOVWLZX', 'MOVWQZX', 'MOVBWSX', 'MOVBLSX', 'MOVBQSX', 'MOVWLSX', 'MOVWQSX', 'MOVLQSX', 'MOVLQZX'): f(o, 'BX', 'AX')
    f('MOVBQZX', 'AH', 'BX'); f('MOVBLZX', 'AL', 'BX')
    f('LEAQ', '5(AX)(BX*2)', 'CX'); f('LEAQ', '-7(AX)', 'CX')
    return out

REGS = ('AX', 'BX', 'CX')
GO = '''package main
import ("bufio"; "encoding/hex"; "os"; "fmt"; "strconv")
var tab = []func(*[72]byte){%s}
func main() {
	sc := bufio.NewScanner(os.Stdin); sc.Buffer(make([]byte, 1<<16), 1<<16)
	w := bufio.NewWriter(os.Stdout); defer w.Flush()
	for sc.Scan() {
		t := sc.Text(); k := 0
		for t[k] != ' ' { k++ }
		n, _ := strconv.Atoi(t[:k]); b, _ := hex.DecodeString(t[k+1:])
		var io [72]byte; copy(io[:], b); tab[n](&io)
		fmt.Fprintln(w, hex.EncodeToString(io[:]))
	}
}
'''
def vector(r):
    edge = (0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff)
    m = r.random()
    return bytes(r.choice(edge) if m < 0.5 or (m < 0.8 and r.random() < 0.5) else r.randrange(256) for _ in range(72))

def model(op, args, v):
    """asm.py's answer for one instruction on constants"""
    a = AsmVerifier.__new__(AsmVerifier)
    a.x = {'X%d' % k: [B8(b) for b in v[16 * k:16 * k + 16]] for k in range(3)}
    a.regs = {r: z3.BitVecVal(struct.unpack('<Q', v[48 + 8 * k:56 + 8 * k])[0], 64) for k, r in enumerate(REGS)}
    a.want = None; a.root = 'cputest'; a.obls = []
    a.step(None, Ins(op, args, 0, 'cputest'))
    out = bytearray()
    for k in range(3):
        for b in a.x['X%d' % k]: out.append(z3.simplify(b).as_long())
    for r in REGS: out += struct.pack('<Q', z3.simplify(a.regs[r]).as_long())
    return bytes(out)

def run(vectors=24, seed=1):
    try: cpu = open('/proc/cpuinfo').read()
    except OSError: cpu = ''
    if ' avx2 ' not in cpu: return dict(skipped='no AVX2 on this machine')
    fs = forms(); r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='cputest')
    try:
        open(d + '/go.mod', 'w').write('module cputest\ngo 1.16\n')
        asmtxt = '#include "textflag.h"\n'; decl = 'package main\n'
        for n, (op, args) in enumerate(fs):
            decl += '//go:noescape\nfunc t%d(io *[72]byte)\n' % n
            asmtxt += 'TEXT \u00b7t%d(SB), NOSPLIT, $0-8\n\tMOVQ io+0(FP), DI\n' % n
            asmtxt += ''.join('\tVMOVDQU %d(DI), X%d\n' % (16 * k, k) for k in range(3))
            asmtxt += ''.join('\tMOVQ %d(DI), %s\n' % (48 + 8 * k, x) for k, x in enumerate(REGS))
            asmtxt += '\t%s %s\n' % (op, ', '.join(args))
            asmtxt += ''.join('\tVMOVDQU X%d, %d(DI)\n' % (k, 16 * k) for k in range(3))
            asmtxt += ''.join('\tMOVQ %s, %d(DI)\n' % (x, 48 + 8 * k) for k, x in enumerate(REGS)) + '\tRET\n\n'
        open(d + '/d.go', 'w').write(decl); open(d + '/a_amd64.s', 'w').write(asmtxt)
        open(d + '/main.go', 'w').write(GO % ', '.join('t%d' % n for n in range(len(fs))))
        b = subprocess.run(['go', 'build', '-o', 't', '.'], cwd=d, env=driver.GOENV, capture_output=True, text=True)
        if b.returncode: return dict(skipped='the test routines do not assemble: ' + b.stderr[:600])
        qs = [(n, vector(r)) for n in range(len(fs)) for _ in range(vectors)]
        o = subprocess.run([d + '/t'], input=''.join('%d %s\n' % (n, v.hex()) for n, v in qs), capture_output=True, text=True, timeout=60)
        rs = [bytes.fromhex(x) for x in o.stdout.split()]
        bad = []; skip = {}; done = 0; ins = set()
        for (n, v), got in zip(qs, rs):
            op, args = fs[n]
            if n in skip: continue
            try: want = model(op, args, v)
            except Unsupported as e: skip[n] = '%s %s: %s' % (op, ', '.join(args), e); continue
            done += 1; ins.add(op)
            if want != got: bad.append(dict(instruction='%s %s' % (op, ', '.join(args)), operands=v.hex(), cpu=got.hex(), asm_py=want.hex()))
        if len(rs) != len(qs): bad.append(dict(instruction='the test program ended early', cpu=o.stderr[-300:]))
        return dict(instructions=len(ins), forms=len(fs) - len(skip), comparisons=done, disagreements=bad[:20], refused=sorted(skip.values()))
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import json, time
    t = time.time(); print(json.dumps(run(int(sys.argv[1]) if len(sys.argv) > 1 else 24), indent=1)); print('%.1fs' % (time.time() - t))
