"""Symbolic execution of the Go assembly functions (amd64, straight line) against
the contracts of their Go declarations.

Registers hold 64-bit vectors or pointers (object, byte offset); X registers hold
sixteen bytes.  Every load and store is an obligation on the object it goes to.
The instruction semantics below are the trusted part.
"""
import os, re, glob, time
import z3
from val import *
import spec as S
from sym import *
from exec2 import Verifier, PathLimit
from ev import Env, lens

B8 = lambda n: z3.BitVecVal(n, 8)

# ------------------------------------------------------------------ parsing
class Ins:
    __slots__ = ('op', 'args', 'line', 'file')
    def __init__(self, op, args, line, file): self.op, self.args, self.line, self.file = op, args, line, file
    def pos(self): return '%s:%d' % (self.file, self.line)

def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(': depth += 1
        if ch == ')': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def parse_file(path, rel):
    """functions: name -> (instructions, argsize); data: symbol -> {offset: byte}"""
    fns, data = {}, {}
    cur = None
    for n, ln in enumerate(open(path), 1):
        ln = ln.split('//')[0].strip()
        for part in ln.split(';'):
            part = part.strip()
            if not part or part.startswith('#'): continue
            m = re.match(r'^TEXT\s+([^\s(]+)\(SB\)\s*,\s*(?:([^,]+),\s*)?\$(-?\d+)(?:-(\d+))?$', part)
            if m:
                name = m.group(1).replace('·', '').replace('∕', '/')
                cur = []
                fns[name] = (cur, int(m.group(3)), None if m.group(4) is None else int(m.group(4)))
                continue
            m = re.match(r'^DATA\s+([^\s+]+)\+(\d+|0x[0-9a-fA-F]+)\(SB\)/(\d+)\s*,\s*\$(.*)$', part)
            if m:
                sym = m.group(1)
                v = m.group(4).strip()
                size = int(m.group(3))
                if v.startswith('"'):
                    b = v.strip('"').encode().decode('unicode_escape').encode('latin1')
                else:
                    b = (int(v, 0) & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
                for k in range(size): data.setdefault(sym, {})[int(m.group(2), 0) + k] = b[k] if k < len(b) else 0
                continue
            if part.startswith('GLOBL'):
                m = re.match(r'^GLOBL\s+([^\s(]+)\(SB\)\s*,\s*(?:[^,]+,\s*)?\$(\d+)$', part)
                if m: data.setdefault(m.group(1), {})['size'] = int(m.group(2))
                continue
            m = re.match(r'^(\w+):\s*(.*)$', part)
            if m:
                if cur is not None: cur.append(Ins(':', [m.group(1)], n, rel))
                part = m.group(2)
                if not part: continue
            m = re.match(r'^([A-Z][A-Z0-9]*)\s*(.*)$', part)
            if not m: raise Unsupported('assembly line %r' % part)
            if cur is None: raise Unsupported('instruction outside a function')
            cur.append(Ins(m.group(1), split_args(m.group(2)), n, rel))
    return fns, data

AVX2_ON_XMM = {'VPBROADCASTB', 'VPBROADCASTW', 'VPBROADCASTD', 'VPBROADCASTQ', 'VPBLENDD', 'VPSLLVD', 'VPSRLVD', 'VPSLLVQ', 'VPSRLVQ', 'VPSRAVD', 'VPGATHERDD', 'VPMASKMOVD'}
BMI1 = {'ANDNL', 'ANDNQ', 'BEXTRL', 'BEXTRQ', 'BLSIL', 'BLSIQ', 'BLSRL', 'BLSRQ', 'TZCNTL', 'TZCNTQ', 'BLSMSKL', 'BLSMSKQ'}
BMI2 = {'PEXTL', 'PEXTQ', 'PDEPL', 'PDEPQ', 'BZHIL', 'BZHIQ', 'RORXL', 'RORXQ', 'SHLXL', 'SHLXQ', 'SHRXL', 'SHRXQ', 'MULXL', 'MULXQ', 'SARXL', 'SARXQ'}
SSE3 = {'LDDQU', 'MOVDDUP', 'MOVSHDUP', 'MOVSLDUP', 'HADDPS'}
SSSE3 = {'PSHUFB', 'PALIGNR', 'PABSB', 'PABSW', 'PABSD', 'PHADDD', 'PHADDW', 'PMADDUBSW', 'PMULHRSW', 'PSIGNB'}
SSE41 = {'PMINUW', 'PMINUD', 'PMINSB', 'PMINSD', 'PMAXUW', 'PMAXUD', 'PMAXSB', 'PMAXSD', 'PACKUSDW', 'PBLENDW', 'PEXTRB', 'PEXTRD', 'PEXTRQ', 'PINSRB', 'PINSRD', 'PINSRQ', 'PMULLD', 'PTEST', 'PMOVZXBD', 'PMOVZXBW', 'PCMPEQQ'}

def features_of(ins):
    f = set()
    op = ins.op
    anyY = any(re.match(r'^Y\d+$', a) for a in ins.args)
    anyZ = any(re.match(r'^(Z\d+|K\d+|[XY](1[6-9]|2\d|3[01]))$', a) for a in ins.args)
    if anyZ: f |= {'HasAVX512F', 'HasAVX'}
    if op.startswith('V'):
        f.add('HasAVX')
        if op in AVX2_ON_XMM: f.add('HasAVX2')
        if op in ('VBROADCASTSS', 'VBROADCASTSD') and re.match(r'^[XY]\d+$', ins.args[0]): f.add('HasAVX2')
        if anyY and op.startswith('VP') and op not in ('VPERM2F128', 'VPTEST', 'VPERMILPS', 'VPERMILPD'): f.add('HasAVX2')
        if op in ('VBROADCASTI128', 'VINSERTI128', 'VEXTRACTI128', 'VPERM2I128', 'VPERMD', 'VPERMQ', 'VPERMPS', 'VPERMPD'): f.add('HasAVX2')
        if op.startswith('VFMADD') or op.startswith('VFNMADD'): f.add('HasFMA')
    elif op in BMI1: f.add('HasBMI1')
    elif op in BMI2: f.add('HasBMI2')
    elif op in SSE3: f.add('HasSSE3')
    elif op in SSSE3: f.add('HasSSSE3')
    elif op in SSE41: f.add('HasSSE41')
    elif op in ('POPCNTL', 'POPCNTQ'): f.add('HasPOPCNT')
    elif op in ('CRC32B', 'CRC32L', 'CRC32Q', 'PCMPGTQ'): f.add('HasSSE42')
    return f

ALIGNED = ('VMOVDQA', 'VMOVAPS', 'VMOVAPD', 'MOVO', 'MOVOA', 'MOVAPS', 'MOVAPD')

class AsmPkg:
    def __init__(self, rel):
        self.rel = rel; self.fns = {}; self.data = {}; self.features = set(); self.error = None; self.files = []

def load_pkg(repo, rel, files=None):
    """the assembly of one package (the files the build for amd64 selects)"""
    p = AsmPkg(rel)
    for f in files if files is not None else sorted(glob.glob(os.path.join(repo, rel, '*.s'))):
        base = os.path.basename(f)
        if files is None:
            m = re.search(r'_([a-z0-9]+)\.s$', base)
            if m and m.group(1) in ('386', 'arm', 'arm64', 'ppc64', 'ppc64le', 's390x', 'mips', 'riscv64', 'wasm', 'loong64'): continue
            head = open(f).read(4000)
            if re.search(r'^//\s*(go:build|\+build)\s.*(ignore|!amd64|noasm)', head, re.M): continue
        try:
            fns, data = parse_file(f, os.path.join(rel, base))
        except Unsupported as e:
            p.error = str(e); continue
        p.files.append(f)
        p.fns.update(fns); p.data.update(data)
        for name, (ins, _, _) in fns.items():
            for i in ins:
                if i.op != ':': p.features |= features_of(i)
    return p

def attach(pg, repo, override=None):
    """make the assembly of the packages known to a Program"""
    pg.asm = {}
    for short, rel in (('encode', 'pkg/encode'), ('decode', 'pkg/decode')):
        pk = load_pkg(repo, rel, (override or {}).get(short))
        pg.asm[short] = pk
        pg.features[short] = pk.features

# ------------------------------------------------------------------ values
class APtr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return 'APtr(%s,%s)' % (self.obj, self.off)
class Row:
    """sixteen bytes of a lookup table row: kind 'ENC' or 'DEC', row index a byte"""
    __slots__ = ('kind', 'b')
    def __init__(self, kind, b): self.kind, self.b = kind, b

GP8 = {'AL': ('AX', 0), 'BL': ('BX', 0), 'CL': ('CX', 0), 'DL': ('DX', 0), 'AH': ('AX', 8), 'BH': ('BX', 8), 'CH': ('CX', 8), 'DH': ('DX', 8),
       'SIB': ('SI', 0), 'DIB': ('DI', 0)}
GP = {'AX', 'BX', 'CX', 'DX', 'SI', 'DI', 'BP', 'R8', 'R9', 'R10', 'R11', 'R12', 'R13', 'R14', 'R15'}
for _r in range(8, 16): GP8['R%dB' % _r] = ('R%d' % _r, 0)

def join(bs):
    """bytes (least significant first) as one vector; pieces of one term are put back together"""
    parts = []                                  # (term, lo, hi) or (byte,)
    for b in bs:
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = b.params(); t = b.arg(0)
            if parts and len(parts[-1]) == 3 and parts[-1][0].eq(t) and parts[-1][2] + 1 == lo:
                parts[-1] = (t, parts[-1][1], hi)
            else: parts.append((t, lo, hi))
        else: parts.append((b,))
    es = []
    for p in parts:
        if len(p) == 1: es.append(p[0])
        elif p[1] == 0 and p[2] == p[0].size() - 1: es.append(p[0])
        else: es.append(z3.Extract(p[2], p[1], p[0]))
    return es[0] if len(es) == 1 else z3.simplify(z3.Concat(*es[::-1]))
def lanes(bs, w):
    n = w // 8
    return [join(bs[k:k + n]) for k in range(0, 16, n)]
def unlanes(ls):
    out = []
    for l in ls:
        l = z3.simplify(l)
        if l.size() == 8: out.append(l)
        else:
            for k in range(l.size() // 8):
                e = z3.Extract(8 * k + 7, 8 * k, l)
                if z3.is_bv_value(l) or l.decl().kind() == z3.Z3_OP_CONCAT: e = z3.simplify(e)
                out.append(e)
    return out

def umin(a, b): return z3.If(z3.ULE(a, b), a, b)
def umax(a, b): return z3.If(z3.UGE(a, b), a, b)
def smin(a, b): return z3.If(a <= b, a, b)
def smax(a, b): return z3.If(a >= b, a, b)
def uaddsat(a, b):
    s = z3.ZeroExt(1, a) + z3.ZeroExt(1, b); w = a.size()
    return z3.If(z3.Extract(w, w, s) == 1, z3.BitVecVal((1 << w) - 1, w), z3.Extract(w - 1, 0, s))
def usubsat(a, b): return z3.If(z3.UGE(a, b), a - b, z3.BitVecVal(0, a.size()))
def ssat(x, w):
    """signed saturation of x to w bits"""
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    n = x.size()
    return z3.If(x < z3.BitVecVal(lo, n), z3.BitVecVal(lo, w), z3.If(x > z3.BitVecVal(hi, n), z3.BitVecVal(hi, w), z3.Extract(w - 1, 0, x)))
def usat(x, w):
    """unsigned saturation of the signed x to w bits"""
    n = x.size(); hi = (1 << w) - 1
    return z3.If(x < 0, z3.BitVecVal(0, w), z3.If(x > z3.BitVecVal(hi, n), z3.BitVecVal(hi, w), z3.Extract(w - 1, 0, x)))
def saddsat(a, b): return ssat(z3.SignExt(1, a) + z3.SignExt(1, b), a.size())
def ssubsat(a, b): return ssat(z3.SignExt(1, a) - z3.SignExt(1, b), a.size())
def allone(c, w): return z3.If(c, z3.BitVecVal((1 << w) - 1, w), z3.BitVecVal(0, w))

# lane-wise operations: result = f(src1, src2) where Go's operand order is  OP src2, src1, dst
BIN = {}
for _n, _w in (('B', 8), ('W', 16), ('D', 32), ('Q', 64)):
    BIN['VPADD' + _n] = (_w, lambda a, b: a + b)
    BIN['VPSUB' + _n] = (_w, lambda a, b: a - b)
    BIN['VPCMPEQ' + _n] = (_w, lambda a, b: allone(a == b, a.size()))
    BIN['VPCMPGT' + _n] = (_w, lambda a, b: allone(a > b, a.size()))
for _n, _w in (('B', 8), ('W', 16), ('D', 32)):
    BIN['VPMINU' + _n] = (_w, umin); BIN['VPMAXU' + _n] = (_w, umax)
    BIN['VPMINS' + _n] = (_w, smin); BIN['VPMAXS' + _n] = (_w, smax)
for _n, _w in (('B', 8), ('W', 16)):
    BIN['VPADDUS' + _n] = (_w, uaddsat); BIN['VPSUBUS' + _n] = (_w, usubsat)
    BIN['VPADDS' + _n] = (_w, saddsat); BIN['VPSUBS' + _n] = (_w, ssubsat)
BIN['VPMULLW'] = (16, lambda a, b: a * b); BIN['VPMULLD'] = (32, lambda a, b: a * b)
BIN['VPAND'] = (64, lambda a, b: a & b); BIN['VPOR'] = (64, lambda a, b: a | b); BIN['VPXOR'] = (64, lambda a, b: a ^ b)
BIN['VPANDN'] = (64, lambda a, b: ~a & b)
PACK = {'VPACKUSWB': (16, 8, usat), 'VPACKSSWB': (16, 8, ssat), 'VPACKUSDW': (32, 16, usat), 'VPACKSSDW': (32, 16, ssat)}
SHIFT = {}
for _n, _w in (('W', 16), ('D', 32), ('Q', 64)):
    SHIFT['VPSLL' + _n] = (_w, lambda a, k: a << k)
    SHIFT['VPSRL' + _n] = (_w, lambda a, k: z3.LShR(a, k))
    SHIFT['VPSRA' + _n] = (_w, lambda a, k: a >> k)
UNPCK = {}
for _n, _w in (('BW', 8), ('WD', 16), ('DQ', 32), ('QDQ', 64)):
    UNPCK['VPUNPCKL' + _n] = (_w, 0); UNPCK['VPUNPCKH' + _n] = (_w, 1)

MEM = re.compile(r'^(-?(?:\d+|0x[0-9a-fA-F]+))?\((\w+)\)(?:\((\w+)\*(\d)\))?$')
FP = re.compile(r'^[\w\u00b7]+\+(\d+)\(FP\)$')
SB = re.compile(r'^([^\s+]+)\+(\d+)\(SB\)$')

def layout(prog, fn):
    """argument frame: [(offset, size, name, component)], total size"""
    out = []; off = 0
    def al(n):
        nonlocal off
        off = (off + n - 1) // n * n
    def put(name, t):
        nonlocal off
        T = prog.ty(t); k = T['k']
        if k == 'slice':
            al(8)
            for c in ('base', 'len', 'cap'): out.append((off, 8, name, c)); off += 8
        elif k in ('ptr', 'func', 'map', 'chan'):
            al(8); out.append((off, 8, name, 'ptr')); off += 8
        elif k in SIGNED or k in UNSIGNED:
            w = prog.kind(t)[1] // 8
            al(w); out.append((off, w, name, 'val')); off += w
        elif k == 'bool':
            out.append((off, 1, name, 'val')); off += 1
        else: raise Unsupported('argument of type ' + T['s'])
    for p in fn.params: put(p['n'], p['t'])
    al(8)
    nargs = len(out)
    for n, r in enumerate(fn.results): put(('res', n), r['t'])
    return out, off, nargs

class AsmVerifier(Verifier):
    def __init__(self, prog, contracts, root, con, initmem, opts=None, pkg=None):
        super().__init__(prog, contracts, root, con, initmem, opts)
        self.pkg = pkg
        self.spec.realarith = True
        self.ground.arith = True
        self.ground.revealct = True
        self.tables = {}

    # -------------------------------------------------------------- verification of one function
    def verify(self, fn, splitsets):
        name = fn.short
        if self.pkg is None or name not in self.pkg.fns:
            raise Unsupported('no assembly for %s%s' % (name, ' (%s)' % self.pkg.error if self.pkg and self.pkg.error else ''))
        ins, frame, argsize = self.pkg.fns[name]
        self.fn = fn
        con = self.con
        if len(con.params) != len(fn.params): raise Unsupported('the contract has %d parameters, the function %d' % (len(con.params), len(fn.params)))
        lay, total, nargs = layout(self.prog, fn)
        st = State()
        self.cur = st
        self.limit = {}
        args = []
        rename = {}
        for p, n in zip(fn.params, con.params):
            T = self.prog.ty(p['t'])
            rename[p['n']] = n
            if T['k'] == 'slice':
                kd, w = self.prog.kind(T['elem'])
                obj = ('p', n)
                st.mem[obj] = self.content(n, w, False)
                L = z3.Int('len(%s)' % n); C = z3.Int('cap(%s)' % n)
                st.assume(L >= 0); st.assume(L <= C); st.assume(C <= self.lenmax * (4 if w == 8 and self.prog.wordbits == 32 else 1))
                args.append(Slice(obj, (), 0, L, C))
            elif T['k'] == 'ptr':
                args.append(Ptr(('t', n)))
            else:
                a, fs = self.symval(p['t'], n)
                for f in fs: st.assume(f)
                args.append(a)
        self.args = args
        self.pre = self.snapshot(st)
        env = self.env0 = self.envof(fn, con, args, self.pre)
        for r in con.requires:
            if r.e[0] == 'call' and r.e[1] in ('ENCTABLE', 'DECTABLE', 'LENTABLE'):
                self.tables[('t', r.e[2][0][1])] = r.e[1][:3]
                continue
            st.assume(self.evl.ev(r.e, env))
        self.modranges = []
        for e in con.modifies:
            s, lo, hi = self.modrange(e, env)
            self.modranges.append((s.obj, lo, hi))
        if self.check(st) == z3.unsat: return 0
        self.frameslots = {}
        for n, (off, size, who, part) in enumerate(lay):
            self.frameslots[off] = (size, who, part, n < nargs)
        self.res = {}
        self.argtotal = total
        self.byname = {p['n']: a for p, a in zip(fn.params, args)}
        self.kinds = {p['n']: p['t'] for p in fn.params}
        self.oblige(st, 'mem', 'frame', 'argument frame size in the TEXT directive', argsize is None or argsize == total, 'TEXT ' + name)
        if frame != 0: raise Unsupported('stack frame in ' + name)
        self.want = None
        for c in con.ensures:
            if c.e[0] == 'cmp' and c.e[1] == '==' and c.e[2] == ('var', (con.res or ['result'])[0]):
                self.want = z3.simplify(zbv(self.evl.ev(c.e[3], env), 16))
        self.regs = {}; self.x = {}
        done = False
        for i in ins:
            if i.op == ':': continue
            if i.op == 'RET':
                done = True; break
            self.steps += 1
            self.step(st, i)
        if not done: raise Unsupported('no RET')
        self.paths = 1
        self.nfinished = 1
        vals = []
        for n, r in enumerate(fn.results):
            v = self.res.get(n)
            if v is None:
                self.oblige(st, 'func', 'post', 'result is stored', False, name)
                v = fresh_bv('res', self.prog.kind(r['t'])[1])
            vals.append(v)
        env = self.envof(fn, con, args, self.snapshot(st), self.pre, vals)
        for c in con.ensures:
            if c.e[0] == 'forall':
                _, var, a, b, body = c.e
                lo, hi = self.evl.ev(a, env), self.evl.ev(b, env)
                self.oblige(st, c.tag, 'post', 'range of: ' + c.text, land(icmp('==', lo, 0), icmp('<=', hi, 16)), name)
                for k in range(16):
                    g = icmp('<', k, hi)
                    if g is False: break
                    self.oblige(st, c.tag, 'post', c.text, lor(lnot(g), self.evl.ev(body, env.bind(var, k))), name)
            else:
                self.oblige(st, c.tag, 'post', c.text, self.evl.ev(c.e, env), name)
        return 1

    # -------------------------------------------------------------- registers and memory
    def fresh(self, w): return fresh_bv('undef', w)
    def reg(self, r):
        v = self.regs.get(r)
        if v is None: v = self.regs[r] = self.fresh(64)
        return v
    def regbv(self, r):
        v = self.reg(r)
        if isinstance(v, APtr): raise Unsupported('arithmetic on a pointer')
        return v
    def toint(self, e):
        """a 64-bit vector as an offset"""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            n = e.as_long()
            return n - (1 << 64) if n >> 63 else n
        k = e.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            r = 0; w = 0
            for p in reversed(e.children()):
                r = iadd(r, imul(1 << w, self.leaf(p)))
                w += p.size()
            return r
        if k == z3.Z3_OP_ZERO_EXT: return self.leaf(e.arg(0))
        return self.leaf(e)
    def leaf(self, p):
        if z3.is_bv_value(p): return p.as_long()
        if z3.is_app(p) and p.decl().name() == 'SZB': return S.SZ(p.arg(0))
        return z3.BV2Int(p)
    def addr(self, st, a, n, i, write=False):
        """(object, offset) of a memory operand of n bytes"""
        m = FP.match(a)
        if m: return ('fp',), int(m.group(1))
        m = SB.match(a)
        if m: return ('d', m.group(1)), int(m.group(2))
        m = MEM.match(a)
        if not m: raise Unsupported('operand %r (%s)' % (a, i.pos()))
        off = int(m.group(1), 0) if m.group(1) else 0
        p = self.reg(m.group(2))
        if m.group(3):
            q = self.reg(m.group(3)); sc = int(m.group(4))
            if isinstance(q, APtr) and not isinstance(p, APtr) and sc == 1: p, q = q, p
            if isinstance(q, APtr): raise Unsupported('address of two pointers')
            off = iadd(off, imul(sc, self.toint(q)))
        if not isinstance(p, APtr): raise Unsupported('address is not a pointer (%s)' % i.pos())
        return p.obj, iadd(p.off, off)
    def load(self, st, a, n, i):
        """n bytes: list of byte terms, or a Row"""
        obj, off = self.addr(st, a, n, i)
        if obj == ('fp',):
            for o, (size, who, part, isarg) in self.frameslots.items():
                if o <= off and off + n <= o + size:
                    if part == 'val':
                        v = self.byname.get(who) if isarg else self.res.get(who[1])
                        if v is None: return [self.fresh(8) for _ in range(n)]
                        v = zbv(v, 8 * size) if z3.is_bv(v) or isc(v) else None
                        if v is None: raise Unsupported('signed argument')
                        return [z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)) for k in range(off - o, off - o + n)]
                    raise Unsupported('load of %s of %s' % (part, who))
            # several adjacent scalars, or outside the frame
            self.oblige(st, 'mem', 'load', 'load stays within the argument frame', 0 <= off and off + n <= self.argtotal, i.pos())
            return [self.fresh(8) for _ in range(n)]
        if obj[0] == 'd':
            d = self.pkg.data.get(obj[1])
            size = (d or {}).get('size', 0)
            self.oblige(st, 'mem', 'load', 'load stays within %s' % obj[1], d is not None and isc(off) and 0 <= off and off + n <= size, i.pos())
            return [B8((d or {}).get(off + k, 0)) for k in range(n)]
        if obj[0] == 't':
            kind = self.tables.get(obj)
            if kind is None: raise Unsupported('unknown table')
            size = 256 if kind == 'LEN' else 4096
            self.oblige(st, 'mem', 'load', 'load stays within the table %s' % obj[1], land(icmp('<=', 0, off), icmp('<=', iadd(off, n), size)), i.pos())
            if kind == 'LEN':
                b = self.rowindex(off, 1)
                if b is None or n != 1: return [self.fresh(8) for _ in range(n)]
                return [S.SZB(b)]
            b = self.rowindex(off, 16)
            if b is None or n != 16: return [self.fresh(8) for _ in range(n)]
            return Row(kind, b)
        s = self.slot(obj)
        c = st.mem[obj]
        es = c.w // 8
        self.oblige(st, 'mem', 'load', 'load stays within %s' % obj[1], land(icmp('<=', 0, off), icmp('<=', iadd(off, n), imul(es, s.len))), i.pos())
        if es == 1: return [zbv(c.rd(iadd(off, k)), 8) for k in range(n)]
        if not isc(off): raise Unsupported('load at a symbolic offset of words')
        return [(z3.Extract(8 * ((off + k) % es) + 7, 8 * ((off + k) % es), zbv(c.rd((off + k) // es), c.w))) for k in range(n)]
    def slot(self, obj):
        for a in self.args:
            if isinstance(a, Slice) and a.obj == obj: return a
        raise Unsupported('object %s' % (obj,))
    def rowindex(self, off, scale):
        """the byte b with off == scale * b"""
        if isc(off): return B8(off // scale) if off % scale == 0 and 0 <= off // scale < 256 else None
        e = z3.simplify(off)
        if scale != 1:
            if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() == scale: e = e.arg(1)
            else: return None
        if e.decl().kind() == z3.Z3_OP_BV2INT and e.arg(0).size() == 8: return e.arg(0)
        if e.decl().kind() == z3.Z3_OP_BV2INT and e.arg(0).size() > 8:
            b = e.arg(0)
            lo = z3.simplify(z3.Extract(7, 0, b))
            if self.must(self.cur, z3.Extract(b.size() - 1, 8, b) == 0): return lo
        return None
    def store(self, st, a, bs, i):
        n = len(bs)
        obj, off = self.addr(st, a, n, i, True)
        if obj == ('fp',):
            for o, (size, who, part, isarg) in self.frameslots.items():
                if not isarg and o <= off and off + n <= o + size:
                    old = self.res.get(who[1])
                    cur = [z3.Extract(8 * k + 7, 8 * k, old) for k in range(size)] if old is not None else [self.fresh(8) for _ in range(size)]
                    cur[off - o:off - o + n] = bs
                    self.res[who[1]] = z3.simplify(z3.Concat(*cur[::-1])) if size > 1 else cur[0]
                    return
            self.oblige(st, 'mem', 'store', 'store to the frame goes to a result', False, i.pos())
            return
        if obj[0] in ('d', 't'):
            self.oblige(st, 'frame', 'store', 'tables and constants are not written', False, i.pos())
            return
        s = self.slot(obj)
        c = st.mem[obj]
        es = c.w // 8
        self.oblige(st, 'mem', 'store', 'store stays within %s' % obj[1], land(icmp('<=', 0, off), icmp('<=', iadd(off, n), imul(es, s.len))), i.pos())
        ok = False
        for o, lo, hi in self.modranges:
            if o == obj: ok = lor(ok, land(icmp('<=', imul(es, lo), off), icmp('<=', iadd(off, n), imul(es, hi))))
        self.oblige(st, 'frame', 'store', 'only what the contract lists is written', ok, i.pos())
        if es == 1:
            for k, b in enumerate(bs): c = c.wr(iadd(off, k), b)
        else:
            if not isc(off): raise Unsupported('store of words at a symbolic offset')
            d = {}
            for k, b in enumerate(bs): d.setdefault((off + k) // es, {})[(off + k) % es] = b
            for e, parts in d.items():
                old = zbv(c.rd(e), c.w)
                cur = [parts.get(k, z3.Extract(8 * k + 7, 8 * k, old)) for k in range(es)]
                c = c.wr(e, join(cur))
        st.mem[obj] = c

    # -------------------------------------------------------------- instructions
    def xreg(self, a):
        v = self.x.get(a)
        if v is None: v = self.x[a] = [self.fresh(8) for _ in range(16)]
        return v
    def xsrc(self, st, a, i):
        if re.match(r'^X\d+$', a):
            v = self.xreg(a)
        else: v = self.load(st, a, 16, i)
        return v
    def xb(self, st, a, i):
        v = self.xsrc(st, a, i)
        if isinstance(v, Row): return self.rowbytes(v)
        return v
    def rowbytes(self, r):
        if not z3.is_bv_value(r.b): return [self.fresh(8) for _ in range(16)]
        c = r.b.as_long(); ls = lens(c)
        if r.kind == 'ENC':
            w = [4 * j + b for j in range(4) for b in range(ls[j])]
            return [B8(x) for x in w] + [self.fresh(8) for _ in range(16 - len(w))]
        out = []; off = 0
        for j in range(4):
            for b in range(4): out.append(B8(off + b) if b < ls[j] else self.fresh(8) | B8(128))
            off += ls[j]
        return out
    def imm(self, a):
        if not a.startswith('$'): raise Unsupported('immediate expected')
        return int(a[1:], 0)
    def gpsrc(self, st, a, w, i):
        """a w-bit source operand"""
        if a.startswith('$'): return z3.BitVecVal(self.imm(a) & ((1 << w) - 1), w)
        if a in GP8:
            r, sh = GP8[a]
            return z3.simplify(z3.Extract(sh + 7, sh, self.regbv(r)))
        if a in GP:
            return z3.simplify(z3.Extract(w - 1, 0, self.regbv(a)))
        bs = self.load(st, a, w // 8, i)
        return z3.simplify(z3.Concat(*bs[::-1])) if len(bs) > 1 else bs[0]
    def gpset(self, st, a, v, i):
        """write v; 32-bit results clear the upper half, narrower ones keep the rest"""
        w = v.size()
        if a in ('BP', 'SP', 'R14') : raise Unsupported('write to ' + a)
        if a in GP8 and w == 8:
            r, sh = GP8[a]; old = self.regbv(r)
            parts = [z3.Extract(63, sh + 8, old), v] + ([z3.Extract(sh - 1, 0, old)] if sh else [])
            self.regs[r] = z3.simplify(z3.Concat(*parts))
        elif a in GP:
            if w == 64: self.regs[a] = z3.simplify(v)
            elif w == 32: self.regs[a] = z3.simplify(z3.ZeroExt(32, v))
            else: self.regs[a] = z3.simplify(z3.Concat(z3.Extract(63, w, self.regbv(a)), v))
        else:
            self.store(st, a, [z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)) for k in range(w // 8)], i)
    def isptr(self, a): return a in GP and isinstance(self.reg(a), APtr)

    def step(self, st, i):
        op, a = i.op, i.args
        if any(x in ('AH', 'BH', 'CH', 'DH') for x in a) and (re.search(r'Q(ZX|SX)?$', op) or any(re.search(r'\bR\d+|^(SI|DI|BP|SP)B$', x) for x in a)):
            raise Unsupported('high byte register in an instruction with a REX prefix (%s)' % i.pos())     # the assembler encodes another register
        if op in ('NOP', 'VZEROUPPER', 'PCALIGN', 'PCDATA', 'FUNCDATA', 'NO_LOCAL_POINTERS'): return
        if op == 'MOVQ':
            if a[0] in GP and a[1] in GP:
                self.noreserved(a[1]); self.regs[a[1]] = self.reg(a[0]); return
            m = FP.match(a[0])
            if m and a[1] in GP:
                sl = self.frameslots.get(int(m.group(1)))
                if sl and sl[2] in ('base', 'ptr') and sl[3]:
                    self.noreserved(a[1])
                    v = self.byname[sl[1]]
                    self.regs[a[1]] = APtr(v.obj, 0)
                    return
                if sl and sl[2] in ('len', 'cap') and sl[3]:
                    self.noreserved(a[1])
                    v = self.byname[sl[1]]
                    self.regs[a[1]] = z3.Int2BV(zi(v.len if sl[2] == 'len' else v.cap), 64)
                    return
            if a[0] in GP and re.match(r'^X\d+$', a[1]): op = 'VMOVQ'
            elif re.match(r'^X\d+$', a[0]): op = 'VMOVQ'
        m = re.match(r'^MOV([BWLQ])$', op)
        if m:
            w = {'B': 8, 'W': 16, 'L': 32, 'Q': 64}[m.group(1)]
            if a[0].startswith('$') and w == 64 and a[1] in GP:
                self.gpset(st, a[1], z3.BitVecVal(self.imm(a[0]) & ((1 << 64) - 1), 64), i); return
            # Go's MOVB/MOVW between registers are plain narrow moves
            self.gpset(st, a[1] if not (w == 8 and a[1] in GP) else a[1], self.gpsrc(st, a[0], w, i), i); return
        m = re.match(r'^MOV([BWL])([WLQ])(ZX|SX)$', op)
        if m:
            w = {'B': 8, 'W': 16, 'L': 32}[m.group(1)]; t = {'W': 16, 'L': 32, 'Q': 64}[m.group(2)]
            v = self.gpsrc(st, a[0], w, i)
            self.gpset(st, a[1], z3.ZeroExt(t - w, v) if m.group(3) == 'ZX' else z3.SignExt(t - w, v), i); return
        m = re.match(r'^(ADD|SUB|AND|OR|XOR|SHL|SHR|SAR|IMUL)([WLQ])$', op)
        if m and len(a) == 2:
            w = {'W': 16, 'L': 32, 'Q': 64}[m.group(2)]
            o = m.group(1); cm = 63 if w == 64 else 31
            if w == 64 and o in ('ADD', 'SUB') and (self.isptr(a[0]) or self.isptr(a[1])):
                self.noreserved(a[1])
                if o == 'ADD':
                    p, q = (a[1], a[0]) if self.isptr(a[1]) else (a[0], a[1])
                    if self.isptr(q): raise Unsupported('sum of pointers')
                    P_ = self.reg(p)
                    self.regs[a[1]] = APtr(P_.obj, iadd(P_.off, self.toint(self.gpsrc(st, q, 64, i))))
                else:
                    P_ = self.reg(a[1])
                    if self.isptr(a[0]) or not isinstance(P_, APtr): raise Unsupported('difference of pointers')
                    self.regs[a[1]] = APtr(P_.obj, isub(P_.off, self.toint(self.gpsrc(st, a[0], 64, i))))
                return
            if o == 'XOR' and a[0] == a[1]:
                self.gpset(st, a[1], z3.BitVecVal(0, w), i); return
            y = self.gpsrc(st, a[1], w, i)
            if o in ('SHL', 'SHR', 'SAR') and a[0] in ('CL', 'CX'):
                s = self.gpsrc(st, 'CL', 8, i)
                x = z3.simplify(z3.ZeroExt(w - 8, s & cm))
            elif o in ('SHL', 'SHR', 'SAR'): x = z3.BitVecVal(self.imm(a[0]) & cm, w)
            else: x = self.gpsrc(st, a[0], w, i)
            f = {'ADD': lambda: y + x, 'SUB': lambda: y - x, 'AND': lambda: y & x, 'OR': lambda: y | x, 'XOR': lambda: y ^ x,
                 'SHL': lambda: y << x, 'SHR': lambda: z3.LShR(y, x), 'SAR': lambda: y >> x, 'IMUL': lambda: y * x}[o]
            self.gpset(st, a[1], f(), i); return
        m = re.match(r'^(INC|DEC|NEG|NOT)([LQ])$', op)
        if m:
            w = 32 if m.group(2) == 'L' else 64
            if self.isptr(a[0]) and w == 64 and m.group(1) in ('INC', 'DEC'):
                P_ = self.reg(a[0]); self.regs[a[0]] = APtr(P_.obj, iadd(P_.off, 1 if m.group(1) == 'INC' else -1)); return
            y = self.gpsrc(st, a[0], w, i)
            self.gpset(st, a[0], {'INC': y + 1, 'DEC': y - 1, 'NEG': -y, 'NOT': ~y}[m.group(1)], i); return
        if op == 'LEAQ':
            self.noreserved(a[1])
            if SB.match(a[0]):
                m = SB.match(a[0]); self.regs[a[1]] = APtr(('d', m.group(1)), int(m.group(2))); return
            m = MEM.match(a[0])
            if m and not self.isptr(m.group(2)) and not (m.group(3) and self.isptr(m.group(3))):
                v = self.regbv(m.group(2)) + z3.BitVecVal(int(m.group(1) or '0', 0) & ((1 << 64) - 1), 64)
                if m.group(3): v = v + self.regbv(m.group(3)) * int(m.group(4))
                self.regs[a[1]] = z3.simplify(v); return
            obj, off = self.addr(st, a[0], 0, i)
            self.regs[a[1]] = APtr(obj, off); return
        if op in ('SHLXQ', 'SHRXQ', 'ANDNQ') : raise Unsupported('instruction ' + op)
        # ------------------------------------------------ vectors
        if any(re.match(r'^[YZ]\d+$', x) for x in a): raise Unsupported('instruction %s on wide vectors' % op)
        if op in ('VLDDQU', 'VMOVDQU', 'VMOVDQA', 'VMOVUPS', 'VMOVUPD', 'MOVOU', 'MOVUPS', 'LDDQU', 'VMOVAPS', 'VMOVAPD', 'MOVO', 'MOVOA', 'MOVAPS', 'MOVAPD'):
            if op in ALIGNED:
                for o in a[:2]:
                    if not re.match(r'^X\d+$', o): self.aligned(st, o, i)
            v = self.xsrc(st, a[0], i)
            if re.match(r'^X\d+$', a[1]): self.x[a[1]] = v
            else: self.store(st, a[1], self.rowbytes(v) if isinstance(v, Row) else v, i)
            return
        if op in ('VMOVD', 'VMOVQ', 'MOVQ', 'MOVL'):
            n = 8 if op.endswith('Q') else 4
            if re.match(r'^X\d+$', a[1]):
                if re.match(r'^X\d+$', a[0]): bs = self.xb(st, a[0], i)[:n]
                elif a[0] in GP:
                    v = self.regbv(a[0]); bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)) for k in range(n)]
                else: bs = self.load(st, a[0], n, i)
                self.x[a[1]] = list(bs) + [B8(0)] * (16 - n); return
            bs = self.xb(st, a[0], i)[:n]
            if a[1] in GP: self.gpset(st, a[1], z3.simplify(z3.Concat(*bs[::-1])), i)
            else: self.store(st, a[1], bs, i)
            return
        m = re.match(r'^VPBROADCAST([BWDQ])$|^VBROADCASTSS$', op)
        if m:
            n = {'B': 1, 'W': 2, 'D': 4, 'Q': 8}[m.group(1)] if m.group(1) else 4
            bs = self.xb(st, a[0], i)[:n] if re.match(r'^X\d+$', a[0]) else self.load(st, a[0], n, i)
            self.x[a[1]] = list(bs) * (16 // n); return
        if op == 'VPSHUFB':
            idx = self.xsrc(st, a[0], i); src = self.xb(st, a[1], i)
            self.x[a[2]] = self.pshufb(st, idx, src, i); return
        if op in BIN:
            w, f = BIN[op]
            x, y = lanes(self.xb(st, a[1], i), w), lanes(self.xb(st, a[0], i), w)
            self.x[a[2]] = unlanes([f(p, q) for p, q in zip(x, y)]); return
        if op in PACK:
            w, n, f = PACK[op]
            x, y = lanes(self.xb(st, a[1], i), w), lanes(self.xb(st, a[0], i), w)
            self.x[a[2]] = unlanes([f(p, n) for p in x + y]); return
        if op in UNPCK:
            w, h = UNPCK[op]
            x, y = lanes(self.xb(st, a[1], i), w), lanes(self.xb(st, a[0], i), w)
            n = len(x) // 2
            r = []
            for k in range(n): r += [x[h * n + k], y[h * n + k]]
            self.x[a[2]] = unlanes(r); return
        if op == 'VPMOVMSKB':
            bs = self.xb(st, a[0], i)
            bits = [z3.simplify(z3.Extract(7, 7, b)) for b in bs]
            v = self.control(st, bits, i)
            self.gpset(st, a[1], z3.simplify(z3.ZeroExt(16, v)), i); return
        if op == 'VPALIGNR':
            k = self.imm(a[0])
            cat = self.xb(st, a[1], i) + self.xb(st, a[2], i) + [B8(0)] * 16
            self.x[a[3]] = (cat + [B8(0)] * 16)[min(k, 32):min(k, 32) + 16]; return
        if op in ('VPSLLDQ', 'VPSRLDQ'):
            k = min(16, self.imm(a[0])); b = self.xb(st, a[1], i)
            self.x[a[2]] = ([B8(0)] * k + b[:16 - k]) if op == 'VPSLLDQ' else (b[k:] + [B8(0)] * k); return
        if op in SHIFT and a[0].startswith('$'):
            w, f = SHIFT[op]; k = self.imm(a[0]); ls = lanes(self.xb(st, a[1], i), w)
            if k >= w and not op.startswith('VPSRA'): self.x[a[2]] = [B8(0)] * 16
            else: self.x[a[2]] = unlanes([f(l, z3.BitVecVal(min(k, w - 1), w)) for l in ls])
            return
        if op == 'VPSHUFD':
            k = self.imm(a[0]); ls = lanes(self.xb(st, a[1], i), 32)
            self.x[a[2]] = unlanes([ls[(k >> (2 * j)) & 3] for j in range(4)]); return
        if op in ('VPSHUFLW', 'VPSHUFHW'):
            k = self.imm(a[0]); ls = lanes(self.xb(st, a[1], i), 16)
            h = 4 if op == 'VPSHUFHW' else 0
            r = list(ls)
            for j in range(4): r[h + j] = ls[h + ((k >> (2 * j)) & 3)]
            self.x[a[2]] = unlanes(r); return
        if op in ('VPBLENDW', 'VPBLENDD'):
            k = self.imm(a[0]); w = 16 if op == 'VPBLENDW' else 32
            x, y = lanes(self.xb(st, a[2], i), w), lanes(self.xb(st, a[1], i), w)
            self.x[a[3]] = unlanes([y[j] if (k >> j) & 1 else x[j] for j in range(len(x))]); return
        m = re.match(r'^VPEXTR([BWDQ])$', op)
        if m:
            n = {'B': 1, 'W': 2, 'D': 4, 'Q': 8}[m.group(1)]
            k = self.imm(a[0]) % (16 // n); bs = self.xb(st, a[1], i)[n * k:n * k + n]
            v = z3.simplify(z3.Concat(*bs[::-1])) if n > 1 else bs[0]
            if a[2] in GP: self.gpset(st, a[2], z3.ZeroExt(32 - 8 * n, v) if n < 4 else v, i)
            else: self.store(st, a[2], bs, i)
            return
        raise Unsupported('instruction %s (%s)' % (op, i.pos()))
    def aligned(self, st, o, i):
        # slices are aligned to their elements only; a data symbol of 16 bytes or more is aligned by the linker
        m = SB.match(o)
        ok = False
        if m and m.group(1) in self.pkg.data: ok = self.pkg.data[m.group(1)].get('size', 0) >= 16 and int(m.group(2)) % 16 == 0
        self.oblige(st, 'panic', 'align', '%s of a 16-byte aligned address' % i.op, ok, i.pos(), assume=False)
    def noreserved(self, r):
        if r in ('BP', 'SP', 'R14'): raise Unsupported('write to ' + r)

    def pshufb(self, st, idx, src, i):
        if isinstance(idx, Row) and not z3.is_bv_value(idx.b):
            ws = lanes(src, 32)
            if idx.kind == 'ENC':
                # lemma (checked for every control byte): a row gathers the significant bytes
                # of four integers if the control byte is theirs
                if self.must(st, idx.b == S.CT(*ws)) :
                    sz = S.SZ(idx.b)
                    return [z3.If(sz > k, S.PB(*ws, z3.IntVal(k)), self.fresh(8)) for k in range(16)]
                return [self.fresh(8) for _ in range(16)]
            # lemma (checked for every control byte): a row spreads the bytes from position p
            p = self.source(st, src)
            if p is not None:
                obj, off = p
                return unlanes([self.spec.dec(self.pre(obj), off, idx.b, j) for j in range(4)])
            return [self.fresh(8) for _ in range(16)]
        if isinstance(idx, Row): idx = self.rowbytes(idx)
        out = []
        for b in idx:
            b = z3.simplify(b)
            if z3.is_bv_value(b):
                n = b.as_long()
                out.append(B8(0) if n & 128 else src[n & 15])
                continue
            r = src[15]
            for k in range(14, -1, -1): r = z3.If(z3.Extract(3, 0, b) == k, src[k], r)
            out.append(z3.simplify(z3.If(z3.Extract(7, 7, b) == 1, B8(0), r)))
        return out
    def source(self, st, src):
        """(object, offset) if these are sixteen consecutive bytes of an input"""
        f = src[0]
        for a in self.args:
            if isinstance(a, Slice):
                c = self.pre(a.obj)
                if c.w == 8 and z3.is_app(f) and f.num_args() == 1 and f.decl().name() == c.key:
                    off = simp(f.arg(0))
                    if all(zbv(c.rd(iadd(off, k)), 8).eq(z3.simplify(src[k])) or zbv(c.rd(iadd(off, k)), 8).eq(src[k]) for k in range(16)): return a.obj, off
        return None
    def control(self, st, bits, i):
        """the sixteen sign bits as a word; expressed as the control word when they are proved to be it"""
        raw = z3.simplify(z3.Concat(*bits[::-1]))
        if self.want is None or self.want.size() != 16: return raw
        o = Obl(self.root, 'func', 'lemma', 'sign bits form the control word', i.pos())
        t0 = time.time()
        cts, todo = [], [self.want]
        while todo:
            e = todo.pop()
            if e.decl().eq(S.CT): cts.append(e == S.ct_bv(e.children()))
            else: todo += e.children()
        for k in range(16):
            s = z3.Solver(); s.set('timeout', 10000)
            s.add(z3.Not(bits[k] == z3.Extract(k, k, self.want)))
            s.add(*cts)
            if s.check() != z3.unsat: return raw
        o.status = 'proved'; o.backend = 'z3'; o.time = time.time() - t0
        self.obls.append(o)
        return self.want

def row_lemmas(prog=None):
    """the two facts about table rows used at VPSHUFB, for every control byte"""
    from spec import Spec
    obls = []
    for kind in ('ENC', 'DEC'):
        for c in range(256):
            o = Obl('lemma.%s row' % kind, 'func', 'lemma', 'VPSHUFB with row %d of a table that satisfies its specification' % c, '')
            sp = Spec(True)
            ls = lens(c)
            src = [z3.BitVec('b%d' % k, 8) for k in range(16)]
            v = AsmVerifier.__new__(AsmVerifier)
            row = AsmVerifier.rowbytes(v, Row(kind, B8(c)))
            out = AsmVerifier.pshufb(v, None, row, src, None)
            t0 = time.time()
            s = z3.Solver()
            if kind == 'ENC':
                ws = lanes(src, 32)
                for j in range(4):
                    s.add(S.code_bv(ws[j]) == ls[j] - 1)
                    for g, q in sp.cached(S.code_fv, ws[j]).leaves:
                        if q == ls[j] - 1: s.add(g)
                sp.uniq = lambda f, ls=ls, ws=ws, sp=sp: next((ls[j] - 1 for j in range(4) if f is sp.cached(S.code_fv, ws[j])), f)
                goals = [out[k] == sp.pb(ws, k) for k in range(sum(ls))]
            else:
                cont = SeqC(8, lambda i: src[i])
                goals = [x == sp.dec(cont, 0, c, j) for j, x in enumerate(lanes(out, 32))]
            s.add(z3.Not(z3.And(*goals)))
            r = s.check()
            o.status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
            o.backend = 'z3'; o.time = time.time() - t0
            obls.append(o)
    return obls
