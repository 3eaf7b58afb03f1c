"""What a run leaves unchecked, for the evidence files."""
BASE = [
    'golang.org/x/tools go/packages and go/ssa 0.x as pinned in frontend/go.mod: the SSA form means what the compiled program does',
    'the Go compiler, assembler and linker',
    'vc/: the verification condition generator (symbolic execution of SSA, loop rule, contract evaluation) and its SSA semantics',
    'z3 (python3-vt)',
    'integer lengths, indices and offsets are mathematical integers; every Go int operation carries a no-overflow obligation, uintN operations are exact modulo 2^N',
    'slices hold at most 2^47 elements (2^28 words or 2^30 bytes on 32-bit architectures); allocation succeeds',
]
ASM = 'vc/asm.py: semantics of the x86-64 instructions used and of the Go assembler\'s operand order and argument frame'
INIT = 'package initialisers are executed symbolically by vc/; CPU feature flags of golang.org/x/sys/cpu are arbitrary booleans that stay constant'
IND = 'induction over the group number (schema); the unfolding of stream offsets and running sums at finitely many groups per query'
CPUMAP = 'vc/asm.py features_of(): the instruction set extension each mnemonic belongs to'
EXT = {
    'math/rand.Uint32': 'math/rand.Uint32 returns an arbitrary uint32 and changes nothing the properties mention',
    'math/rand.Int': 'math/rand.Int returns an arbitrary non-negative int',
    'math/rand.Intn': 'math/rand.Intn(n) returns a number in [0, n)',
    'sort.Slice': 'sort.Slice orders by the given less function (a strict weak order) by swapping elements',
    'sort.Sort': 'sort.Sort orders the elements of a sort.Interface whose Len, Less and Swap give the length, a strict weak order and an exchange',
    'sort.Stable': 'sort.Stable orders the elements of a sort.Interface whose Len, Less and Swap give the length, a strict weak order and an exchange',
    'sort.SliceStable': 'sort.SliceStable orders by the given less function by swapping elements',
}
TOOL = ['vc/text.py: the semantics of strings, byte slices and files, and the contracts of the library functions the tool calls (bytes, strings, bufio, io, os, flag, fmt, log), each listed under assumptions where used',
        'a loop whose trip count is not known is cut with the invariants vc/text.py infers; its termination is not checked for the tool (its loops read standard input or range over lists)']
GENERATE = 'go generate runs the generators as a user would: what they emit on this machine is what they emit'
def base(spec, externs):
    b = list(BASE)
    if spec.get('custom'):
        b = [x for x in BASE if not x.startswith(('integer lengths', 'slices hold'))]
        return b + TOOL + (['vc/content.py: the contracts of bufio.Scanner, strings.TrimPrefix and strings.Join over the ghost text of the lines read'] if spec.get('content') else []) + ['lengths, positions and counters of the tool are mathematical integers']
    if spec.get('trees'): b.append(GENERATE)
    archs = spec.get('archs', ['amd64'])
    if 'amd64' in archs and spec.get('cone', True): b.append(ASM)
    b.append(INIT)
    if spec.get('lemmas'): b.append(IND)
    if 'cpu' in spec['tags']: b.append(CPUMAP)
    return b
def assumptions(spec, externs):
    if spec.get('content'):
        return ['runs in which a system call fails are not judged', 'no line of standard input is longer than bufio.Scanner reads (64 KiB)', 'standard input is its lines as bufio.ScanLines yields them: a final carriage return of a line is not part of it',
                'no other process changes README.md during the run'] + ['%s: the contract in vc/text.py and vc/content.py' % e for e in sorted(externs)]
    if spec.get('custom'):
        return ['a call of a library function that reports an error may have failed for any reason; runs in which a system call fails are not judged (except that refused input must leave the README alone)',
                'what the lines of standard input are is not modelled: any list of lines', 'no other process changes README.md during the run'] + ['%s: the contract in vc/text.py' % e for e in sorted(externs)]
    a = ['goroutines other than the caller do not change the argument slices during a call', 'arguments do not overlap each other unless the contract says so']
    for e in sorted(externs): a.append(EXT.get(e, 'external function %s: no contract beyond its type' % e))
    return a + spec.get('assumptions', [])
