# Behaviour-preserving rewrites of the generators, tables, dispatch, GetMode, the portable stand-ins and the assembly.
import re
EA, DA, GT, SH = 'pkg/encode/main/asm.go', 'pkg/decode/main/asm.go', 'pkg/shared/main/gentables.go', 'pkg/shared/asm.go'
ES, DS = 'pkg/encode/encode_amd64.s', 'pkg/decode/decode_amd64.s'
E, EM, EB = 'pkg/encode/encode.go', 'pkg/encode/encode_amd64.go', 'pkg/encode/encode_base.go'
D, DM, DB = 'pkg/decode/decode.go', 'pkg/decode/decode_amd64.go', 'pkg/decode/decode_base.go'
SG = 'pkg/shared/gen.go'
RB = 'pkg/stream/reader/reader_base.go'
W, R = 'pkg/stream/writer/writer.go', 'pkg/stream/reader/reader.go'
VARIANTS = []
def v(id, files, props):
    VARIANTS.append({'id': id, 'files': files, 'fns': None, 'props': props})

v('g-sizes', {GT: [('fn', 'sizes', '''
func sizes(control uint8) (uint8, uint8, uint8, uint8) {
	at := func(k uint) uint8 { return control>>(2*k)&3 + 1 }
	return at(0), at(1), at(2), at(3)
}
''')]}, ['C14'])
v('g-fill', {GT: [('fn', 'genEncodeShuffleTable', '''
func genEncodeShuffleTable(out io.Writer) error {
	_, _ = fmt.Fprintf(out, "\\nvar EncodeShuffleTable *[256][16]uint8 = &[256][16]uint8{\\n")
	tabber := newLineAfter(1)
	for i := 0; i < MaxControlByte; i++ {
		one, two, three, four := sizes(uint8(i))
		_, _ = fmt.Fprintf(out, commentStr, i, i, i, one, two, three, four)
		if _, err := fmt.Fprintf(out, "\\t{"); err != nil {
			return errors.Wrapf(err, "failed to write encode shuffle table")
		}

		var row [16]interface{}
		for k := range row {
			row[k] = 0xff
		}
		n := 0
		for q, size := range [4]uint8{one, two, three, four} {
			for j := 0; j < int(size); j++ {
				row[n] = 4*q + j
				n++
			}
		}
		if _, err := fmt.Fprintf(out, shuffleFmtStr, row[:]...); err != nil {
			return errors.Wrapf(err, "failed to write per num len: %d", i)
		}
		tabber(out)
	}
	_, _ = fmt.Fprintln(out, "}")
	return nil
}
''')]}, ['C14'])
v('g-main', {GT: [('fn', 'main', '''
func main() {
	flag.Parse()

	if *fOut == "" {
		log.Fatalf("outfile cannot be empty")
	}

	out := &bytes.Buffer{}

	_, _ = fmt.Fprintln(out, "// Code generated by gentables. DO NOT EDIT.")
	_, _ = fmt.Fprintf(out, "\\npackage %s\\n", *fPackage)

	for name, gen := range map[string]func(io.Writer) error{
		"per num length": genPerNumLengthTable,
		"sum length":     genPerQuadLengthTable,
		"encode shuffle": genEncodeShuffleTable,
		"decode shuffle": genDecodeShuffleTable,
	} {
		if err := gen(out); err != nil {
			log.Fatalf("failed to gen %s table", name)
		}
	}

	final, err := format.Source(out.Bytes())
	if err != nil {
		log.Fatalf("failed to go fmt output")
	}
	if err := os.WriteFile(*fOut, final, 0666); err != nil {
		log.Fatalf("failed to write generated tables to file")
	}
}
'''), ('sub', '\t"github.com/theMPatel/streamvbyte-simdgo/pkg/util"\n', '')]}, ['C14'])
v('g-decode-order', {DA: [('sub', '''	firstFour := XMM()
	secondFour := XMM()
	VLDDQU(operand.Mem{Base: firstBlock}, firstFour)
	VLDDQU(operand.Mem{Base: secondBlock}, secondFour)

	VPSHUFB(shuffleA, firstFour, firstFour)
	VPSHUFB(shuffleB, secondFour, secondFour)
''', '''	firstFour := XMM()
	VLDDQU(operand.Mem{Base: firstBlock}, firstFour)
	VPSHUFB(shuffleA, firstFour, firstFour)

	secondFour := XMM()
	VMOVDQU(operand.Mem{Base: secondBlock}, secondFour)
	VPSHUFB(shuffleB, secondFour, secondFour)
''')]}, ['C14'])
v('g-undo', {DA: [('fn', 'undoDelta', '''
func undoDelta(four, prev reg.VecVirtual) {
	adder := XMM()                       // [A B C D]
	VPADDD(four, prev, prev)             // not used before the shifts below
	VPSUBD(four, prev, prev)             // [P P P P]
	VPSLLDQ(operand.Imm(4), four, adder) // [- A  B  C]
	VPADDD(adder, four, four)            // [A AB BC CD]
	VPSLLDQ(operand.Imm(8), four, adder) // [- - A AB]
	VPADDD(four, adder, four)
	VPADDD(prev, four, four)
}
''')]}, ['C14'])
v('g-shared', {SH: [('fn', 'LenValueAddr', '''
func LenValueAddr(ctrl reg.GPVirtual, upper bool, lenTableParam string) (operand.Mem, reg.GPVirtual) {
	lenTableBase := Load(Param(lenTableParam), GP64())
	index := controlIndex(ctrl, upper)
	return operand.Mem{Base: lenTableBase, Index: index, Scale: 1}, index
}

func controlIndex(ctrl reg.GPVirtual, upper bool) reg.GPVirtual {
	index := GP64()
	if upper {
		MOVWQZX(ctrl.As16(), index)
		SHRQ(operand.Imm(8), index)
	} else {
		MOVBQZX(ctrl.As8L(), index)
	}
	return index
}
'''), ('fn', 'CalculateShuffleAddrFromCtrl', '''
func CalculateShuffleAddrFromCtrl(shuffleBase reg.Register, ctrl reg.GPVirtual, upper bool) operand.Mem {
	addr := controlIndex(ctrl, upper)
	SHLQ(operand.Imm(4), addr)
	ADDQ(shuffleBase, addr)
	return operand.Mem{Base: addr}
}
''')]}, ['C14'])
v('g-store-late', {EA: [('sub', '	Store(ctrl.As16(), Return(pR))\n\n', '\n'), ('sub', '	RET()\n}', '	Store(ctrl.As16(), Return(pR))\n	RET()\n}')]}, ['C14'])
v('g-masks', {EA: [('sub', '''	VPBROADCASTW(mask1111R, onesMask)
	VPBROADCASTW(mask7F00R, sevenFzerozero)
''', '''	VMOVDQU(mask1111R, onesMask)
	VMOVDQU(mask7F00R, sevenFzerozero)
'''), ('sub', 'ConstData("mask0101", operand.U16(0x0101))', 'wide("mask0101", 0x0101010101010101)'), ('sub', 'ConstData("mask7F00", operand.U16(0x7F00))', 'wide("mask7F00", 0x7F007F007F007F00)'),
  ('app', '''
func wide(name string, v uint64) operand.Mem {
	m := GLOBL(name, NOPTR|RODATA)
	DATA(0, operand.U64(v))
	DATA(8, operand.U64(v))
	return m
}
''')]}, ['C14'])
v('g-shr', {SH: [('sub', '''		MOVWQZX(ctrl.As16(), addr)
		SHRQ(operand.Imm(8), addr)
''', '''		MOVWLZX(ctrl.As16(), addr.As32())
		SHRL(operand.Imm(8), addr.As32())
''')]}, ['C14'])
v('g-const', {EA: [('sub', 'operand.Imm(12)', 'operand.Imm(lane3)'), ('sub', 'const (\n', 'const (\n\tlane3 = 3 * 4\n', 1)]}, ['C14'])
AS = ['C06', 'C12', 'C10']
v('a-order', {ES: [('sub', '''	VLDDQU       (AX), X0
	VLDDQU       16(AX), X1
	VPBROADCASTW mask0101<>+0(SB), X2
	VPBROADCASTW mask7F00<>+0(SB), X3
''', '''	VPBROADCASTW mask7F00<>+0(SB), X3
	VPBROADCASTW mask0101<>+0(SB), X2
	VLDDQU       16(AX), X1
	VLDDQU       (AX), X0
''')]}, AS)
v('a-regs', {ES: [('sub', 'X4', 'X9'), ('sub', 'X5', 'X12'), ('sub', 'DX', 'R8'), ('sub', 'BX', 'R9')]}, AS)
v('a-dregs', {DS: [('sub', 'X2', 'X14'), ('sub', 'X3', 'X7'), ('sub', 'DX', 'R10'), ('sub', 'SI', 'R11')]}, ['C07', 'C09', 'C12'])
v('a-dmov', {DS: [('sub', 'VLDDQU  (CX), X0', 'VMOVDQU (CX), X0'), ('sub', 'SHRQ    $0x08, BX', 'SHRL $0x08, BX'), ('sub', 'VPADDD       X0, X2, X0\n	VPADDD       X0, X3, X0', 'VPADDD       X3, X0, X0\n	VPADDD       X2, X0, X0')]}, ['C07', 'C09', 'C12'])
v('a-lea', {DS: [('sub', '''	MOVBQZX AL, AX
	ADDQ    DI, AX
	MOVBQZX (AX), AX
	ADDQ    AX, SI
''', '''	MOVBQZX AL, AX
	MOVBQZX (DI)(AX*1), AX
	LEAQ    (SI)(AX*1), SI
''')]}, ['C07', 'C09', 'C12'])
v('a-decl', {EM: [('sub', '''	in []uint32, outBytes []byte,
	shuffle *[256][16]uint8, lenTable *[256]uint8,
) (r uint16)''', '''	in []uint32,
	outBytes []byte,
	shuffle *[256][16]uint8,
	lenTable *[256]uint8) (r uint16)''')]}, AS)
MO = ['C12', 'C18', 'C13']
v('m-switch', {EM: [('fn', 'GetMode', '''
func GetMode() shared.PerformanceMode {
	switch {
	case !cpu.X86.HasAVX, !cpu.X86.HasAVX2:
		return shared.Normal
	default:
		return shared.Fast
	}
}
''')]}, MO)
v('m-var', {DM: [('fn', 'GetMode', '''
func GetMode() shared.PerformanceMode {
	mode := shared.Normal
	if hasAVX := cpu.X86.HasAVX; hasAVX {
		mode = shared.Fast
	}
	return mode
}
''')]}, MO)
v('m-once', {EM: [('fn', 'GetMode', '''
func GetMode() shared.PerformanceMode {
	return mode
}

var mode = detect()

func detect() shared.PerformanceMode {
	if cpu.X86.HasAVX2 && cpu.X86.HasAVX {
		return shared.Fast
	}
	return shared.Normal
}
''')]}, MO)
v('d-dispatch', {E: [('fn', 'init', '''
func init() {
	putImpl, putDeltaImpl = Put8uint32Scalar, Put8uint32DeltaScalar
	if GetMode() != shared.Fast {
		return
	}
	putImpl, putDeltaImpl = Put8uint32Fast, Put8uint32DeltaFast
}
''')]}, MO + ['C06'])
v('d-struct', {D: [('fn', 'init', '''
func init() {
	useFast = GetMode() == shared.Fast
}

var useFast bool
'''), ('fn', 'Get8uint32', '''
func Get8uint32(in []byte, out []uint32, ctrl uint16) {
	if useFast {
		Get8uint32Fast(in, out, ctrl)
		return
	}
	Get8uint32Scalar(in, out, ctrl)
}
'''), ('fn', 'Get8uint32Delta', '''
func Get8uint32Delta(in []byte, out []uint32, ctrl uint16, prev uint32) {
	if useFast {
		Get8uint32DeltaFast(in, out, ctrl, prev)
	} else {
		Get8uint32DeltaScalar(in, out, ctrl, prev)
	}
}
'''), ('re', r'(?s)var \(\n\s*getImpl.*?\n\)\n', '')]}, MO + ['C07'])
v('d-wrap', {EM: [('fn', 'Put8uint32Fast', '''
func Put8uint32Fast(in []uint32, out []byte) uint16 {
	shuffle, lens := shared.EncodeShuffleTable, shared.PerControlLenTable
	ctrl := Put8uint32FastAsm(in, out, shuffle, lens)
	return ctrl
}
''')]}, MO + ['C06', 'C14'])
v('d-readmode', {R: [('fn', 'ReadAll', '''
func ReadAll(count int, stream []byte, out []uint32) {
	read := ReadAllScalar
	if decode.GetMode() == shared.Fast {
		read = ReadAllFast
	}
	read(count, stream, out)
}
''')]}, MO + ['C03'])
v('d-writeswitch', {W: [('fn', 'WriteAll', '''
func WriteAll(in []uint32) []byte {
	switch encode.GetMode() {
	case shared.Fast:
		return WriteAllFast(in)
	case shared.Normal:
		return WriteAllScalar(in)
	}
	return WriteAllScalar(in)
}
''')]}, MO + ['C01'])
v('b-scalar', {EB: [('fn', 'Put8uint32Fast', '''
func Put8uint32Fast(in []uint32, out []byte) uint16 {
	return Put8uint32Scalar(in, out)
}
''')]}, ['C13'])
v('b-msg', {RB: [('sub', 'panic("unreachable")', 'panic(unreachable)'), ('app', 'const unreachable = "unreachable"')],
            DB: [('sub', 'panic("unreachable")', 'unreachable()'), ('app', 'func unreachable() {\n\tpanic("unreachable")\n}')]}, ['C13'])
v('b-mode', {DB: [('fn', 'GetMode', '''
func GetMode() (mode shared.PerformanceMode) {
	return
}
''')]}, ['C13', 'C12'])
v('s-two', {SG: [('fn', 'ControlByteToSizeTwo', '''
func ControlByteToSizeTwo(in uint16) int {
	lower, upper := uint8(in), uint8(in>>8)
	return ControlByteToSize(lower) + ControlByteToSize(upper)
}
''')]}, ['C11', 'C14'])
v('s-calc', {SG: [('fn', 'ControlByteToSize', '''
func ControlByteToSize(in uint8) int {
	size := 4
	for i := 0; i < 4; i++ {
		size += int(in & 3)
		in >>= 2
	}
	return size
}
''')]}, ['C11', 'C03', 'C09'])
v('s-pernum', {SG: [('fn', 'ControlByteToSize', '''
func ControlByteToSize(in uint8) int {
	sum := 0
	for _, n := range PerNumLenTable[in] {
		sum += int(n)
	}
	return sum
}
''')]}, ['C11', 'C03'])
v('s-init', {SG: [('app', '''
// the sizes of all pairs would fit in here; kept for debugging
var pairs [256]int

func init() {
	for i := range pairs {
		pairs[i] = ControlByteToSize(uint8(i))
	}
}
''')]}, ['C11', 'C17'])
v('d-iface', {D: [('fn', 'init', '''
func init() {
	if GetMode() == shared.Fast {
		impl = fastDecoder{}
	}
}

type blockDecoder interface {
	block(in []byte, out []uint32, ctrl uint16)
	delta(in []byte, out []uint32, ctrl uint16, prev uint32)
}

type fastDecoder struct{}

func (fastDecoder) block(in []byte, out []uint32, ctrl uint16) { Get8uint32Fast(in, out, ctrl) }
func (fastDecoder) delta(in []byte, out []uint32, ctrl uint16, prev uint32) {
	Get8uint32DeltaFast(in, out, ctrl, prev)
}

type scalarDecoder struct{}

func (*scalarDecoder) block(in []byte, out []uint32, ctrl uint16) { Get8uint32Scalar(in, out, ctrl) }
func (*scalarDecoder) delta(in []byte, out []uint32, ctrl uint16, prev uint32) {
	Get8uint32DeltaScalar(in, out, ctrl, prev)
}

var impl blockDecoder = &scalarDecoder{}
'''), ('fn', 'Get8uint32', '''
func Get8uint32(in []byte, out []uint32, ctrl uint16) {
	impl.block(in, out, ctrl)
}
'''), ('fn', 'Get8uint32Delta', '''
func Get8uint32Delta(in []byte, out []uint32, ctrl uint16, prev uint32) {
	impl.delta(in, out, ctrl, prev)
}
'''), ('re', r'(?s)var \(\n\s*getImpl.*?\n\)\n', '')]}, MO + ['C07', 'C17'])
v('d-method', {E: [('fn', 'init', '''
func init() {
	putImpl, putDeltaImpl = scalar.put, scalar.putDelta
	if GetMode() == shared.Fast {
		putImpl, putDeltaImpl = Put8uint32Fast, Put8uint32DeltaFast
	}
}

type portable struct{}

var scalar portable

func (portable) put(in []uint32, out []byte) uint16 { return Put8uint32Scalar(in, out) }
func (portable) putDelta(in []uint32, out []byte, prev uint32) uint16 {
	return Put8uint32DeltaScalar(in, out, prev)
}
''')]}, MO + ['C06', 'C17'])
v('d-table', {E: [('fn', 'init', '''
func init() {
	m := GetMode()
	putImpl, putDeltaImpl = puts[m].plain, puts[m].delta
}

var puts = [...]struct {
	plain func(in []uint32, out []byte) uint16
	delta func(in []uint32, out []byte, prev uint32) uint16
}{
	shared.Normal: {Put8uint32Scalar, Put8uint32DeltaScalar},
	shared.Fast:   {Put8uint32Fast, Put8uint32DeltaFast},
}
''')]}, MO + ['C06', 'C17'])
