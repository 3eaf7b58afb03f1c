# Behaviour-preserving rewrites of pkg/encode, pkg/decode, pkg/shared.
E, EA = 'pkg/encode/encode.go', 'pkg/encode/encode_amd64.go'
D, DA = 'pkg/decode/decode.go', 'pkg/decode/decode_amd64.go'
G, T = 'pkg/shared/gen.go', 'pkg/shared/tables.go'
VARIANTS = []
PUT = ['encode.Put4uint32Scalar', 'encode.Put4uint32DeltaScalar', 'encode.PutUint32Scalar', 'encode.PutUint32DeltaScalar']
GET = ['decode.Get4uint32Scalar', 'decode.Get4uint32DeltaScalar', 'decode.GetUint32Scalar', 'decode.GetUint32DeltaScalar']
def v(id, files, fns=None, props=None):
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})

v('e-one-if', {E: [('imp', 'encoding/binary'), ('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	size := 1
	if num >= 1<<24 {
		size = 4
	} else if num >= 1<<16 {
		size = 3
	} else if num >= 1<<8 {
		size = 2
	}
	var tmp [4]byte
	binary.LittleEndian.PutUint32(tmp[:], num)
	for i := size - 1; i >= 0; i-- {
		out[i] = tmp[i]
	}
	return size
}
'''), ('sub', '''	"math/bits"
''', ''), ('fn', 'max', '')]}, PUT)

v('e-one-copy', {E: [('imp', 'encoding/binary'), ('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	size := max(1, (bits.Len32(num)+7)/8)
	var tmp [4]byte
	binary.LittleEndian.PutUint32(tmp[:], num)
	return copy(out[:size], tmp[:size])
}
''')]}, PUT)

v('e-one-loop', {E: [('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	size := 0
	for {
		out[size] = byte(num)
		size++
		num >>= 8
		if num == 0 {
			break
		}
	}
	return size
}
'''), ('sub', '''	"math/bits"
''', ''), ('fn', 'max', '')]}, PUT)

v('e-one-size', {E: [('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	size := byteSize(num)
	for i := 0; i < size; i++ {
		out[i] = byte(num >> (8 * uint(i)))
	}
	return size
}

func byteSize(num uint32) int {
	return max(1, 4-bits.LeadingZeros32(num)>>3)
}
''')]}, PUT)

v('e-quad-loop', {E: [('fn', 'Put4uint32Scalar', '''
func Put4uint32Scalar(in []uint32, out []byte) uint8 {
	var ctrl uint8
	pos := 0
	for i, num := range in[:4] {
		size := encodeOne(num, out[pos:])
		ctrl |= uint8(size-1) << (2 * uint(i))
		pos += size
	}
	return ctrl
}
'''), ('fn', 'Put4uint32DeltaScalar', '''
func Put4uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint8 {
	var diffs [4]uint32
	for i := range diffs {
		diffs[i] = in[i] - prev
		prev = in[i]
	}
	return Put4uint32Scalar(diffs[:], out)
}
''')]}, PUT)

v('e-part', {E: [('fn', 'PutUint32Scalar', '''
func PutUint32Scalar(in []uint32, out []byte, count int) uint8 {
	if count > 4 {
		count = 4
	}
	var ctrl uint8
	for i := 0; i < count; i++ {
		size := encodeOne(in[i], out)
		out = out[size:]
		ctrl |= uint8(size-1) << (uint(i) * 2)
	}
	return ctrl
}
'''), ('fn', 'PutUint32DeltaScalar', '''
func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	var (
		ctrl  uint8
		total int
		n     = clamp(count)
	)
	for i := n; i > 0; i-- {
		num := in[n-i]
		size := encodeOne(num-prev, out[total:])
		prev = num
		total += size
		ctrl = ctrl>>2 | uint8(size-1)<<6
	}
	if n > 0 {
		ctrl >>= uint(8 - 2*n)
	}
	return ctrl
}

func clamp(n int) int {
	if n > 4 {
		return 4
	}
	return n
}
''')]}, PUT)

v('e-eight', {E: [('fn', 'Put8uint32Scalar', '''
func Put8uint32Scalar(in []uint32, out []byte) uint16 {
	first := uint16(Put4uint32Scalar(in, out))
	second := uint16(Put4uint32Scalar(in[4:8], out[shared.ControlByteToSize(uint8(first)):]))
	return second<<8 + first
}
'''), ('fn', 'Put8uint32DeltaScalar', '''
func Put8uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint16 {
	var ctrls [2]uint8
	for i := range ctrls {
		ctrls[i] = Put4uint32DeltaScalar(in[4*i:], out, prev)
		out = out[shared.ControlByteToSize(ctrls[i]):]
		prev = in[4*i+3]
	}
	return uint16(ctrls[0]) | uint16(ctrls[1])<<8
}
''')]}, ['encode.Put8uint32Scalar', 'encode.Put8uint32DeltaScalar'])

v('e-init', {E: [('fn', 'init', '''
func init() {
	putImpl, putDeltaImpl = Put8uint32Scalar, Put8uint32DeltaScalar
	if GetMode() == shared.Fast {
		putImpl, putDeltaImpl = Put8uint32Fast, Put8uint32DeltaFast
	}
}
''')], EA: [('fn', 'GetMode', '''
func GetMode() shared.PerformanceMode {
	if !cpu.X86.HasAVX2 {
		return shared.Normal
	}
	if !cpu.X86.HasAVX {
		return shared.Normal
	}
	return shared.Fast
}
''')]}, ['encode.Put8uint32', 'encode.Put8uint32Delta', 'encode.GetMode', 'encode.Put8uint32Fast'], ['C12'])

v('e-novars', {E: [('fn', 'init', ''), ('sub', '''	return putImpl(in, out)
''', '''	if GetMode() == shared.Fast {
		return Put8uint32Fast(in, out)
	}
	return Put8uint32Scalar(in, out)
'''), ('sub', '''	return putDeltaImpl(in, out, prev)
''', '''	impl := Put8DeltaImpl(Put8uint32DeltaScalar)
	if GetMode() == shared.Fast {
		impl = Put8uint32DeltaFast
	}
	return impl(in, out, prev)
'''), ('sub', '''var (
	putImpl      Put8Impl
	putDeltaImpl Put8DeltaImpl
)
''', '')]}, ['encode.Put8uint32', 'encode.Put8uint32Delta'], ['C12'])

v('e-varinit', {E: [('fn', 'init', '''
func selectImpl() (Put8Impl, Put8DeltaImpl) {
	if GetMode() == shared.Fast {
		return Put8uint32Fast, Put8uint32DeltaFast
	}
	return Put8uint32Scalar, Put8uint32DeltaScalar
}
'''), ('sub', '''var (
	putImpl      Put8Impl
	putDeltaImpl Put8DeltaImpl
)
''', '''var putImpl, putDeltaImpl = selectImpl()
''')]}, ['encode.Put8uint32', 'encode.Put8uint32Delta'], ['C12'])

v('e-hasfast', {EA: [('fn', 'GetMode', '''
func GetMode() shared.PerformanceMode {
	mode := shared.Normal
	if hasFast {
		mode = shared.Fast
	}
	return mode
}

var hasFast = cpu.X86.HasAVX && cpu.X86.HasAVX2
''')]}, ['encode.GetMode'], ['C12'])

v('d-one-loop', {D: [('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	var num uint32
	for i := int(size) - 1; i >= 0; i-- {
		num = num<<8 | uint32(b[i])
	}
	return num
}
''')]}, GET)

v('d-one-range', {D: [('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	num := uint32(0)
	for i, x := range b[:size] {
		num += uint32(x) << (8 * uint(i))
	}
	return num
}
''')]}, GET)

v('d-one-if', {D: [('imp', 'encoding/binary'), ('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	num := uint32(b[0])
	if size == 4 {
		return binary.LittleEndian.Uint32(b)
	}
	if size >= 2 {
		num |= uint32(b[1]) << 8
	}
	if size >= 3 {
		num |= uint32(b[2]) << 16
	}
	return num
}
''')]}, GET)

v('d-one-copy', {D: [('imp', 'encoding/binary'), ('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	var tmp [4]byte
	copy(tmp[:], b[:size])
	return binary.LittleEndian.Uint32(tmp[:])
}
''')]}, GET)

v('d-quad-loop', {D: [('fn', 'Get4uint32Scalar', '''
func Get4uint32Scalar(in []byte, out []uint32, ctrl uint8) {
	var nums [4]uint32
	pos := 0
	for i, size := range shared.PerNumLenTable[ctrl] {
		nums[i] = decodeOne(in[pos:], size)
		pos += int(size)
	}
	copy(out[:4], nums[:])
}
'''), ('fn', 'Get4uint32DeltaScalar', '''
func Get4uint32DeltaScalar(in []byte, out []uint32, ctrl uint8, prev uint32) {
	sizes := &shared.PerNumLenTable[ctrl]
	out = out[:4]
	for i := range out {
		prev += decodeOne(in, sizes[i])
		in = in[sizes[i]:]
		out[i] = prev
	}
}
''')]}, GET)

v('d-part', {D: [('fn', 'GetUint32Scalar', '''
func GetUint32Scalar(in []byte, out []uint32, ctrl uint8, count int) int {
	pos := 0
	for i := 0; i < count && i < 4; i++ {
		size := ctrl&3 + 1
		ctrl >>= 2
		out[i] = decodeOne(in[pos:], size)
		pos += int(size)
	}
	return pos
}
'''), ('fn', 'GetUint32DeltaScalar', '''
func GetUint32DeltaScalar(in []byte, out []uint32, ctrl uint8, count int, prev uint32) (read int) {
	for i, size := range shared.PerNumLenTable[ctrl] {
		if i >= count {
			break
		}
		prev += decodeOne(in[read:], size)
		out[i] = prev
		read += int(size)
	}
	return read
}
''')]}, GET)

v('d-eight', {D: [('fn', 'Get8uint32Scalar', '''
func Get8uint32Scalar(in []byte, out []uint32, ctrl uint16) {
	for i := 0; i < 2; i++ {
		c := uint8(ctrl >> uint(8*i))
		Get4uint32Scalar(in, out[4*i:4*i+4], c)
		in = in[shared.ControlByteToSize(c):]
	}
}
'''), ('fn', 'Get8uint32DeltaScalar', '''
func Get8uint32DeltaScalar(in []byte, out []uint32, ctrl uint16, prev uint32) {
	first, second := split(ctrl)
	Get4uint32DeltaScalar(in, out[:4], first, prev)
	prev = out[3]
	Get4uint32DeltaScalar(in[shared.ControlByteToSize(first):], out[4:], second, prev)
}

func split(ctrl uint16) (lower, upper uint8) {
	return uint8(ctrl), uint8(ctrl >> 8)
}
''')]}, ['decode.Get8uint32Scalar', 'decode.Get8uint32DeltaScalar'])

v('d-init', {D: [('fn', 'init', '''
func init() {
	switch GetMode() {
	case shared.Fast:
		getImpl = Get8uint32Fast
		getDeltaImpl = Get8uint32DeltaFast
	default:
		getImpl = Get8uint32Scalar
		getDeltaImpl = Get8uint32DeltaScalar
	}
}
'''), ('sub', 'getImpl(in, out, ctrl)\n}', 'impl := getImpl\n\timpl(in, out, ctrl)\n}')],
 DA: [('fn', 'GetMode', '''
func GetMode() (mode shared.PerformanceMode) {
	if cpu.X86.HasAVX {
		mode = shared.Fast
	}
	return mode
}
''')]}, ['decode.Get8uint32', 'decode.Get8uint32Delta', 'decode.GetMode'], ['C12'])

v('s-size', {G: [('fn', 'ControlByteToSize', '''
func ControlByteToSize(in uint8) int {
	sizes := PerNumLenTable[in]
	return int(sizes[0]) + int(sizes[1]) + int(sizes[2]) + int(sizes[3])
}
'''), ('fn', 'ControlByteToSizeTwo', '''
func ControlByteToSizeTwo(in uint16) int {
	return ControlByteToSize(uint8(in)) + ControlByteToSize(uint8(in>>8))
}
''')]}, ['shared.ControlByteToSize', 'shared.ControlByteToSizeTwo'], ['C05'])

v('s-arith', {G: [('fn', 'ControlByteToSize', '''
func ControlByteToSize(in uint8) int {
	size := 4
	for ; in > 0; in >>= 2 {
		size += int(in & 3)
	}
	return size
}
''')]}, ['shared.ControlByteToSize', 'shared.ControlByteToSizeTwo'], ['C05'])

# the tables computed at start-up instead of written out
v('s-table-init', {G: [('app', '''
func buildLens() *[256]uint8 {
	t := new([256]uint8)
	for i := range t {
		t[i] = uint8(4 + i&3 + i>>2&3 + i>>4&3 + i>>6)
	}
	return t
}
''')], T: [('sub', 'var PerControlLenTable *[256]uint8 = &[256]uint8{', 'var PerControlLenTable = buildLens()\n\nvar _ = [256]uint8{')]}, ['shared.ControlByteToSize', 'shared.ControlByteToSizeTwo'], ['C05', 'C06'])

v('ea-helper', {EA: [('fn', 'Put8uint32Fast', '''
func Put8uint32Fast(in []uint32, out []byte) uint16 {
	shuffle, lens := tables()
	return Put8uint32FastAsm(in, out, shuffle, lens)
}

func tables() (*[256][16]uint8, *[256]uint8) {
	return shared.EncodeShuffleTable, shared.PerControlLenTable
}
''')]}, ['encode.Put8uint32Fast'], ['C18'])
