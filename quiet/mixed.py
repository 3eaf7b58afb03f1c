# A second, independent batch of behaviour-preserving rewrites over the library.
E, D = 'pkg/encode/encode.go', 'pkg/decode/decode.go'
W, WA, R, RA = 'pkg/stream/writer/writer.go', 'pkg/stream/writer/writer_amd64.go', 'pkg/stream/reader/reader.go', 'pkg/stream/reader/reader_amd64.go'
VARIANTS = []
PUT, GET = ['C06', 'C08'], ['C07', 'C08']
def v(id, files, fns=None, props=None):
    if fns in (PUT, GET): fns, props = None, fns
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})

# ---------------------------------------------------------------- encode
v('x-part-shrink', {E: [('fn', 'PutUint32Scalar', '''
func PutUint32Scalar(in []uint32, out []byte, count int) uint8 {
	if count > 4 {
		count = 4
	}

	var ctrl uint8
	for i := 0; i < count; i++ {
		size := encodeOne(in[i], out)
		out = out[size:]
		ctrl |= uint8(size-1) << (2 * uint(i))
	}
	return ctrl
}
''')]}, PUT)
v('x-part-common', {E: [('fn', 'PutUint32Scalar', '''
func PutUint32Scalar(in []uint32, out []byte, count int) uint8 {
	return putSome(in, out, count, 0, false)
}
'''), ('fn', 'PutUint32DeltaScalar', '''
func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	return putSome(in, out, count, prev, true)
}

func putSome(in []uint32, out []byte, count int, prev uint32, delta bool) uint8 {
	if count == 0 {
		return 0
	}
	if count > 4 {
		count = 4
	}
	var (
		ctrl  uint8
		total int
	)
	for i := 0; i < count; i++ {
		num := in[i]
		if delta {
			num, prev = num-prev, num
		}
		size := encodeOne(num, out[total:])
		ctrl |= uint8(size-1) << uint(i*2)
		total += size
	}
	return ctrl
}
''')]}, PUT)
v('x-quad-diffs', {E: [('fn', 'Put4uint32DeltaScalar', '''
func Put4uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint8 {
	var diffs [4]uint32
	for i, num := range in[:4] {
		diffs[i] = num - prev
		prev = num
	}
	return Put4uint32Scalar(diffs[:], out)
}
''')]}, PUT)
v('x-code', {E: [('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	code := lengthCode(num)
	for i := uint8(0); i <= code; i++ {
		out[i] = byte(num)
		num >>= 8
	}
	return int(code) + 1
}

// lengthCode is the two-bit code of the length of num.
func lengthCode(num uint32) uint8 {
	return uint8((bits.Len32(num|1) + 7) / 8 - 1)
}
'''), ('fn', 'max', '')]}, PUT)
v('x-down', {E: [('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) (size int) {
	size = max(1, 4-(bits.LeadingZeros32(num)>>3))
	for i := size; i > 0; i-- {
		out[i-1] = byte(num >> (8 * uint(i-1)))
	}
	return
}
''')]}, PUT)
v('x-quad-array', {E: [('fn', 'Put4uint32Scalar', '''
func Put4uint32Scalar(in []uint32, out []byte) uint8 {
	nums := [4]uint32{in[0], in[1], in[2], in[3]}
	var lens [4]int
	pos := 0
	for i := range nums {
		lens[i] = encodeOne(nums[i], out[pos:])
		pos += lens[i]
	}
	return uint8(lens[0]-1) | uint8(lens[1]-1)<<2 | uint8(lens[2]-1)<<4 | uint8(lens[3]-1)<<6
}
''')]}, PUT)
v('x-quad-ctrl', {E: [('fn', 'Put4uint32Scalar', '''
func Put4uint32Scalar(in []uint32, out []byte) uint8 {
	var ctrl uint8
	in = in[:4]
	for i := 3; i >= 0; i-- {
		ctrl = ctrl<<2 | uint8(sizeOf(in[i])-1)
	}
	for _, num := range in {
		out = out[encodeOne(num, out):]
	}
	return ctrl
}

func sizeOf(num uint32) int {
	return max(1, 4-(bits.LeadingZeros32(num)/8))
}
''')]}, PUT)
v('x-eight-size', {E: [('fn', 'Put8uint32DeltaScalar', '''
func Put8uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint16 {
	lower := Put4uint32DeltaScalar(in[:4], out, prev)
	upper := Put4uint32DeltaScalar(in[4:8], out[shared.ControlByteToSize(lower):], in[3])
	return uint16(upper)<<8 | uint16(lower)
}
''')]}, PUT)
# ---------------------------------------------------------------- decode
v('y-quad-shrink', {D: [('fn', 'Get4uint32Scalar', '''
func Get4uint32Scalar(in []byte, out []uint32, ctrl uint8) {
	sizes := shared.PerNumLenTable[ctrl]
	for i, size := range sizes {
		out[i] = decodeOne(in, size)
		in = in[size:]
	}
}
''')]}, GET)
v('y-quad-part', {D: [('fn', 'Get4uint32Scalar', '''
func Get4uint32Scalar(in []byte, out []uint32, ctrl uint8) {
	GetUint32Scalar(in, out, ctrl, 4)
}
''')]}, GET)
v('y-part-sum', {D: [('fn', 'GetUint32DeltaScalar', '''
func GetUint32DeltaScalar(in []byte, out []uint32, ctrl uint8, count int, prev uint32) int {
	if count > 4 {
		count = 4
	}
	total := GetUint32Scalar(in, out, ctrl, count)
	for i := 0; i < count; i++ {
		out[i] += prev
		prev = out[i]
	}
	return total
}
''')]}, GET)
v('y-eight-sum', {D: [('fn', 'Get8uint32DeltaScalar', '''
func Get8uint32DeltaScalar(in []byte, out []uint32, ctrl uint16, prev uint32) {
	Get8uint32Scalar(in, out, ctrl)
	for i := range out[:8] {
		prev += out[i]
		out[i] = prev
	}
}
''')]}, GET)
v('y-quad-sum', {D: [('fn', 'Get4uint32DeltaScalar', '''
func Get4uint32DeltaScalar(in []byte, out []uint32, ctrl uint8, prev uint32) {
	Get4uint32Scalar(in, out, ctrl)
	out[0] += prev
	out[1] += out[0]
	out[2] += out[1]
	out[3] += out[2]
}
''')]}, GET)
v('y-one-mask', {D: [('imp', 'encoding/binary'), ('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	var tmp [4]byte
	copy(tmp[:], b[:size])
	return binary.LittleEndian.Uint32(tmp[:])
}
''')]}, GET)
v('y-one-array', {D: [('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) (num uint32) {
	b = b[:size]
	for i := len(b) - 1; i >= 0; i-- {
		num = num<<8 | uint32(b[i])
	}
	return num
}
''')]}, GET)
v('y-part-ctrl', {D: [('fn', 'GetUint32Scalar', '''
func GetUint32Scalar(in []byte, out []uint32, ctrl uint8, count int) int {
	if count > 4 {
		count = 4
	}
	total := 0
	for i := 0; i < count; i++ {
		size := ctrl&3 + 1
		ctrl >>= 2
		out[i] = decodeOne(in[total:], size)
		total += int(size)
	}
	return total
}
''')]}, GET)
v('y-part-table', {D: [('fn', 'GetUint32Scalar', '''
func GetUint32Scalar(in []byte, out []uint32, ctrl uint8, count int) int {
	if count == 0 {
		return 0
	}
	if count > 4 {
		count = 4
	}
	total := 0
	sizes := &shared.PerNumLenTable[ctrl]
	for i := 0; i < count; i++ {
		out[i] = decodeOne(in[total:], sizes[i])
		total += int(sizes[i])
	}
	return total
}
''')]}, GET)
# ---------------------------------------------------------------- writer
FW = ['writer.WriteAllScalar', 'writer.WriteAllDeltaScalar', 'writer.WriteAllFast', 'writer.WriteAllDeltaFast']
STREAM = '''		ctrlLen = (count + 3) / 4
		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))

'''
v('w-new-stream', {W: [('sub', STREAM, '''		stream, ctrlLen = newStream(count)

'''), ('app', '''
// newStream makes room for count integers, and tells how much of it the control bytes take.
func newStream(count int) ([]byte, int) {
	ctrlLen := (count + 3) / 4
	return make([]byte, ctrlLen+(encode.MaxBytesPerNum*count)), ctrlLen
}
''')], WA: [('sub', STREAM, '''		stream, ctrlLen = newStream(count)

''')]}, FW)
v('w-cap', {W: [('sub', 'return stream[:dataPos]', 'return stream[:dataPos:dataPos]')], WA: [('sub', 'return stream[:dataPos]', 'return stream[:dataPos:dataPos]')]}, FW)
v('w-empty', {W: [('sub', '''func WriteAllScalar(in []uint32) []byte {
''', '''func WriteAllScalar(in []uint32) []byte {
	if len(in) == 0 {
		return []byte{}
	}
''')], WA: [('sub', '''func WriteAllFast(in []uint32) []byte {
''', '''func WriteAllFast(in []uint32) []byte {
	if len(in) == 0 {
		return nil
	}
''')]}, FW)
v('w-blocks', {WA: [('sub', 'lowest32 = ((ctrlLen - 3) * 4) &^ 31', 'blocks   = (ctrlLen - 3) / 8'), ('sub', 'for ; encoded < lowest32; encoded += 32 {', 'for b := 0; b < blocks; b++ {'),
   ('sub', '''		dataPos += sizeA + sizeB + sizeC + sizeD
''', '''		dataPos += sizeA + sizeB + sizeC + sizeD
		encoded += 32
''')]}, FW)
v('w-closure', {WA: [('fn', 'WriteAllFast', '''
func WriteAllFast(in []uint32) []byte {
	count := len(in)
	ctrlLen := (count + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
	dataPos := ctrlLen

	put8 := func(ctrlPos int) {
		ctrl := encode.Put8uint32FastAsm(
			in[ctrlPos*4:],
			stream[dataPos:],
			shared.EncodeShuffleTable,
			shared.PerControlLenTable,
		)
		stream[ctrlPos] = uint8(ctrl & 0xff)
		stream[ctrlPos+1] = uint8(ctrl >> 8)
		dataPos += shared.ControlByteToSizeTwo(ctrl)
	}

	ctrlPos := 0
	for ; ctrlPos < ctrlLen-2; ctrlPos += 2 {
		put8(ctrlPos)
	}

	for encoded := ctrlPos * 4; ctrlPos < ctrlLen; ctrlPos++ {
		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
		stream[ctrlPos] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) - (4 - nums)
		encoded += nums
	}

	return stream[:dataPos]
}
''')]}, FW)
v('w-struct', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	e := newEncoder(len(in))
	for len(in) >= 4 {
		e.put4(in)
		in = in[4:]
	}
	if len(in) > 0 {
		e.putRest(in)
	}
	return e.stream[:e.dataPos]
}

type encoder struct {
	stream           []byte
	ctrlPos, dataPos int
}

func newEncoder(count int) *encoder {
	ctrlLen := (count + 3) / 4
	return &encoder{
		stream:  make([]byte, ctrlLen+encode.MaxBytesPerNum*count),
		dataPos: ctrlLen,
	}
}

func (e *encoder) put4(in []uint32) {
	ctrl := encode.Put4uint32Scalar(in, e.stream[e.dataPos:])
	e.next(ctrl, shared.ControlByteToSize(ctrl))
}

func (e *encoder) putRest(in []uint32) {
	ctrl := encode.PutUint32Scalar(in, e.stream[e.dataPos:], len(in))
	e.next(ctrl, shared.ControlByteToSize(ctrl)-(4-len(in)))
}

func (e *encoder) next(ctrl uint8, size int) {
	e.stream[e.ctrlPos] = ctrl
	e.ctrlPos++
	e.dataPos += size
}
''')]}, FW)
v('w-two-slices', {W: [('fn', 'WriteAllDeltaScalar', '''
func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	stream := make([]byte, ctrlLen+encode.MaxBytesPerNum*len(in))
	ctrls, data := stream[:ctrlLen], stream[ctrlLen:]
	total := 0
	for i := range ctrls {
		nums := in[i*4:]
		if len(nums) >= 4 {
			ctrls[i] = encode.Put4uint32DeltaScalar(nums, data[total:], prev)
			total += shared.ControlByteToSize(ctrls[i])
			prev = nums[3]
			continue
		}
		ctrls[i] = encode.PutUint32DeltaScalar(nums, data[total:], len(nums), prev)
		total += shared.ControlByteToSize(ctrls[i]) - (4 - len(nums))
	}
	return stream[:ctrlLen+total]
}
'''), ]}, FW)
v('w-le16', {WA: [('imp', 'encoding/binary'), ('sub', '''		ctrls[0] = uint8(ctrl & 0xff)
		ctrls[1] = uint8(ctrl >> 8)
''', '''		binary.LittleEndian.PutUint16(ctrls, ctrl)
'''), ('sub', '''		stream[ctrlPos] = uint8(ctrl & 0xff)
		stream[ctrlPos+1] = uint8(ctrl >> 8)
''', '''		binary.LittleEndian.PutUint16(stream[ctrlPos:], ctrl)
''')]}, FW)
# ---------------------------------------------------------------- reader
FR = ['reader.ReadAllScalar', 'reader.ReadAllDeltaScalar', 'reader.ReadAllFast', 'reader.ReadAllDeltaFast']
v('r-struct', {R: [('fn', 'ReadAllScalar', '''
func ReadAllScalar(count int, stream []byte, out []uint32) {
	d := decoder{ctrls: stream, data: stream[(count+3)/4:]}
	for ; count >= 4; count -= 4 {
		ctrl := d.ctrl()
		decode.Get4uint32Scalar(d.data, out, ctrl)
		d.data = d.data[shared.ControlByteToSize(ctrl):]
		out = out[4:]
	}
	if count > 0 {
		decode.GetUint32Scalar(d.data, out, d.ctrl(), count)
	}
}

type decoder struct {
	ctrls, data []byte
}

func (d *decoder) ctrl() uint8 {
	c := d.ctrls[0]
	d.ctrls = d.ctrls[1:]
	return c
}
''')]}, FR)
v('r-closure', {RA: [('fn', 'ReadAllFast', '''
func ReadAllFast(count int, stream []byte, out []uint32) {
	ctrlLen := (count + 3) / 4
	fullCtrl := count / 4
	dataPos := ctrlLen
	decoded := 0

	sizeOf := func(i int) int { return shared.ControlByteToSize(stream[i]) }

	ctrlPos := 0
	for ctrlPos+4 < fullCtrl {
		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
		decode.Get8uint32FastAsm(stream[dataPos:], out[decoded:], ctrl, shared.DecodeShuffleTable, shared.PerControlLenTable)
		dataPos += sizeOf(ctrlPos) + sizeOf(ctrlPos+1)
		ctrlPos += 2
		decoded += 8
	}

	for decoded < count {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], nums)
		ctrlPos++
		decoded += nums
	}
}
''')]}, FR)
v('r-blocks', {RA: [('sub', 'lowest32 = ((fullCtrl - 3) * 4) &^ 31', 'blocks = (fullCtrl - 3) / 8'), ('sub', 'for ; decoded < lowest32; decoded += 32 {', 'for b := 0; b < blocks; b++ {'),
   ('sub', '''		dataPos += sizeA + sizeB + sizeC + sizeD
''', '''		dataPos += sizeA + sizeB + sizeC + sizeD
		decoded += 32
''')]}, FR)
v('r-two-slices', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	ctrlLen := (count + 3) / 4
	ctrls, data := stream[:ctrlLen], stream[ctrlLen:]
	for i, ctrl := range ctrls {
		nums := count - i*4
		if nums < 4 {
			decode.GetUint32DeltaScalar(data, out[i*4:], ctrl, nums, prev)
			return
		}
		decode.Get4uint32DeltaScalar(data, out[i*4:], ctrl, prev)
		data = data[shared.ControlByteToSize(ctrl):]
		prev = out[i*4+3]
	}
}
''')]}, FR)
v('r-clamp', {RA: [('sub', '''		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
''', '''		nums := clamp(count - decoded)
'''), ('app', '''
func clamp(nums int) int {
	if nums < 4 {
		return nums
	}
	return 4
}
''')]}, FR)
v('r-le16', {RA: [('imp', 'encoding/binary'), ('sub', 'uint16(ctrls[0]) | uint16(ctrls[1])<<8', 'binary.LittleEndian.Uint16(ctrls)'), ('sub', 'uint16(ctrls[2]) | uint16(ctrls[3])<<8', 'binary.LittleEndian.Uint16(ctrls[2:])'),
   ('sub', 'shared.ControlByteToSize(ctrls[0]) + shared.ControlByteToSize(ctrls[1])', 'shared.ControlByteToSizeTwo(ctrl)')]}, FR)
