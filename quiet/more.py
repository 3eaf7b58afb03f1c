# A third batch of behaviour-preserving rewrites: less usual idioms.
E, D = 'pkg/encode/encode.go', 'pkg/decode/decode.go'
W, R = 'pkg/stream/writer/writer.go', 'pkg/stream/reader/reader.go'
VARIANTS = []
PUT, GET = ['C06', 'C08'], ['C07', 'C08']
def v(id, files, fns=None, props=None):
    if fns in (PUT, GET): fns, props = None, fns
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})

# a scratch array and copy
v('z-ecopy', {E: [('imp', 'encoding/binary'), ('fn', 'encodeOne', '''
func encodeOne(num uint32, out []byte) int {
	var buf [4]byte
	binary.LittleEndian.PutUint32(buf[:], num)
	size := max(1, 4-(bits.LeadingZeros32(num)/8))
	_ = out[size-1]
	copy(out, buf[:size])
	return size
}
''')]}, PUT)
v('z-dcopy', {D: [('imp', 'encoding/binary'), ('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	var buf [4]byte
	copy(buf[:], b[:size])
	return binary.LittleEndian.Uint32(buf[:])
}
''')]}, GET)
v('z-dmask', {D: [('fn', 'decodeOne', '''
func decodeOne(b []byte, size uint8) uint32 {
	var num uint32
	for i := int(size) - 1; i >= 0; i-- {
		num = num<<8 | uint32(b[i])
	}
	return num
}
''')]}, GET)
# a variadic helper
v('z-variadic', {E: [('sub', 'return uint8((len0 - 1) | (len1-1)<<2 | (len2-1)<<4 | (len3-1)<<6)', 'return pack(len0, len1, len2, len3)'), ('app', '''
func pack(lens ...int) uint8 {
	var ctrl uint8
	for i, l := range lens {
		ctrl |= uint8(l-1) << (2 * uint(i))
	}
	return ctrl
}
''')]}, PUT)
# a defined type for the control byte
v('z-type', {D: [('fn', 'GetUint32Scalar', '''
func GetUint32Scalar(in []byte, out []uint32, ctrl uint8, count int) int {
	if count > 4 {
		count = 4
	}
	c, total := control(ctrl), 0
	for i := 0; i < count; i++ {
		size := c.size(i)
		out[i] = decodeOne(in[total:], size)
		total += int(size)
	}
	return total
}
'''), ('app', '''
type control uint8

func (c control) size(i int) uint8 {
	return uint8(c>>(2*uint(i)))&3 + 1
}
''')]}, GET)
# results through pointers
v('z-pointer', {E: [('fn', 'PutUint32DeltaScalar', '''
func PutUint32DeltaScalar(in []uint32, out []byte, count int, prev uint32) uint8 {
	if count > 4 {
		count = 4
	}
	var (
		ctrl uint8
		pos  int
	)
	for i := 0; i < count; i++ {
		add(&ctrl, &pos, i, in[i]-prev, out)
		prev = in[i]
	}
	return ctrl
}
'''), ('app', '''
func add(ctrl *uint8, pos *int, i int, num uint32, out []byte) {
	size := encodeOne(num, out[*pos:])
	*pos += size
	*ctrl |= uint8(size-1) << uint(2*i)
}
''')]}, PUT)
# the two halves in a loop
v('z-halves', {D: [('fn', 'Get8uint32DeltaScalar', '''
func Get8uint32DeltaScalar(in []byte, out []uint32, ctrl uint16, prev uint32) {
	for i := 0; i < 8; i += 4 {
		half := uint8(ctrl >> uint(2*i))
		Get4uint32DeltaScalar(in, out[i:], half, prev)
		in = in[shared.ControlByteToSize(half):]
		prev = out[i+3]
	}
}
''')], E: [('fn', 'Put8uint32DeltaScalar', '''
func Put8uint32DeltaScalar(in []uint32, out []byte, prev uint32) (ctrl uint16) {
	for i := uint(0); i < 2; i++ {
		half := Put4uint32DeltaScalar(in[4*i:], out, prev)
		prev = in[4*i+3]
		out = out[shared.ControlByteToSize(half):]
		ctrl |= uint16(half) << (8 * i)
	}
	return
}
''')]}, None, ['C06', 'C07', 'C08'])
# unrolled through goto
v('z-fallthrough', {D: [('fn', 'GetUint32Scalar', '''
func GetUint32Scalar(in []byte, out []uint32, ctrl uint8, count int) int {
	total := 0
	for i := 0; ; i++ {
		if i == 4 || i >= count {
			break
		}
		size := ctrl & 3
		ctrl >>= 2
		out[i] = decodeOne(in[total:], size+1)
		total += int(size) + 1
	}
	return total
}
''')]}, GET)
# ---------------------------------------------------------------- stream
FW = ['writer.WriteAllScalar', 'writer.WriteAllDeltaScalar']
FR = ['reader.ReadAllScalar', 'reader.ReadAllDeltaScalar']
v('z-trim', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	ctrlLen := (len(in) + 3) >> 2
	stream := make([]byte, ctrlLen+len(in)<<2)
	pos := ctrlLen
	for i := 0; i < len(in)>>2; i++ {
		ctrl := encode.Put4uint32Scalar(in[i<<2:], stream[pos:])
		stream[i] = ctrl
		pos += shared.ControlByteToSize(ctrl)
	}
	if rest := len(in) & 3; rest > 0 {
		ctrl := encode.PutUint32Scalar(in[len(in)-rest:], stream[pos:], rest)
		stream[ctrlLen-1] = ctrl
		pos += shared.ControlByteToSize(ctrl) + rest - 4
	}
	out := make([]byte, pos)
	copy(out, stream)
	return out
}
''')]}, FW)
v('z-label', {W: [('fn', 'WriteAllDeltaScalar', '''
func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	stream := make([]byte, ctrlLen+encode.MaxBytesPerNum*len(in))
	dataPos, ctrlPos := ctrlLen, 0
groups:
	for {
		switch rest := len(in) - ctrlPos*4; {
		case rest >= 4:
			nums := in[ctrlPos*4:]
			ctrl := encode.Put4uint32DeltaScalar(nums, stream[dataPos:], prev)
			stream[ctrlPos] = ctrl
			ctrlPos++
			dataPos += shared.ControlByteToSize(ctrl)
			prev = nums[3]
		case rest > 0:
			ctrl := encode.PutUint32DeltaScalar(in[ctrlPos*4:], stream[dataPos:], rest, prev)
			stream[ctrlPos] = ctrl
			dataPos += shared.ControlByteToSize(ctrl) - (4 - rest)
			break groups
		default:
			break groups
		}
	}
	return stream[:dataPos]
}
''')]}, FW)
v('z-append', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	var buf [16]byte
	ctrlLen := (len(in) + 3) / 4
	stream := make([]byte, ctrlLen, ctrlLen+encode.MaxBytesPerNum*len(in))
	for i := range stream {
		nums := in[4*i:]
		var size int
		if len(nums) >= 4 {
			stream[i] = encode.Put4uint32Scalar(nums, buf[:])
			size = shared.ControlByteToSize(stream[i])
		} else {
			stream[i] = encode.PutUint32Scalar(nums, buf[:], len(nums))
			size = shared.ControlByteToSize(stream[i]) - 4 + len(nums)
		}
		stream = append(stream, buf[:size]...)
	}
	return stream
}
''')]}, FW)
v('z-rsub', {R: [('fn', 'ReadAllScalar', '''
func ReadAllScalar(count int, stream []byte, out []uint32) {
	data := stream[(count+3)/4:]
	for i, ctrl := range stream[:count/4] {
		decode.Get4uint32Scalar(data, out[4*i:4*i+4], ctrl)
		data = data[shared.ControlByteToSize(ctrl):]
	}
	if rest := count % 4; rest != 0 {
		decode.GetUint32Scalar(data, out[count-rest:], stream[count/4], rest)
	}
}
''')]}, FR)
v('z-rlabel', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	pos := (count + 3) / 4
	for done := 0; done < count; done += 4 {
		ctrl := stream[done/4]
		if count-done < 4 {
			decode.GetUint32DeltaScalar(stream[pos:], out[done:], ctrl, count-done, prev)
			return
		}
		decode.Get4uint32DeltaScalar(stream[pos:], out[done:], ctrl, prev)
		pos += shared.ControlByteToSize(ctrl)
		prev = out[done+3]
	}
}
''')]}, FR)
v('z-rdefer', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	pos := (count + 3) / 4
	i := 0
	for ; i+4 <= count; i += 4 {
		if i > 0 {
			prev = out[i-1]
		}
		decode.Get4uint32DeltaScalar(stream[pos:], out[i:], stream[i/4], prev)
		pos += shared.ControlByteToSize(stream[i/4])
	}
	if i == count {
		return
	}
	if i > 0 {
		prev = out[i-1]
	}
	decode.GetUint32DeltaScalar(stream[pos:], out[i:], stream[i/4], count-i, prev)
}
''')]}, FR)
