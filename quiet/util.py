# Behaviour-preserving rewrites of pkg/util.
U, V, R = 'pkg/util/util.go', 'pkg/util/varint.go', 'pkg/util/rand.go'
VARIANTS = []
def v(id, files, fns=None, props=None):
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})
P16, P15 = ['C16'], ['C15']

v('u-delta-prev', {U: [('fn', 'Delta', '''
func Delta(in []uint32, out []uint32) {
	var prev uint32
	for i, num := range in {
		out[i] = num - prev
		prev = num
	}
}
''')]}, None, P16)
v('u-delta-back', {U: [('fn', 'Delta', '''
func Delta(in []uint32, out []uint32) {
	for i := len(in) - 1; i > 0; i-- {
		out[i] = in[i] - in[i-1]
	}
	if len(in) > 0 {
		out[0] = in[0]
	}
}
''')]}, None, P16)
v('u-delta-first', {U: [('fn', 'Delta', '''
func Delta(in []uint32, out []uint32) {
	if len(in) == 0 {
		return
	}
	out[0] = in[0]
	for i := 1; i < len(in); i++ {
		out[i] = in[i] - in[i-1]
	}
}
''')]}, None, P16)
v('u-delta-slice', {U: [('fn', 'Delta', '''
func Delta(in []uint32, out []uint32) {
	out = out[:len(in)]
	for i := range out {
		diff := in[i]
		if i != 0 {
			diff -= in[i-1]
		}
		out[i] = diff
	}
}
''')]}, None, P16)
v('u-sort-iface', {U: [('fn', 'SortUint32', '''
func SortUint32(in []uint32) {
	sort.Sort(uint32s(in))
}

type uint32s []uint32

func (u uint32s) Len() int           { return len(u) }
func (u uint32s) Less(i, j int) bool { return u[i] < u[j] }
func (u uint32s) Swap(i, j int)      { u[i], u[j] = u[j], u[i] }
''')]}, None, P16)
v('u-sort-less', {U: [('fn', 'SortUint32', '''
func SortUint32(in []uint32) {
	if len(in) < 2 {
		return
	}
	less := func(i, j int) bool {
		a, b := in[i], in[j]
		return b > a
	}
	sort.Slice(in, less)
}
''')]}, None, P16)
v('u-sort-stable', {U: [('sub', 'sort.Slice(', 'sort.SliceStable(')]}, None, P16)
v('u-gen-range', {U: [('fn', 'GenUint32', '''
func GenUint32(n int) []uint32 {
	nums := make([]uint32, n)
	for i := range nums {
		nums[i] = RandUint32()
	}
	return nums
}
''')]}, None, P16)
v('u-gen-append', {U: [('fn', 'GenUint32', '''
func GenUint32(n int) []uint32 {
	nums := make([]uint32, 0, n)
	for len(nums) < n {
		nums = append(nums, RandUint32())
	}
	return nums
}
''')]}, None, P16)
v('u-rand-switch', {R: [('fn', 'RandUint32', '''
func RandUint32() uint32 {
	switch rand.Intn(4) {
	case 0:
		return randUint32Range(0, 1<<8-1)
	case 1:
		return randUint32Range(1<<8, 1<<16-1)
	case 2:
		return randUint32Range(1<<16, 1<<24-1)
	default:
		return randUint32Range(1<<24, math.MaxUint32)
	}
}
'''), ('sub', 'var (\n	generators', 'var (\n	_ = generators\n	generators')]}, None, P16)
v('u-rand-table', {R: [('fn', 'RandUint32', '''
func RandUint32() uint32 {
	r := ranges[rand.Int()&3]
	return randUint32Range(r.low, r.high)
}

var ranges = [4]struct{ low, high uint32 }{
	{0, 0xff},
	{0x100, 0xffff},
	{0x10000, 0xffffff},
	{0x1000000, math.MaxUint32},
}
''')]}, None, P16)
v('u-rand-range', {R: [('fn', 'randUint32Range', '''
func randUint32Range(low, high uint32) uint32 {
	span := uint64(high) - uint64(low) + 1
	return low + uint32(uint64(rand.Uint32())%span)
}
''')]}, None, P16)
v('u-rand-shift', {R: [('fn', 'RandUint32', '''
func RandUint32() uint32 {
	size := uint(rand.Int()%4) + 1
	low, high := uint32(1)<<(8*(size-1)), uint32(math.MaxUint32)>>(32-8*size)
	if size == 1 {
		low = 0
	}
	return randUint32Range(low, high)
}
''')]}, None, P16)
v('u-put-range', {V: [('fn', 'PutVarint', '''
func PutVarint(nums []uint32, out []byte) int {
	pos := 0
	for _, num := range nums {
		pos += binary.PutUvarint(out[pos:], uint64(num))
	}
	return pos
}
''')]}, None, P15)
v('u-put-hand', {V: [('fn', 'PutVarint', '''
func PutVarint(nums []uint32, out []byte) int {
	pos := 0
	for _, num := range nums {
		for num >= 0x80 {
			out[pos] = byte(num) | 0x80
			num >>= 7
			pos++
		}
		out[pos] = byte(num)
		pos++
	}
	return pos
}
''')]}, None, P15)
v('u-put-hand2', {V: [('fn', 'PutDeltaVarint', '''
func PutDeltaVarint(nums []uint32, out []byte, prev uint32) (pos int) {
	for _, num := range nums {
		pos += putOne(out[pos:], num-prev)
		prev = num
	}
	return pos
}

func putOne(out []byte, x uint32) int {
	i := 0
	for ; x >= 0x80; i++ {
		out[i] = byte(x) | 0x80
		x >>= 7
	}
	out[i] = byte(x)
	return i + 1
}
''')]}, None, P15)
v('u-put-base', {V: [('fn', 'PutDeltaVarint', '''
func PutDeltaVarint(nums []uint32, out []byte, prev uint32) int {
	pos := 0
	for i, num := range nums {
		if i > 0 {
			prev = nums[i-1]
		}
		pos += binary.PutUvarint(out[pos:], uint64(num-prev))
	}
	return pos
}
''')]}, None, P15)
v('u-get-for', {V: [('fn', 'GetVarint', '''
func GetVarint(data []byte, out []uint32) int {
	pos := 0
	for i := 0; pos < len(data); i++ {
		num, read := binary.Uvarint(data[pos:])
		out[i] = uint32(num)
		pos += read
	}
	return pos
}
''')]}, None, P15)
v('u-get-shrink', {V: [('fn', 'GetVarint', '''
func GetVarint(data []byte, out []uint32) int {
	total := len(data)
	for i := 0; len(data) > 0; i++ {
		num, read := binary.Uvarint(data)
		out[i] = uint32(num)
		data = data[read:]
	}
	return total
}
''')]}, None, P15)
v('u-get-hand', {V: [('fn', 'GetVarint', '''
func GetVarint(data []byte, out []uint32) int {
	i := 0
	var num uint32
	var shift uint
	for _, b := range data {
		num |= uint32(b&0x7f) << shift
		if b < 0x80 {
			out[i] = num
			i++
			num, shift = 0, 0
			continue
		}
		shift += 7
	}
	return len(data)
}
''')]}, None, P15)
v('u-get-delta', {V: [('fn', 'GetDeltaVarint', '''
func GetDeltaVarint(in []byte, out []uint32, prev uint32) int {
	pos, i := 0, 0
	for pos != len(in) {
		num, size := binary.Uvarint(in[pos:])
		prev += uint32(num)
		out[i] = prev
		i, pos = i+1, pos+size
	}
	return pos
}
''')]}, None, P15)
v('u-get-wrap', {V: [('fn', 'GetDeltaVarint', '''
func GetDeltaVarint(in []byte, out []uint32, prev uint32) int {
	n := 0
	pos := 0
	for pos < len(in) {
		num, size := next(in[pos:])
		prev = prev + num
		out[n] = prev
		n++
		pos += size
	}
	return pos
}

func next(b []byte) (uint32, int) {
	num, size := binary.Uvarint(b)
	return uint32(num), size
}
''')]}, None, P15)
