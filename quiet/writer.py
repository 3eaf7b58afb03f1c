# Behaviour-preserving rewrites of pkg/stream/writer: the checks must stay quiet on each of them.
W = 'pkg/stream/writer/writer.go'
WA = 'pkg/stream/writer/writer_amd64.go'
ALLW = ['writer.WriteAllScalar', 'writer.WriteAllDeltaScalar', 'writer.WriteAllFast', 'writer.WriteAllDeltaFast']
VARIANTS = []
def v(id, files, fns=None, props=None):
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})

# helper that writes one quad, moving the positions through return values
v('w-helper-quad', {W: [
  ('app', '''
func putQuad(in []uint32, stream []byte, ctrlPos, dataPos int) int {
	ctrl := encode.Put4uint32Scalar(in, stream[dataPos:])
	stream[ctrlPos] = ctrl
	return dataPos + shared.ControlByteToSize(ctrl)
}
'''),
  ('sub', '''		ctrl := encode.Put4uint32Scalar(in[encoded:], stream[dataPos:])
		stream[ctrlPos] = ctrl
		size := shared.ControlByteToSize(ctrl)
		dataPos += size
		ctrlPos++
''', '''		dataPos = putQuad(in[encoded:], stream, ctrlPos, dataPos)
		ctrlPos++
''')]}, ['writer.WriteAllScalar'])

# the unrolled group of four becomes an inner loop
v('w-inner-loop', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	var (
		count   = len(in)
		ctrlLen = (count + 3) / 4
		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))

		dataPos    = ctrlLen
		ctrlPos    = 0
		encoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; encoded < lowestJump; encoded += jump {
		nums := in[encoded : encoded+jump]
		for j := 0; j < jump; j += 4 {
			ctrl := encode.Put4uint32Scalar(nums[j:], stream[dataPos:])
			stream[ctrlPos] = ctrl
			dataPos += shared.ControlByteToSize(ctrl)
			ctrlPos++
		}
	}

	for ; encoded < lowest4; encoded += 4 {
		ctrl := encode.Put4uint32Scalar(in[encoded:], stream[dataPos:])
		stream[ctrlPos] = ctrl
		dataPos += shared.ControlByteToSize(ctrl)
		ctrlPos++
	}

	if lowest4 != count {
		nums := count - lowest4
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
		size := shared.ControlByteToSize(ctrl)
		size -= 4 - nums
		dataPos += size
		stream[ctrlPos] = ctrl
	}

	return stream[:dataPos]
}
''')]}, ['writer.WriteAllScalar'])

# one loop only over quads; tail written as a switch
v('w-one-loop', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*len(in)))
	dataPos := ctrlLen
	full := len(in) / 4
	for i := 0; i < full; i++ {
		ctrl := encode.Put4uint32Scalar(in[4*i:4*i+4], stream[dataPos:])
		stream[i] = ctrl
		dataPos += shared.ControlByteToSize(ctrl)
	}
	if rest := len(in) % 4; rest != 0 {
		ctrl := encode.PutUint32Scalar(in[4*full:], stream[dataPos:], rest)
		stream[full] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) - (4 - rest)
	}
	return stream[:dataPos]
}
''')]}, ['writer.WriteAllScalar'])

# while-style loop with a shrinking slice
v('w-shrink', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	ctrlLen := (len(in) + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*len(in)))
	dataPos := ctrlLen
	ctrlPos := 0
	for len(in) >= 4 {
		ctrl := encode.Put4uint32Scalar(in, stream[dataPos:])
		stream[ctrlPos] = ctrl
		dataPos += shared.ControlByteToSize(ctrl)
		ctrlPos++
		in = in[4:]
	}
	if len(in) > 0 {
		ctrl := encode.PutUint32Scalar(in, stream[dataPos:], len(in))
		stream[ctrlPos] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) - (4 - len(in))
	}
	return stream[:dataPos]
}
''')]}, ['writer.WriteAllScalar'])

# min helper in the tail, statements reordered
v('w-min-helper', {WA: [
  ('app', '''
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
'''),
  ('sub', '''		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
''', '''		nums := minInt(count-encoded, 4)
''')]}, ['writer.WriteAllFast', 'writer.WriteAllDeltaFast'])

# helper that stores a two byte control
v('w-store-ctrl', {WA: [
  ('app', '''
func storeCtrl(dst []byte, ctrl uint16) int {
	dst[0] = uint8(ctrl)
	dst[1] = uint8(ctrl >> 8)
	return shared.ControlByteToSizeTwo(ctrl)
}
'''),
  ('sub', '''		ctrls[0] = uint8(ctrl & 0xff)
		ctrls[1] = uint8(ctrl >> 8)
		sizeA := shared.ControlByteToSizeTwo(ctrl)
''', '''		sizeA := storeCtrl(ctrls, ctrl)
'''),
  ('sub', '''		ctrls[2] = uint8(ctrl & 0xff)
		ctrls[3] = uint8(ctrl >> 8)
		sizeB := shared.ControlByteToSizeTwo(ctrl)
''', '''		sizeB := storeCtrl(ctrls[2:], ctrl)
'''),
  ('sub', '''		ctrls[4] = uint8(ctrl & 0xff)
		ctrls[5] = uint8(ctrl >> 8)
		sizeC := shared.ControlByteToSizeTwo(ctrl)
''', '''		sizeC := storeCtrl(ctrls[4:], ctrl)
'''),
  ('sub', '''		ctrls[6] = uint8(ctrl & 0xff)
		ctrls[7] = uint8(ctrl >> 8)
		sizeD := shared.ControlByteToSizeTwo(ctrl)
''', '''		sizeD := storeCtrl(ctrls[6:8], ctrl)
''')]}, ['writer.WriteAllFast', 'writer.WriteAllDeltaFast'])

# binary.LittleEndian for the control pair
v('w-le', {WA: [('imp', 'encoding/binary'),
  ('sub', '''		stream[ctrlPos] = uint8(ctrl & 0xff)
		stream[ctrlPos+1] = uint8(ctrl >> 8)
''', '''		binary.LittleEndian.PutUint16(stream[ctrlPos:], ctrl)
''')]}, ['writer.WriteAllFast', 'writer.WriteAllDeltaFast'])

# inner loop over the four groups of eight
v('w-fast-inner', {WA: [('fn', 'WriteAllDeltaFast', '''
func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
	var (
		count    = len(in)
		ctrlLen  = (count + 3) / 4
		stream   = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
		dataPos  = ctrlLen
		ctrlPos  = 0
		encoded  = 0
		lowest32 = ((ctrlLen - 3) * 4) &^ 31
	)

	for encoded < lowest32 {
		nums := in[encoded : encoded+32]
		for i := 0; i < 4; i++ {
			ctrl := encode.Put8uint32DeltaFastAsm(
				nums[i*8:(i+1)*8],
				stream[dataPos:],
				prev,
				shared.EncodeShuffleTable,
				shared.PerControlLenTable,
			)
			stream[ctrlPos] = uint8(ctrl & 0xff)
			stream[ctrlPos+1] = uint8(ctrl >> 8)
			ctrlPos += 2
			dataPos += shared.ControlByteToSizeTwo(ctrl)
			prev = nums[i*8+7]
		}
		encoded += 32
	}

	for ctrlPos < ctrlLen-2 {
		ctrl := encode.Put8uint32DeltaFastAsm(
			in[encoded:],
			stream[dataPos:],
			prev,
			shared.EncodeShuffleTable,
			shared.PerControlLenTable,
		)
		prev = in[encoded+7]
		stream[ctrlPos] = uint8(ctrl & 0xff)
		stream[ctrlPos+1] = uint8(ctrl >> 8)
		ctrlPos += 2
		encoded += 8
		dataPos += shared.ControlByteToSizeTwo(ctrl)
	}

	for encoded < count {
		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
		ctrl := encode.PutUint32DeltaScalar(in[encoded:], stream[dataPos:], nums, prev)
		stream[ctrlPos] = ctrl
		ctrlPos++
		dataPos += shared.ControlByteToSize(ctrl) - (4 - nums)
		encoded += nums
		prev = in[encoded-1]
	}

	return stream[:dataPos]
}
''')]}, ['writer.WriteAllDeltaFast'])

# helper for the tail shared by both fast writers (function extracted with several results)
v('w-tail-helper', {WA: [
  ('app', '''
func writeTail(in []uint32, stream []byte, encoded, ctrlPos, dataPos int) []byte {
	for ; encoded < len(in); ctrlPos++ {
		nums := len(in) - encoded
		if nums > 4 {
			nums = 4
		}
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
		stream[ctrlPos] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) + nums - 4
		encoded += nums
	}
	return stream[:dataPos]
}
'''),
  ('sub', '''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
		size := shared.ControlByteToSize(ctrl)
		stream[ctrlPos] = ctrl
		size -= 4 - nums
		dataPos += size
		encoded += nums
	}

	return stream[:dataPos]
''', '''	return writeTail(in, stream, encoded, ctrlPos, dataPos)
''')]}, ['writer.WriteAllFast'])

# helper returning several values for the group of 16, early return on empty input
v('w-multi-helper', {W: [
  ('app', '''
func write16(nums []uint32, data, ctrls []byte, prev uint32) (size int, last uint32) {
	for i := range ctrls[:jumpCtrl] {
		ctrls[i] = encode.Put4uint32DeltaScalar(nums[4*i:], data[size:], prev)
		size += shared.ControlByteToSize(ctrls[i])
		prev = nums[4*i+3]
	}
	return size, prev
}
'''),
  ('fn', 'WriteAllDeltaScalar', '''
func WriteAllDeltaScalar(in []uint32, prev uint32) []byte {
	count := len(in)
	if count == 0 {
		return []byte{}
	}
	ctrlLen := (count + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
	dataPos, ctrlPos, encoded := ctrlLen, 0, 0

	for ; encoded+jump <= count; encoded += jump {
		var size int
		size, prev = write16(in[encoded:encoded+jump], stream[dataPos:], stream[ctrlPos:ctrlPos+jumpCtrl], prev)
		dataPos += size
		ctrlPos += jumpCtrl
	}

	for ; encoded+4 <= count; encoded += 4 {
		ctrl := encode.Put4uint32DeltaScalar(in[encoded:], stream[dataPos:], prev)
		prev = in[encoded+3]
		stream[ctrlPos] = ctrl
		ctrlPos++
		dataPos += shared.ControlByteToSize(ctrl)
	}

	if nums := count - encoded; nums > 0 {
		stream[ctrlPos] = encode.PutUint32DeltaScalar(in[encoded:], stream[dataPos:], nums, prev)
		dataPos += shared.ControlByteToSize(stream[ctrlPos]) - 4 + nums
	}

	return stream[:dataPos]
}
''')]}, ['writer.WriteAllDeltaScalar'])

# mode dispatch as a switch, result variable
v('w-dispatch', {W: [('fn', 'WriteAll', '''
func WriteAll(in []uint32) []byte {
	switch encode.GetMode() {
	case shared.Fast:
		return WriteAllFast(in)
	default:
		return WriteAllScalar(in)
	}
}
'''), ('fn', 'WriteAllDelta', '''
func WriteAllDelta(in []uint32, prev uint32) (out []byte) {
	write := WriteAllDeltaScalar
	if encode.GetMode() == shared.Fast {
		write = WriteAllDeltaFast
	}
	out = write(in, prev)
	return
}
''')]}, ['writer.WriteAll', 'writer.WriteAllDelta'])

# prev recomputed from the input instead of carried
v('w-prev-index', {W: [
  ('sub', '''		dataPos += size
		ctrlPos++
		prev = in[encoded+3]
''', '''		dataPos += size
		ctrlPos++
		prev = in[encoded : encoded+4][3]
'''),
  ('sub', '''		nums := count - lowest4
		ctrl := encode.PutUint32DeltaScalar(in[encoded:], stream[dataPos:], nums, prev)
''', '''		nums := count & 3
		if lowest4 > 0 {
			prev = in[lowest4-1]
		}
		ctrl := encode.PutUint32DeltaScalar(in[lowest4:], stream[dataPos:], nums, prev)
''')]}, ['writer.WriteAllDeltaScalar'])

# counted with a down counter
v('w-down', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	count := len(in)
	ctrlLen := (count + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
	ctrls, data := stream[:ctrlLen], stream[ctrlLen:]
	dataPos := 0
	for i, left := 0, count; left > 0; i++ {
		n := 4
		if left < 4 {
			n = left
		}
		ctrl := encode.PutUint32Scalar(in[4*i:], data[dataPos:], n)
		ctrls[i] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) - (4 - n)
		left -= n
	}
	return stream[:ctrlLen+dataPos]
}
''')]}, ['writer.WriteAllScalar'])

# range over the control bytes
v('w-range', {W: [('fn', 'WriteAllScalar', '''
func WriteAllScalar(in []uint32) []byte {
	count := len(in)
	ctrlLen := (count + 3) / 4
	stream := make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
	dataPos := ctrlLen
	for i := range stream[:ctrlLen] {
		lo, hi := 4*i, 4*i+4
		if hi > count {
			hi = count
		}
		nums := in[lo:hi]
		ctrl := encode.PutUint32Scalar(nums, stream[dataPos:], len(nums))
		stream[i] = ctrl
		dataPos += shared.ControlByteToSize(ctrl) - (4 - len(nums))
	}
	return stream[:dataPos]
}
''')]}, ['writer.WriteAllScalar'])
