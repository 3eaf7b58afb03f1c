# Behaviour-preserving rewrites of pkg/stream/reader.
R = 'pkg/stream/reader/reader.go'
RA = 'pkg/stream/reader/reader_amd64.go'
VARIANTS = []
def v(id, files, fns=None, props=None):
    VARIANTS.append({'id': id, 'files': files, 'fns': fns, 'props': props})

v('r-helper-quad', {R: [
  ('app', '''
func readQuad(stream []byte, dataPos int, out []uint32, ctrl uint8) int {
	decode.Get4uint32Scalar(stream[dataPos:], out, ctrl)
	return dataPos + shared.ControlByteToSize(ctrl)
}
'''),
  ('sub', '''		ctrl := stream[ctrlPos]
		decode.Get4uint32Scalar(stream[dataPos:], out[decoded:], ctrl)
		size := shared.ControlByteToSize(ctrl)
		dataPos += size
		ctrlPos++
''', '''		dataPos = readQuad(stream, dataPos, out[decoded:], stream[ctrlPos])
		ctrlPos++
''')]}, ['reader.ReadAllScalar'])

v('r-inner-loop', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	ctrlLen := (count + 3) / 4
	dataPos, ctrlPos, decoded := ctrlLen, 0, 0
	lowestJump := count &^ (jump - 1)

	for ; decoded < lowestJump; decoded += jump {
		nums := out[decoded : decoded+jump]
		for j := 0; j < jump; j += 4 {
			ctrl := stream[ctrlPos]
			decode.Get4uint32DeltaScalar(stream[dataPos:], nums[j:], ctrl, prev)
			prev = nums[j+3]
			dataPos += shared.ControlByteToSize(ctrl)
			ctrlPos++
		}
	}

	for ; decoded < count&^3; decoded += 4 {
		ctrl := stream[ctrlPos]
		decode.Get4uint32DeltaScalar(stream[dataPos:], out[decoded:], ctrl, prev)
		dataPos += shared.ControlByteToSize(ctrl)
		ctrlPos++
		prev = out[decoded+3]
	}

	if rest := count & 3; rest > 0 {
		decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], rest, prev)
	}
}
''')]}, ['reader.ReadAllDeltaScalar'])

v('r-one-loop', {R: [('fn', 'ReadAllScalar', '''
func ReadAllScalar(count int, stream []byte, out []uint32) {
	dataPos := (count + 3) / 4
	for i := 0; i < count/4; i++ {
		decode.Get4uint32Scalar(stream[dataPos:], out[4*i:4*i+4], stream[i])
		dataPos += shared.ControlByteToSize(stream[i])
	}
	if rest := count % 4; rest != 0 {
		decode.GetUint32Scalar(stream[dataPos:], out[count-rest:], stream[count/4], rest)
	}
}
''')]}, ['reader.ReadAllScalar'])

v('r-split', {R: [('fn', 'ReadAllScalar', '''
func ReadAllScalar(count int, stream []byte, out []uint32) {
	ctrls := stream[:(count+3)/4]
	data := stream[(count+3)/4:]
	for _, ctrl := range ctrls {
		if count >= 4 {
			decode.Get4uint32Scalar(data, out, ctrl)
			data = data[shared.ControlByteToSize(ctrl):]
			out = out[4:]
			count -= 4
		} else {
			decode.GetUint32Scalar(data, out, ctrl, count)
		}
	}
}
''')]}, ['reader.ReadAllScalar'])

v('r-tail-count', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	dataPos := (count + 3) / 4
	ctrlPos := 0
	for decoded := 0; decoded < count; {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], nums, prev)
		decoded += nums
		prev = out[decoded-1]
		ctrlPos++
	}
}
''')]}, ['reader.ReadAllDeltaScalar'])

v('r-ctrl16', {RA: [
  ('app', '''
func loadCtrl(b []byte) uint16 {
	return uint16(b[1])<<8 | uint16(b[0])
}

func quadSizes(b []byte) int {
	return shared.ControlByteToSize(b[0]) + shared.ControlByteToSize(b[1])
}
'''),
  ('sub', 'uint16(ctrls[0]) | uint16(ctrls[1])<<8', 'loadCtrl(ctrls)'),
  ('sub', 'uint16(ctrls[2]) | uint16(ctrls[3])<<8', 'loadCtrl(ctrls[2:])'),
  ('sub', 'uint16(ctrls[4]) | uint16(ctrls[5])<<8', 'loadCtrl(ctrls[4:])'),
  ('sub', 'uint16(ctrls[6]) | uint16(ctrls[7])<<8', 'loadCtrl(ctrls[6:])'),
  ('sub', 'uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8', 'loadCtrl(stream[ctrlPos:])'),
  ('sub', 'shared.ControlByteToSize(ctrls[0]) + shared.ControlByteToSize(ctrls[1])', 'quadSizes(ctrls)'),
  ('sub', 'shared.ControlByteToSize(stream[ctrlPos]) + shared.ControlByteToSize(stream[ctrlPos+1])', 'quadSizes(stream[ctrlPos:])'),
  ]}, ['reader.ReadAllFast', 'reader.ReadAllDeltaFast'])

v('r-sizetwo', {RA: [
  ('sub', 'shared.ControlByteToSize(ctrls[0]) + shared.ControlByteToSize(ctrls[1])', 'shared.ControlByteToSizeTwo(ctrl)'),
  ('sub', 'shared.ControlByteToSize(ctrls[2]) + shared.ControlByteToSize(ctrls[3])', 'shared.ControlByteToSizeTwo(ctrl)'),
  ('sub', 'shared.ControlByteToSize(stream[ctrlPos]) + shared.ControlByteToSize(stream[ctrlPos+1])', 'shared.ControlByteToSizeTwo(ctrl)'),
  ]}, ['reader.ReadAllFast', 'reader.ReadAllDeltaFast'])

v('r-le', {RA: [('imp', 'encoding/binary'),
  ('sub', 'uint16(ctrls[0]) | uint16(ctrls[1])<<8', 'binary.LittleEndian.Uint16(ctrls)'),
  ('sub', 'uint16(ctrls[2]) | uint16(ctrls[3])<<8', 'binary.LittleEndian.Uint16(ctrls[2:])'),
  ('sub', 'uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8', 'binary.LittleEndian.Uint16(stream[ctrlPos:])'),
  ]}, ['reader.ReadAllFast', 'reader.ReadAllDeltaFast'])

v('r-fast-inner', {RA: [('fn', 'ReadAllDeltaFast', '''
func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
	var (
		ctrlLen  = (count + 3) / 4
		dataPos  = ctrlLen
		fullCtrl = count / 4
		lowest32 = ((fullCtrl - 3) * 4) &^ 31
		decoded  int
		ctrlPos  int
	)

	for decoded < lowest32 {
		for i := 0; i < 4; i++ {
			ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
			decode.Get8uint32DeltaFastAsm(
				stream[dataPos:],
				out[decoded:decoded+8],
				ctrl,
				prev,
				shared.DecodeShuffleTable,
				shared.PerControlLenTable,
			)
			dataPos += shared.ControlByteToSizeTwo(ctrl)
			ctrlPos += 2
			decoded += 8
			prev = out[decoded-1]
		}
	}

	for ctrlPos+4 < fullCtrl {
		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
		decode.Get8uint32DeltaFastAsm(
			stream[dataPos:],
			out[decoded:],
			ctrl,
			prev,
			shared.DecodeShuffleTable,
			shared.PerControlLenTable,
		)
		prev = out[decoded+7]
		dataPos += shared.ControlByteToSizeTwo(ctrl)
		decoded += 8
		ctrlPos += 2
	}

	for ; decoded < count; ctrlPos++ {
		nums := count - decoded
		if nums >= 4 {
			nums = 4
		}
		dataPos += decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], nums, prev)
		decoded += nums
		prev = out[decoded-1]
	}
}
''')]}, ['reader.ReadAllDeltaFast'])

v('r-tail-helper', {RA: [
  ('app', '''
func readTail(count int, stream []byte, out []uint32, decoded, ctrlPos, dataPos int) {
	ctrlLen := (count + 3) / 4
	for ctrlPos < ctrlLen {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], nums)
		decoded += nums
		ctrlPos++
	}
}
'''),
  ('sub', '''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32Scalar(
			stream[dataPos:],
			out[decoded:],
			stream[ctrlPos],
			nums,
		)
		decoded += nums
	}
''', '''	readTail(count, stream, out, decoded, ctrlPos, dataPos)
'''), ('sub', '		ctrlLen = dataPos\n', '', 1)]}, ['reader.ReadAllFast'])

v('r-wrapper', {RA: [
  ('sub', '''		decode.Get8uint32FastAsm(
			stream[dataPos:],
			out[decoded:],
			ctrl,
			shared.DecodeShuffleTable,
			shared.PerControlLenTable,
		)
''', '''		decode.Get8uint32Fast(stream[dataPos:], out[decoded:], ctrl)
'''), ('sub', 'fullCtrl-4; ctrlPos += 2 {', 'fullCtrl-4; {'),
  ('sub', '''		decoded += 8
''', '''		decoded += 8
		ctrlPos += 2
''')]}, ['reader.ReadAllFast', 'reader.ReadAllDeltaFast'])

v('r-dispatch', {R: [('fn', 'ReadAll', '''
func ReadAll(count int, stream []byte, out []uint32) {
	if mode := decode.GetMode(); mode != shared.Fast {
		ReadAllScalar(count, stream, out)
		return
	}
	ReadAllFast(count, stream, out)
}
'''), ('fn', 'ReadAllDelta', '''
func ReadAllDelta(count int, stream []byte, out []uint32, prev uint32) {
	switch decode.GetMode() {
	case shared.Fast:
		ReadAllDeltaFast(count, stream, out, prev)
	case shared.Normal:
		ReadAllDeltaScalar(count, stream, out, prev)
	default:
		ReadAllDeltaScalar(count, stream, out, prev)
	}
}
''')]}, ['reader.ReadAll', 'reader.ReadAllDelta'])

# remaining counts down, slices shrink
v('r-remaining', {R: [('fn', 'ReadAllDeltaScalar', '''
func ReadAllDeltaScalar(count int, stream []byte, out []uint32, prev uint32) {
	ctrlLen := (count + 3) / 4
	ctrls, data := stream[:ctrlLen], stream[ctrlLen:]
	remaining := count
	for remaining >= 4 {
		ctrl := ctrls[0]
		decode.Get4uint32DeltaScalar(data, out, ctrl, prev)
		prev = out[3]
		ctrls = ctrls[1:]
		data = data[shared.ControlByteToSize(ctrl):]
		out = out[4:]
		remaining -= 4
	}
	if remaining > 0 {
		decode.GetUint32DeltaScalar(data, out, ctrls[0], remaining, prev)
	}
}
''')]}, ['reader.ReadAllDeltaScalar'])

# an early return and a deferred computation of the limits
v('r-early', {RA: [
  ('sub', '''	for ; decoded < lowest32; decoded += 32 {
		data := stream[dataPos:]
''', '''	if count == 0 {
		return
	}

	for ; decoded < lowest32; decoded += 32 {
		data := stream[dataPos:]
''')]}, ['reader.ReadAllFast', 'reader.ReadAllDeltaFast'])
