package decode

import "fmt"

// See guard_encode.go.

type memFault struct{ what string }

func (m memFault) Error() string { return m.what }
func (m memFault) Addr() uintptr { return 0 }

func zzcheck(name string, in []byte, out []uint32, ctrl uint16) {
	if len(out) < 8 {
		panic(memFault{fmt.Sprintf("%s stores 8 integers into a slice of %d", name, len(out))})
	}
	n := 4
	for j := uint(0); j < 4; j++ {
		n += int(ctrl>>(2*j)) & 3
	}
	if len(in) < 16 || n+16 > cap(in) {
		panic(memFault{fmt.Sprintf("%s reads bytes 0 to 16 and %d to %d of a buffer of %d (length %d)", name, n, n+16, cap(in), len(in))})
	}
}

func Get8uint32FastAsm(in []byte, out []uint32, ctrl uint16, shuffle *[256][16]uint8, lenTable *[256]uint8) {
	zzcheck("Get8uint32FastAsm", in, out, ctrl)
	zzGet8uint32FastAsm(in, out, ctrl, shuffle, lenTable)
}

func Get8uint32DeltaFastAsm(in []byte, out []uint32, ctrl uint16, prev uint32, shuffle *[256][16]uint8, lenTable *[256]uint8) {
	zzcheck("Get8uint32DeltaFastAsm", in, out, ctrl)
	zzGet8uint32DeltaFastAsm(in, out, ctrl, prev, shuffle, lenTable)
}
