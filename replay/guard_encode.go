package encode

import "fmt"

// The assembly functions, under the name the library calls, with their precondition
// on memory checked first.  (Only for replays: an accelerated store behind the end of
// the output would corrupt memory silently.)

type memFault struct{ what string }

func (m memFault) Error() string { return m.what }
func (m memFault) Addr() uintptr { return 0 }

func zzlen(x uint32) int {
	n := 1
	for x > 255 {
		x >>= 8
		n++
	}
	return n
}

func zzcheck(name string, in []uint32, out []byte, delta bool, prev uint32) {
	if len(in) < 8 {
		panic(memFault{fmt.Sprintf("%s reads 8 integers of a slice of %d", name, len(in))})
	}
	if len(out) < 16 {
		panic(memFault{fmt.Sprintf("%s stores 16 bytes into a slice of %d", name, len(out))})
	}
	n := 0
	for _, x := range in[:4] {
		y := x
		if delta {
			y = x - prev
			prev = x
		}
		n += zzlen(y)
	}
	if n+16 > cap(out) {
		panic(memFault{fmt.Sprintf("%s stores bytes %d to %d of a buffer of %d", name, n, n+16, cap(out))})
	}
}

func Put8uint32FastAsm(in []uint32, outBytes []byte, shuffle *[256][16]uint8, lenTable *[256]uint8) (r uint16) {
	zzcheck("Put8uint32FastAsm", in, outBytes, false, 0)
	return zzPut8uint32FastAsm(in, outBytes, shuffle, lenTable)
}

func Put8uint32DeltaFastAsm(in []uint32, outBytes []byte, prev uint32, shuffle *[256][16]uint8, lenTable *[256]uint8) (r uint16) {
	zzcheck("Put8uint32DeltaFastAsm", in, outBytes, true, prev)
	return zzPut8uint32DeltaFastAsm(in, outBytes, prev, shuffle, lenTable)
}
