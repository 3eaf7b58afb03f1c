package main

import (
	"fmt"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
	ctl "github.com/theMPatel/streamvbyte-simdgo/zz_verif_rand"
)

func init() {
	add("util.RandUint32", "rand", false, 0, util.RandUint32)
	more["rand"] = randomHelper
}

// the byte length of the number is fixed by the first draw, and each of 1 to 4 occurs
func randomHelper(w *worker, f fn, k int) (*kase, *finding) {
	seen := map[int]bool{}
	firsts := []uint64{}
	for i := uint64(0); i < 64; i++ {
		firsts = append(firsts, i)
	}
	for i := 0; i < 8; i++ {
		firsts = append(firsts, w.r.Uint64())
	}
	seconds := []uint64{}
	for _, x := range edge {
		for d := uint32(0); d < 5; d++ {
			seconds = append(seconds, uint64(x+d-2))
		}
	}
	for _, x := range []uint32{1 << 8, 1<<16 - 1<<8, 1<<24 - 1<<16, 0xff000000} {
		for d := uint32(0); d < 7; d++ {
			seconds = append(seconds, uint64(x+d-3))
		}
	}
	for _, x := range w.consts {
		seconds = append(seconds, uint64(x), uint64(x-1), uint64(x+1))
	}
	for i := 0; i < 200; i++ {
		seconds = append(seconds, w.r.Uint64())
	}
	for _, a := range firsts {
		n := 0
		var x0 uint32
		var b0 uint64
		for _, b := range seconds {
			ctl.Script = []uint64{a, b, b}
			ctl.Pos = 0
			var x uint32
			c := &kase{Func: f.name, Note: fmt.Sprintf("random source returns %d, then %d", a, b)}
			w.begin(c)
			fd := guarded(func() { x = f.f.(func() uint32)() })
			w.end()
			if fd != nil {
				return c, fd
			}
			l := blen(x)
			seen[l] = true
			if n != 0 && l != n {
				return c, &finding{"func", fmt.Sprintf("%d has %d bytes, but after the same first draw and then %d the number is %d, of %d bytes", x, l, b0, x0, n)}
			}
			n, x0, b0 = l, x, b
		}
	}
	for l := 1; l <= 4; l++ {
		if !seen[l] {
			return &kase{Func: f.name}, &finding{"func", fmt.Sprintf("no first draw gives a number of %d bytes", l)}
		}
	}
	return nil, nil
}
