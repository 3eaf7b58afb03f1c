package main

import (
	"fmt"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"os"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

func main() {
	buf := make([]uint32, 64)
	for off := 0; off < 8; off++ {
		in := buf[off : off+8]
		for k := range in {
			in[k] = uint32(k) * 77777
		}
		out := make([]byte, 64)
		want := make([]byte, 64)
		c := encode.Put8uint32(in, out)
		w := encode.Put8uint32Scalar(in, want)
		if c != w || string(out[:22]) != string(want[:22]) {
			fail("offset %d: differs", off)
		}
	}
}
