// Package rand stands in for math/rand: it returns the numbers of a script.
package rand

var Script []uint64
var Pos int

func next() uint64 {
	if len(Script) == 0 {
		return 0
	}
	v := Script[Pos%len(Script)]
	Pos++
	return v
}

func Seed(int64)         {}
func Uint32() uint32     { return uint32(next()) }
func Uint64() uint64     { return next() }
func Int() int           { return int(next() & (1<<63 - 1)) }
func Int63() int64       { return int64(next() & (1<<63 - 1)) }
func Int31() int32       { return int32(next() & (1<<31 - 1)) }
func Intn(n int) int     { return int(next() % uint64(n)) }
func Int31n(n int32) int32 { return int32(next() % uint64(n)) }
func Int63n(n int64) int64 { return int64(next() % uint64(n)) }
