// Command replay searches for inputs on which the library, as built from the
// repository's current source, departs from the format.  It is compiled into the
// repository's module through an overlay and is only run to turn an obligation
// that failed into a concrete failing input.
//
// The oracle below is written from the definition of the format only.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

// ---------------------------------------------------------------- oracle

func blen(x uint32) int {
	n := 1
	for x > 255 {
		x >>= 8
		n++
	}
	return n
}

func diffs(in []uint32, prev uint32) []uint32 {
	out := make([]uint32, len(in))
	for i, x := range in {
		out[i] = x - prev
		prev = x
	}
	return out
}

func sums(in []uint32, prev uint32) []uint32 {
	out := make([]uint32, len(in))
	for i, x := range in {
		prev += x
		out[i] = prev
	}
	return out
}

// encode with the given byte lengths (minimal ones if ls is nil)
func oracle(in []uint32, ls []int) []byte {
	nc := (len(in) + 3) / 4
	ctl := make([]byte, nc)
	var data []byte
	for i, x := range in {
		n := blen(x)
		if ls != nil {
			n = ls[i]
		}
		ctl[i/4] |= byte(n-1) << (2 * uint(i%4))
		for k := 0; k < n; k++ {
			data = append(data, byte(x>>(8*uint(k))))
		}
	}
	return append(ctl, data...)
}

func ctlOf(in []uint32) byte {
	var c byte
	for j, x := range in {
		c |= byte(blen(x)-1) << (2 * uint(j))
	}
	return c
}

func dataOf(in []uint32) []byte {
	var d []byte
	for _, x := range in {
		for k := 0; k < blen(x); k++ {
			d = append(d, byte(x>>(8*uint(k))))
		}
	}
	return d
}

func size(c byte, n int) int {
	t := 0
	for j := 0; j < n; j++ {
		t += int(c>>(2*uint(j)))&3 + 1
	}
	return t
}

func group(data []byte, c byte, n int) []uint32 {
	out := []uint32{}
	p := 0
	for j := 0; j < n; j++ {
		l := int(c>>(2*uint(j)))&3 + 1
		var x uint32
		for k := 0; k < l; k++ {
			x |= uint32(data[p+k]) << (8 * uint(k))
		}
		p += l
		out = append(out, x)
	}
	return out
}

// ---------------------------------------------------------------- memory

const arenaSize = 1 << 24

type arena struct{ mem []byte }

func newArena() *arena {
	ps := os.Getpagesize()
	m, err := syscall.Mmap(-1, 0, arenaSize+2*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:ps], syscall.PROT_NONE)
	syscall.Mprotect(m[ps+arenaSize:], syscall.PROT_NONE)
	return &arena{m[ps : ps+arenaSize : ps+arenaSize+ps]}
}

// bytes returns n bytes: directly before the guard page (tail), directly after
// the other one (head), or in the middle
func (a *arena) bytes(n int, place int, align int) []byte {
	switch place {
	case 0:
		// the capacity reaches into the guard page: memory past the length is not to be touched
		o := arenaSize - n
		return a.mem[o : o+n : o+n+64]
	case 1:
		return a.mem[0:n:n]
	}
	o := (arenaSize/2 - n/2) / 16 * 16
	// no more aligned than the type of the elements is
	if align == 4 {
		o += 4 * (place - 2)
	} else {
		o += 5 * (place - 2)
	}
	return a.mem[o : o+n : o+n]
}

func (a *arena) words(n int, place int) []uint32 {
	b := a.bytes(4*n, place, 4)
	if n == 0 {
		return []uint32{}
	}
	var w []uint32
	h := (*[3]uintptr)(unsafe.Pointer(&w))
	h[0] = uintptr(unsafe.Pointer(&b[0]))
	h[1] = uintptr(n)
	h[2] = uintptr(cap(b) / 4)
	runtime.KeepAlive(b)
	return w
}

// ---------------------------------------------------------------- cases

type kase struct {
	Func  string
	Mode  string   `json:",omitempty"`
	In    []uint32 `json:",omitempty"`
	Bytes []byte   `json:"-"`
	Hex   string   `json:"Stream,omitempty"`
	Out   int
	Count int
	Ctrl  uint16
	Prev  uint32
	Place int
	Note  string `json:",omitempty"`
	What  string
}

type finding struct {
	Mode string
	What string
}

type fn struct {
	name  string
	kind  string
	delta bool
	slack int // bytes needed behind the start of the last group
	f     interface{}
}

var fns []fn

func add(name, kind string, delta bool, slack int, f interface{}) {
	fns = append(fns, fn{name, kind, delta, slack, f})
}

func init() {
	add("writer.WriteAll", "encstream", false, 0, writer.WriteAll)
	add("writer.WriteAllScalar", "encstream", false, 0, writer.WriteAllScalar)
	add("writer.WriteAllDelta", "encstream", true, 0, writer.WriteAllDelta)
	add("writer.WriteAllDeltaScalar", "encstream", true, 0, writer.WriteAllDeltaScalar)
	add("reader.ReadAll", "decstream", false, 0, reader.ReadAll)
	add("reader.ReadAllScalar", "decstream", false, 0, reader.ReadAllScalar)
	add("reader.ReadAllDelta", "decstream", true, 0, reader.ReadAllDelta)
	add("reader.ReadAllDeltaScalar", "decstream", true, 0, reader.ReadAllDeltaScalar)
	add("encode.Put8uint32", "enc8", false, 16, encode.Put8uint32)
	add("encode.Put8uint32Scalar", "enc8", false, 0, encode.Put8uint32Scalar)
	add("encode.Put8uint32Delta", "enc8", true, 16, encode.Put8uint32Delta)
	add("encode.Put8uint32DeltaScalar", "enc8", true, 0, encode.Put8uint32DeltaScalar)
	add("encode.Put4uint32Scalar", "enc4", false, 0, encode.Put4uint32Scalar)
	add("encode.Put4uint32DeltaScalar", "enc4", true, 0, encode.Put4uint32DeltaScalar)
	add("encode.PutUint32Scalar", "encpart", false, 0, encode.PutUint32Scalar)
	add("encode.PutUint32DeltaScalar", "encpart", true, 0, encode.PutUint32DeltaScalar)
	add("decode.Get8uint32", "dec8", false, 16, decode.Get8uint32)
	add("decode.Get8uint32Scalar", "dec8", false, 0, decode.Get8uint32Scalar)
	add("decode.Get8uint32Delta", "dec8", true, 16, decode.Get8uint32Delta)
	add("decode.Get8uint32DeltaScalar", "dec8", true, 0, decode.Get8uint32DeltaScalar)
	add("decode.Get4uint32Scalar", "dec4", false, 0, decode.Get4uint32Scalar)
	add("decode.Get4uint32DeltaScalar", "dec4", true, 0, decode.Get4uint32DeltaScalar)
	add("decode.GetUint32Scalar", "decpart", false, 0, decode.GetUint32Scalar)
	add("decode.GetUint32DeltaScalar", "decpart", true, 0, decode.GetUint32DeltaScalar)
	add("shared.ControlByteToSize", "size1", false, 0, shared.ControlByteToSize)
	add("shared.ControlByteToSizeTwo", "size2", false, 0, shared.ControlByteToSizeTwo)
}

type worker struct {
	r        *rand.Rand
	a, b     *arena
	c        *arena
	modes    map[string]bool
	consts   []uint32
	lens     []int
	cur      atomic.Value
	started  atomic.Int64
	cases    atomic.Int64
	poisoned bool
}

var edge = []uint32{0, 1, 2, 127, 128, 254, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x1000001,
	0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x00ff00ff, 0xff00ff00, 0x01000100, 0x01010101, 0x00010000, 0x40000000}

func (w *worker) value() uint32 {
	r := w.r
	switch k := r.Intn(10); {
	case k < 3:
		return edge[r.Intn(len(edge))]
	case k < 5 && len(w.consts) > 0:
		c := w.consts[r.Intn(len(w.consts))]
		switch r.Intn(6) {
		case 0:
			return c + 1
		case 1:
			return c - 1
		case 2:
			return c << (8 * uint(r.Intn(4)))
		}
		return c
	case k < 6:
		return uint32(1)<<uint(r.Intn(32)) - uint32(r.Intn(2))
	}
	return r.Uint32() >> (8 * uint(r.Intn(4)))
}

func (w *worker) values(n int) []uint32 {
	r := w.r
	v := make([]uint32, n)
	switch r.Intn(12) {
	case 0: // one class
		s := 8 * uint(r.Intn(4))
		for i := range v {
			v[i] = (r.Uint32() | 0x80000000) >> s
		}
	case 1: // constant
		x := w.value()
		for i := range v {
			v[i] = x
		}
	case 2: // ascending
		x := w.value()
		s := 8 * uint(r.Intn(4))
		for i := range v {
			x += r.Uint32() >> s
			v[i] = x
		}
	case 3: // descending
		x := w.value()
		s := 8*uint(r.Intn(4)) + 1
		for i := range v {
			x -= r.Uint32() >> s
			v[i] = x
		}
	case 4: // small
		for i := range v {
			v[i] = uint32(r.Intn(256))
		}
	case 5: // runs
		x := w.value()
		for i := range v {
			if r.Intn(5) == 0 {
				x = w.value()
			}
			v[i] = x
		}
	case 6: // mostly small, few others
		for i := range v {
			v[i] = uint32(r.Intn(256))
			if r.Intn(8) == 0 {
				v[i] = w.value()
			}
		}
	case 7: // mostly large, few others
		for i := range v {
			v[i] = r.Uint32() | 0x80000000
			if r.Intn(8) == 0 {
				v[i] = w.value()
			}
		}
	case 8: // groups of one class each
		s := uint(0)
		for i := range v {
			if i%4 == 0 {
				s = 8 * uint(r.Intn(4))
			}
			v[i] = (r.Uint32() | 0x80000000) >> s
		}
	case 9: // repeated pattern
		p := 1 + r.Intn(9)
		for i := range v {
			if i < p {
				v[i] = w.value()
			} else {
				v[i] = v[i-p]
			}
		}
	default:
		for i := range v {
			v[i] = w.value()
		}
	}
	return v
}

func (w *worker) length() int {
	r := w.r
	switch k := r.Intn(200); {
	case k < 110:
		return r.Intn(42)
	case k < 150 && len(w.lens) > 0:
		n := w.lens[r.Intn(len(w.lens))]
		switch r.Intn(5) {
		case 0:
			n += r.Intn(9) - 4
		case 1:
			n = 4*n + r.Intn(9) - 4
		case 2:
			n = 8*n + r.Intn(17) - 8
		}
		if n < 0 || n > 200000 {
			return r.Intn(42)
		}
		return n
	case k < 185:
		return r.Intn(300)
	case k < 198:
		return r.Intn(3000)
	}
	return 16000 + r.Intn(60000)
}

func (w *worker) prev(in []uint32) uint32 {
	switch w.r.Intn(6) {
	case 0:
		return 0
	case 1:
		if len(in) > 0 {
			return in[0] + uint32(w.r.Intn(3)) - 1
		}
	case 2:
		if len(in) > 0 {
			return in[w.r.Intn(len(in))]
		}
	}
	return w.value()
}

func (w *worker) place() int {
	if w.modes["mem"] {
		return w.r.Intn(6)
	}
	return 2 + w.r.Intn(4)
}

// place values in memory surrounded by a known pattern
func (w *worker) putWords(a *arena, v []uint32, place int) []uint32 {
	s := a.words(len(v), place)
	copy(s, v)
	return s
}
func (w *worker) fill(b []byte) {
	for i := range b {
		b[i] = byte(0xA5 ^ i)
	}
}
func clean(b []byte, from int) int {
	for i := from; i < len(b); i++ {
		if b[i] != byte(0xA5^i) {
			return i
		}
	}
	return -1
}

func hexs(b []byte) string {
	if len(b) > 4096 {
		return fmt.Sprintf("%x... (%d bytes)", b[:4096], len(b))
	}
	return fmt.Sprintf("%x", b)
}
func show(v []uint32) string {
	if len(v) > 64 {
		return fmt.Sprintf("%#x... (%d)", v[:64], len(v))
	}
	return fmt.Sprintf("%#x", v)
}

// guarded runs f and reports how it failed
func guarded(f func()) (res *finding) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(interface{ Addr() uintptr }); ok {
				res = &finding{"mem", fmt.Sprintf("memory fault (%#x): %v", a.Addr(), e)}
				return
			}
			res = &finding{"panic", fmt.Sprintf("panic: %v", e)}
		}
	}()
	f()
	return nil
}

func eqb(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}
func eqw(a, b []uint32) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}

func (w *worker) begin(c *kase) {
	w.cur.Store(c)
	w.started.Store(time.Now().UnixNano())
	w.cases.Add(1)
}
func (w *worker) end() { w.started.Store(0) }

func bytesOf(v []uint32) []byte {
	b := make([]byte, 0, 4*len(v))
	for _, x := range v {
		b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	return b
}

func (w *worker) encStream(f fn, v []uint32, prev uint32) (*kase, *finding) {
	c := &kase{Func: f.name, In: v, Prev: prev, Count: len(v), Place: w.place()}
	in := w.putWords(w.a, v, c.Place)
	e := v
	if f.delta {
		e = diffs(v, prev)
	}
	want := oracle(e, nil)
	var got []byte
	w.begin(c)
	fd := guarded(func() {
		if f.delta {
			got = f.f.(func([]uint32, uint32) []byte)(in, prev)
		} else {
			got = f.f.(func([]uint32) []byte)(in)
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	if k := eqb(want, got); k >= 0 {
		return c, &finding{"func", fmt.Sprintf("stream differs from the canonical one at byte %d (length %d, canonical %d): got %s want %s", k, len(got), len(want), hexs(tail(got, k)), hexs(tail(want, k)))}
	}
	if k := eqw(v, in); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input element %d changed", k)}
	}
	if w.modes["fresh"] {
		// the result is memory of its own, all of its capacity included
		keep := append([]byte(nil), got...)
		w2 := w.values(w.r.Intn(60) * w.r.Intn(2))
		var got2 []byte
		fd = guarded(func() {
			if f.delta {
				got2 = f.f.(func([]uint32, uint32) []byte)(w2, prev)
			} else {
				got2 = f.f.(func([]uint32) []byte)(w2)
			}
		})
		if fd == nil {
			if overlap(got, got2) {
				return c, &finding{"fresh", fmt.Sprintf("the result (length %d, capacity %d) shares memory with the result of the next call (length %d)", len(got), cap(got), len(got2))}
			}
			if k := eqb(keep, got); k >= 0 {
				return c, &finding{"fresh", fmt.Sprintf("byte %d of the result changed when the encoder was called again", k)}
			}
			keep2 := append([]byte(nil), got2...)
			full := got[:cap(got)]
			for i := range full {
				full[i] ^= 0xff
			}
			if k := eqb(keep2, got2); k >= 0 {
				return c, &finding{"fresh", fmt.Sprintf("writing to the first result (and its capacity) changed byte %d of the second", k)}
			}
			if k := eqw(v, in); k >= 0 {
				return c, &finding{"fresh", fmt.Sprintf("writing to the result changed element %d of the input", k)}
			}
		}
	}
	return c, nil
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	x, y := uintptr(unsafe.Pointer(&a[:1][0])), uintptr(unsafe.Pointer(&b[:1][0]))
	return x < y+uintptr(cap(b)) && y < x+uintptr(cap(a))
}

func tail(b []byte, k int) []byte {
	if k > len(b) {
		k = len(b)
	}
	if len(b)-k > 40 {
		return b[k : k+40]
	}
	return b[k:]
}

func (w *worker) decStream(f fn, v []uint32, ls []int, prev uint32, extra, outExtra int) (*kase, *finding) {
	s := oracle(v, ls)
	n := len(v)
	c := &kase{Func: f.name, Prev: prev, Count: n, Out: n + outExtra, Place: w.place()}
	for k := 0; k < extra; k++ {
		s = append(s, byte(w.r.Intn(256)))
	}
	c.Bytes = s
	in := w.a.bytes(len(s), c.Place, 1)
	copy(in, s)
	outb := w.b.bytes(4*(n+outExtra), c.Place, 4)
	w.fill(outb)
	out := w.b.words(n+outExtra, c.Place)
	want := v
	if f.delta {
		want = sums(v, prev)
	}
	w.begin(c)
	fd := guarded(func() {
		if f.delta {
			f.f.(func(int, []byte, []uint32, uint32))(n, in, out, prev)
		} else {
			f.f.(func(int, []byte, []uint32))(n, in, out)
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	if k := eqw(want, out[:n]); k >= 0 {
		return c, &finding{"func", fmt.Sprintf("integer %d is %#x, want %#x", k, out[k], want[k])}
	}
	if k := clean(outb, 4*n); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("output element %d (count %d) was written", k/4, n)}
	}
	if k := eqb(s, in); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("stream byte %d changed", k)}
	}
	return c, nil
}

func (w *worker) encBlock(f fn, v []uint32, m int, count int, prev uint32, outExtra int) (*kase, *finding) {
	// v: the integers in the input slice; m: how many are encoded
	c := &kase{Func: f.name, In: v, Count: count, Prev: prev, Place: w.place()}
	in := w.putWords(w.a, v, c.Place)
	e := v[:m]
	if f.delta {
		e = diffs(e, prev)
	}
	need := len(dataOf(e))
	if f.kind == "enc8" && f.slack > 0 {
		if n := len(dataOf(e[:4])) + f.slack; n > need {
			need = n
		}
	}
	c.Out = need + outExtra
	out := w.b.bytes(need+outExtra, c.Place, 1)
	w.fill(out)
	var got uint16
	w.begin(c)
	fd := guarded(func() {
		switch f.kind {
		case "enc8":
			if f.delta {
				got = f.f.(func([]uint32, []byte, uint32) uint16)(in, out, prev)
			} else {
				got = f.f.(func([]uint32, []byte) uint16)(in, out)
			}
		case "enc4":
			if f.delta {
				got = uint16(f.f.(func([]uint32, []byte, uint32) uint8)(in, out, prev))
			} else {
				got = uint16(f.f.(func([]uint32, []byte) uint8)(in, out))
			}
		default:
			if f.delta {
				got = uint16(f.f.(func([]uint32, []byte, int, uint32) uint8)(in, out, count, prev))
			} else {
				got = uint16(f.f.(func([]uint32, []byte, int) uint8)(in, out, count))
			}
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	var want uint16
	if f.kind == "enc8" {
		want = uint16(ctlOf(e[:4])) | uint16(ctlOf(e[4:]))<<8
	} else {
		want = uint16(ctlOf(e))
	}
	if got != want {
		return c, &finding{"size", fmt.Sprintf("control is %#x, want %#x", got, want)}
	}
	d := dataOf(e)
	if k := eqb(d, out[:len(d)]); k >= 0 {
		return c, &finding{"func", fmt.Sprintf("data byte %d is %#x, want %#x", k, out[k], d[k])}
	}
	lim := len(d)
	if f.slack > 0 {
		lim = need
	}
	if k := clean(out, lim); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("byte %d behind the encoded data was written", k)}
	}
	if k := eqw(v, in); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input element %d changed", k)}
	}
	return c, nil
}

func (w *worker) decBlock(f fn, ctrl uint16, m int, count int, prev uint32, data []byte, extra, outExtra int) (*kase, *finding) {
	c := &kase{Func: f.name, Ctrl: ctrl, Count: count, Prev: prev, Place: w.place()}
	lo, hi := byte(ctrl), byte(ctrl>>8)
	var need int
	if f.kind == "dec8" {
		need = size(lo, 4) + size(hi, 4)
		if f.slack > 0 {
			need = size(lo, 4) + f.slack
		}
	} else {
		need = size(lo, m)
	}
	s := data[:need+extra]
	c.Bytes = append([]byte(nil), s...)
	in := w.a.bytes(len(s), c.Place, 1)
	copy(in, s)
	n := m
	c.Out = n + outExtra
	outb := w.b.bytes(4*(n+outExtra), c.Place, 4)
	w.fill(outb)
	out := w.b.words(n+outExtra, c.Place)
	var want []uint32
	if f.kind == "dec8" {
		want = append(group(s, lo, 4), group(s[size(lo, 4):], hi, 4)...)
	} else {
		want = group(s, lo, m)
	}
	if f.delta {
		want = sums(want, prev)
	}
	ret := -1
	w.begin(c)
	fd := guarded(func() {
		switch f.kind {
		case "dec8":
			if f.delta {
				f.f.(func([]byte, []uint32, uint16, uint32))(in, out, ctrl, prev)
			} else {
				f.f.(func([]byte, []uint32, uint16))(in, out, ctrl)
			}
		case "dec4":
			if f.delta {
				f.f.(func([]byte, []uint32, uint8, uint32))(in, out, lo, prev)
			} else {
				f.f.(func([]byte, []uint32, uint8))(in, out, lo)
			}
		default:
			if f.delta {
				ret = f.f.(func([]byte, []uint32, uint8, int, uint32) int)(in, out, lo, count, prev)
			} else {
				ret = f.f.(func([]byte, []uint32, uint8, int) int)(in, out, lo, count)
			}
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	if ret >= 0 && ret != size(lo, m) {
		return c, &finding{"size", fmt.Sprintf("returned %d, the integers occupy %d bytes", ret, size(lo, m))}
	}
	if k := eqw(want, out[:n]); k >= 0 {
		return c, &finding{"func", fmt.Sprintf("integer %d is %#x, want %#x", k, out[k], want[k])}
	}
	if k := clean(outb, 4*n); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("output element %d was written", k/4)}
	}
	if k := eqb(c.Bytes, in); k >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input byte %d changed", k)}
	}
	return c, nil
}

func (w *worker) randomCodes(v []uint32) []int {
	ls := make([]int, len(v))
	m := w.r.Intn(4)
	for i, x := range v {
		n := blen(x)
		switch {
		case m == 0:
		case m == 1 && w.r.Intn(4) == 0, m >= 2:
			n += w.r.Intn(5 - n)
		}
		if m == 3 {
			n = 4
		}
		ls[i] = n
	}
	return ls
}

func (w *worker) ctrl(k int) uint16 {
	if k < 65536 {
		return uint16(k*40503 + 7)
	}
	c := uint16(w.r.Intn(65536))
	if len(w.consts) > 0 && w.r.Intn(3) == 0 {
		c = uint16(w.consts[w.r.Intn(len(w.consts))])
		if w.r.Intn(2) == 0 {
			c = c<<8 | uint16(w.r.Intn(256))
		}
	}
	return c
}

// one runs one random case of f; k counts the cases
func (w *worker) one(f fn, k int) (*kase, *finding) {
	r := w.r
	switch f.kind {
	case "encstream":
		n := w.length()
		if k < 90 {
			n = k / 2
		}
		v := w.values(n)
		return w.encStream(f, v, w.prev(v))
	case "decstream":
		n := w.length()
		if k < 90 {
			n = k / 2
		}
		v := w.values(n)
		extra, oe := 0, 0
		if r.Intn(3) == 0 {
			extra = r.Intn(40)
		}
		if r.Intn(3) == 0 {
			oe = r.Intn(20)
		}
		var ls []int
		if r.Intn(2) == 0 {
			ls = w.randomCodes(v)
		}
		return w.decStream(f, v, ls, w.prev(v), extra, oe)
	case "enc8", "enc4", "encpart":
		m := map[string]int{"enc8": 8, "enc4": 4, "encpart": 4}[f.kind]
		count := m
		if f.kind == "encpart" {
			count = r.Intn(7)
			if r.Intn(20) == 0 {
				count = int(w.value() & 0x7fffffff)
			}
			if count < 4 {
				m = count
			}
		}
		var v []uint32
		if k < 70000 && r.Intn(2) == 0 {
			c := w.ctrl(k)
			v = make([]uint32, 8)
			for j := range v {
				v[j] = (r.Uint32() | 0x80000000) >> (24 - 8*(uint(c>>(2*uint(j)))&3))
				if r.Intn(4) == 0 {
					v[j] = w.value()
				}
			}
		} else {
			v = w.values(8)
		}
		p := w.prev(v)
		if f.delta && r.Intn(2) == 0 {
			v = sums(v, p)
		}
		v = v[:m]
		for r.Intn(3) == 0 {
			v = append(append([]uint32(nil), v...), w.value())
		}
		oe := 0
		if r.Intn(2) == 0 {
			oe = r.Intn(24)
		}
		return w.encBlock(f, v, m, count, p, oe)
	case "dec8", "dec4", "decpart":
		m := map[string]int{"dec8": 8, "dec4": 4, "decpart": 4}[f.kind]
		count := m
		if f.kind == "decpart" {
			count = r.Intn(7)
			if r.Intn(20) == 0 {
				count = int(w.value() & 0x7fffffff)
			}
			if count < 4 {
				m = count
			}
		}
		data := make([]byte, 80)
		r.Read(data)
		if r.Intn(4) == 0 {
			b := byte(w.value())
			for i := range data {
				if r.Intn(2) == 0 {
					data[i] = b
				}
			}
		}
		if r.Intn(4) == 0 {
			copy(data, bytesOf(w.values(20)))
		}
		oe, ex := 0, 0
		if r.Intn(2) == 0 {
			oe = r.Intn(6)
		}
		if r.Intn(2) == 0 {
			ex = r.Intn(20)
		}
		return w.decBlock(f, w.ctrl(k), m, count, w.value(), data, ex, oe)
	case "size1":
		c := &kase{Func: f.name, Ctrl: uint16(k & 255)}
		var got int
		w.begin(c)
		fd := guarded(func() { got = f.f.(func(uint8) int)(uint8(k)) })
		w.end()
		if fd == nil && got != size(byte(k), 4) {
			fd = &finding{"size", fmt.Sprintf("returned %d, want %d", got, size(byte(k), 4))}
		}
		return c, fd
	case "size2":
		x := uint16(k)
		c := &kase{Func: f.name, Ctrl: x}
		var got int
		w.begin(c)
		fd := guarded(func() { got = f.f.(func(uint16) int)(x) })
		w.end()
		want := size(byte(x), 4) + size(byte(x>>8), 4)
		if fd == nil && got != want {
			fd = &finding{"size", fmt.Sprintf("returned %d, want %d", got, want)}
		}
		return c, fd
	}
	if g := more[f.kind]; g != nil {
		return g(w, f, k)
	}
	return nil, nil
}

var more = map[string]func(w *worker, f fn, k int) (*kase, *finding){}

// ---------------------------------------------------------------- tables

func tables() *finding {
	for c := 0; c < 256; c++ {
		b := byte(c)
		if int(shared.PerControlLenTable[c]) != size(b, 4) {
			return &finding{"func", fmt.Sprintf("PerControlLenTable[%#x] is %d, want %d", c, shared.PerControlLenTable[c], size(b, 4))}
		}
		p, q := 0, 0
		for j := 0; j < 4; j++ {
			l := int(b>>(2*uint(j)))&3 + 1
			if int(shared.PerNumLenTable[c][j]) != l {
				return &finding{"func", fmt.Sprintf("PerNumLenTable[%#x][%d] is %d, want %d", c, j, shared.PerNumLenTable[c][j], l)}
			}
			for k := 0; k < 4; k++ {
				x := shared.DecodeShuffleTable[c][4*j+k]
				if k < l {
					if int(x) != p {
						return &finding{"func", fmt.Sprintf("DecodeShuffleTable[%#x][%d] is %#x, want %#x", c, 4*j+k, x, p)}
					}
					p++
					if y := shared.EncodeShuffleTable[c][q]; int(y) != 4*j+k {
						return &finding{"func", fmt.Sprintf("EncodeShuffleTable[%#x][%d] is %#x, want %#x", c, q, y, 4*j+k)}
					}
					q++
				} else if x < 128 {
					return &finding{"func", fmt.Sprintf("DecodeShuffleTable[%#x][%d] is %#x, which does not clear the byte", c, 4*j+k, x)}
				}
			}
		}
	}
	return nil
}

func tableSum() string {
	return fmt.Sprint(*shared.PerControlLenTable, *shared.PerNumLenTable, *shared.EncodeShuffleTable, *shared.DecodeShuffleTable)
}

// ---------------------------------------------------------------- main

type result struct {
	Case  *kase  `json:"case"`
	Mode  string `json:"mode"`
	What  string `json:"what"`
	Arch  string `json:"arch"`
	Env   string `json:"env,omitempty"`
	Cases int64  `json:"cases"`
}

var emit sync.Mutex

func report(c *kase, f *finding, n int64) {
	emit.Lock()
	if c != nil && c.Bytes != nil {
		c.Hex = hexs(c.Bytes)
	}
	if c != nil && len(c.In) > 4096 {
		c.Note = fmt.Sprintf("input has %d integers, the first 4096 are shown", len(c.In))
		c.In = c.In[:4096]
	}
	j, _ := json.Marshal(result{c, f.Mode, f.What, runtime.GOARCH, os.Getenv("GODEBUG"), n})
	fmt.Println(string(j))
	os.Exit(3)
}

func main() {
	names := flag.String("funcs", "", "functions, comma separated")
	modes := flag.String("modes", "func", "kinds of failure that count")
	secs := flag.Float64("time", 20, "seconds")
	seed := flag.Int64("seed", 1, "seed")
	hints := flag.String("hints", "", "JSON file with constants")
	par := flag.Int("par", 4, "workers")
	flag.Bool("concurrent", false, "all workers use all functions at once")
	needs := flag.String("needs", "", "packages whose mode must not be fast")
	flag.Parse()
	debug.SetPanicOnFault(true)
	sel := map[string]bool{}
	for _, n := range strings.Split(*names, ",") {
		sel[n] = true
	}
	var use []fn
	for _, f := range fns {
		if sel[f.name] || sel["all"] {
			use = append(use, f)
		}
	}
	sort.Slice(use, func(i, j int) bool { return use[i].name < use[j].name })
	md := map[string]bool{}
	for _, m := range strings.Split(*modes, ",") {
		md[m] = true
	}
	var consts []uint32
	var lens []int
	if *hints != "" {
		var h struct{ Consts []int64 }
		b, _ := os.ReadFile(*hints)
		json.Unmarshal(b, &h)
		for _, c := range h.Consts {
			consts = append(consts, uint32(c))
			if c >= 0 && c < 1<<18 {
				lens = append(lens, int(c))
			}
		}
	}
	if sel["mode"] {
		for _, n := range strings.Split(*needs, ",") {
			m := encode.GetMode
			if n == "decode" {
				m = decode.GetMode
			}
			if n != "" && m() != shared.Normal {
				report(&kase{Func: n + ".GetMode"}, &finding{"func", "reports fast mode although a CPU feature the accelerated code needs is off"}, 1)
			}
		}
	}
	if sel["tables"] {
		if f := tables(); f != nil {
			report(&kase{Func: "tables"}, f, 1)
		}
	}
	before := ""
	if md["frame"] {
		before = tableSum()
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var total atomic.Int64
	ws := make([]*worker, *par)
	var wg sync.WaitGroup
	for i := range ws {
		ws[i] = &worker{r: rand.New(rand.NewSource(*seed*1000 + int64(i))), a: newArena(), b: newArena(), c: newArena(), modes: md, consts: consts, lens: lens}
	}
	stop := make(chan bool)
	go func() { // watchdog
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			for _, w := range ws {
				s := w.started.Load()
				if s != 0 && time.Now().UnixNano()-s > int64(10*time.Second) && md["term"] {
					report(w.cur.Load().(*kase), &finding{"term", "does not return within 10 s"}, 0)
				}
			}
		}
	}()
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			w := ws[i]
			for k := 0; ; k++ {
				for _, f := range use {
					c, fd := w.one(f, k*len(ws)+i)
					if fd != nil && fd.Mode == "mem" && c.Place >= 2 && md["panic"] {
						// nothing is near a guard page: the function crashes on memory that is there
						fd.Mode = "panic"
					}
					if fd != nil && (md[fd.Mode] || fd.Mode == "size" && md["func"]) {
						report(c, fd, w.cases.Load())
					}
				}
				if len(use) == 0 || time.Now().After(deadline) {
					break
				}
			}
			total.Add(w.cases.Load())
		}(i)
	}
	wg.Wait()
	close(stop)
	if md["frame"] && tableSum() != before {
		report(&kase{Func: "tables"}, &finding{"frame", "a lookup table was changed by a call"}, total.Load())
	}
	fmt.Printf("{\"cases\": %d}\n", total.Load())
}
