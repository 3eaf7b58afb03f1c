package main

import (
	"fmt"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

func init() {
	add("util.PutVarint", "putvar", false, 0, util.PutVarint)
	add("util.PutDeltaVarint", "putvar", true, 0, util.PutDeltaVarint)
	add("util.GetVarint", "getvar", false, 0, util.GetVarint)
	add("util.GetDeltaVarint", "getvar", true, 0, util.GetDeltaVarint)
	add("util.Delta", "diffs", false, 0, util.Delta)
	add("util.GenUint32", "gen", false, 0, util.GenUint32)
	add("util.SortUint32", "sort", false, 0, util.SortUint32)
	more["putvar"] = putVarint
	more["getvar"] = getVarint
	more["diffs"] = differences
	more["gen"] = generate
	more["sort"] = sorting
}

// the base-128 varints of v, seven bits at a time, the last byte below 128
func varints(v []uint32) []byte {
	b := []byte{}
	for _, x := range v {
		for x > 127 {
			b = append(b, byte(x%128)+128)
			x /= 128
		}
		b = append(b, byte(x))
	}
	return b
}

func (w *worker) list(k int) []uint32 {
	n := w.r.Intn(40)
	if k < 60 {
		n = k / 4
	}
	v := w.values(n)
	for i := range v {
		if w.r.Intn(4) == 0 { // varint boundaries
			v[i] = uint32(1)<<uint(7*w.r.Intn(5)) - uint32(w.r.Intn(2))
		}
	}
	return v
}

func putVarint(w *worker, f fn, k int) (*kase, *finding) {
	v := w.list(k)
	p := w.prev(v)
	c := &kase{Func: f.name, In: v, Prev: p, Count: len(v), Place: w.place()}
	e := v
	if f.delta {
		if w.r.Intn(2) == 0 {
			v = sums(v, p)
			c.In = v
		}
		e = diffs(v, p)
	}
	in := w.putWords(w.a, v, c.Place)
	want := varints(e)
	extra := 0
	if w.r.Intn(2) == 0 {
		extra = w.r.Intn(12)
	}
	c.Out = len(want) + extra
	out := w.b.bytes(len(want)+extra, c.Place, 1)
	w.fill(out)
	keep := append([]byte(nil), out...)
	var got int
	w.begin(c)
	fd := guarded(func() {
		if f.delta {
			got = f.f.(func([]uint32, []byte, uint32) int)(in, out, p)
		} else {
			got = f.f.(func([]uint32, []byte) int)(in, out)
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	if got != len(want) {
		return c, &finding{"func", fmt.Sprintf("returned %d, the varints have %d bytes", got, len(want))}
	}
	if i := eqb(want, out[:len(want)]); i >= 0 {
		return c, &finding{"func", fmt.Sprintf("byte %d is %#x, want %#x", i, out[i], want[i])}
	}
	if i := eqb(keep[len(want):], out[len(want):]); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("byte %d behind the varints changed", i)}
	}
	if i := eqw(v, in); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input element %d changed", i)}
	}
	return c, nil
}

func getVarint(w *worker, f fn, k int) (*kase, *finding) {
	v := w.list(k)
	p := w.prev(v)
	c := &kase{Func: f.name, In: v, Prev: p, Count: len(v), Place: w.place()}
	e := v
	if f.delta {
		if w.r.Intn(2) == 0 {
			v = sums(v, p)
			c.In = v
		}
		e = diffs(v, p)
	}
	c.Bytes = varints(e)
	data := w.b.bytes(len(c.Bytes), c.Place, 1)
	copy(data, c.Bytes)
	extra := 0
	if w.r.Intn(2) == 0 {
		extra = w.r.Intn(6)
	}
	z := w.values(len(v) + extra)
	c.Out = len(z)
	out := w.putWords(w.a, z, c.Place)
	var got int
	w.begin(c)
	fd := guarded(func() {
		if f.delta {
			got = f.f.(func([]byte, []uint32, uint32) int)(data, out, p)
		} else {
			got = f.f.(func([]byte, []uint32) int)(data, out)
		}
	})
	w.end()
	if fd != nil {
		return c, fd
	}
	if got != len(c.Bytes) {
		return c, &finding{"func", fmt.Sprintf("returned %d for %d bytes", got, len(c.Bytes))}
	}
	if i := eqw(v, out[:len(v)]); i >= 0 {
		return c, &finding{"func", fmt.Sprintf("integer %d is %d, want %d", i, out[i], v[i])}
	}
	if i := eqw(z[len(v):], out[len(v):]); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("output element %d behind the integers changed", len(v)+i)}
	}
	if i := eqb(c.Bytes, data); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input byte %d changed", i)}
	}
	return c, nil
}

func differences(w *worker, f fn, k int) (*kase, *finding) {
	v := w.list(k)
	c := &kase{Func: f.name, In: v, Count: len(v), Place: w.place()}
	in := w.putWords(w.a, v, c.Place)
	z := w.values(len(v) + w.r.Intn(2)*w.r.Intn(6))
	c.Out = len(z)
	out := w.putWords(w.b, z, c.Place)
	w.begin(c)
	fd := guarded(func() { f.f.(func([]uint32, []uint32))(in, out) })
	w.end()
	if fd != nil {
		return c, fd
	}
	want := diffs(v, 0)
	if i := eqw(want, out[:len(v)]); i >= 0 {
		return c, &finding{"func", fmt.Sprintf("difference %d is %d, want %d", i, out[i], want[i])}
	}
	if i := eqw(z[len(v):], out[len(v):]); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("output element %d behind the differences changed", len(v)+i)}
	}
	if i := eqw(v, in); i >= 0 {
		return c, &finding{"frame", fmt.Sprintf("input element %d changed", i)}
	}
	return c, nil
}

func generate(w *worker, f fn, k int) (*kase, *finding) {
	n := k / 2
	if k > 60 {
		n = w.length()
	}
	c := &kase{Func: f.name, Count: n}
	var got []uint32
	w.begin(c)
	fd := guarded(func() { got = f.f.(func(int) []uint32)(n) })
	w.end()
	if fd == nil && len(got) != n {
		fd = &finding{"func", fmt.Sprintf("returned %d integers, want %d", len(got), n)}
	}
	return c, fd
}

func sorting(w *worker, f fn, k int) (*kase, *finding) {
	v := w.list(k)
	if w.r.Intn(4) == 0 {
		v = w.values(w.length() % 3000)
	}
	c := &kase{Func: f.name, In: v, Count: len(v), Place: w.place()}
	in := w.putWords(w.a, v, c.Place)
	w.begin(c)
	fd := guarded(func() { f.f.(func([]uint32))(in) })
	w.end()
	if fd != nil {
		return c, fd
	}
	have := map[uint32]int{}
	for _, x := range v {
		have[x]++
	}
	for i, x := range in {
		have[x]--
		if have[x] < 0 {
			return c, &finding{"func", fmt.Sprintf("element %d (%d) occurs more often than in the input", i, x)}
		}
		if i > 0 && in[i-1] > x {
			return c, &finding{"func", fmt.Sprintf("element %d (%d) is less than the one before it (%d)", i, x, in[i-1])}
		}
	}
	return c, nil
}
