package props

import (
	"bytes"
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// readAll reads a stream of at most max values.
func readAll(r io.Reader, max int) ([]value.Value, error) {
	out := make(chan value.Value, max+2)
	err := value.ReadStream(r, out)
	var got []value.Value
	for len(out) > 0 {
		v, ok := <-out
		sym.Assert(ok && v != nil, "something else than a value is delivered")
		got = append(got, v)
	}
	select {
	case _, ok := <-out:
		sym.Assert(!ok, "a value appears from nowhere")
	default:
		sym.Fail("the output is not closed")
	}
	return got, err
}

// written is the stream of the given values.
func written(vals []value.Value) []byte {
	in := make(chan value.Value, len(vals)+1)
	for _, v := range vals {
		in <- v
	}
	close(in)
	var buf bytes.Buffer
	sym.Assert(value.WriteStream(&buf, in) == nil, "writing a stream fails")
	return buf.Bytes()
}

// delivered: exactly these values came out.
func delivered(got, want []value.Value) {
	sym.Assert(len(got) == len(want), "another number of values is delivered")
	for i, v := range want {
		if isNull(v) {
			sym.Assert(got[i].Kind() == value.NULL, "nil is not delivered as null")
			continue
		}
		sym.Assert(got[i].Kind() == v.Kind(), "a value of another kind is delivered")
		sym.Assert(sym.BytesEq(pack(got[i]), pack(v)), "another value is delivered")
		if !hasNaN(v) {
			sym.Assert(value.Equal(got[i], v), "another value is delivered")
		}
	}
}

func C22_RoundTrip() {
	n := sym.Choose("n", 4)
	vals := make([]value.Value, n)
	for i := range vals {
		if i == 0 {
			vals[0] = anyOrNil("first")
		} else {
			vals[i] = []value.Value{nil, value.Null, elem("e"), value.Utf8(sym.Str("s", 1)), value.Tuple(elem("t"), nil)}[sym.Choose("what", 5)]
		}
	}
	data := written(vals)
	var want []byte
	for _, v := range vals {
		want = append(want, pack(v)...)
	}
	sym.Assert(sym.BytesEq(data, want), "a stream is not the packed values one after another")
	got, err := readAll(bytes.NewReader(data), n)
	delivered(got, vals)
	sym.Assert(err == io.EOF, "a stream does not end with the end of input")
}

// short values in a stream that is cut into any pieces
func shortStream() ([]value.Value, [][]byte) {
	n := 1 + sym.Choose("n", 2)
	var vals []value.Value
	var parts [][]byte
	for i := 0; i < n; i++ {
		var v value.Value
		switch sym.Choose("kind", 6) {
		case 0:
		case 1:
			v = value.Long(int64(sym.U8("l")) | 0x80) // two bytes
		case 2:
			v = value.Utf8(sym.Str("s", 2))
		case 3:
			v = value.Unknown([]byte{0x41, sym.U8("x")})
		case 4:
			v = value.EmptyImmutableMap().Put("k", elem("m"))
		default:
			v = value.EmptySparseList().PutAt(3, elem("p"))
		}
		vals = append(vals, v)
		parts = append(parts, pack(v))
	}
	return vals, parts
}

func C22_Pieces() {
	vals, parts := shortStream()
	r, _ := anyReader(cat(parts...), nil)
	got, err := readAll(r, len(vals))
	delivered(got, vals)
	sym.Assert(err == io.EOF, "a stream does not end with the end of input")
}

// cut off, or failing, at any byte
func C22_Cut() {
	vals, parts := shortStream()
	var fail error
	if sym.Choose("fail", 2) == 1 {
		fail = failure("failure")
	}
	data := cat(parts...)
	cut := sym.Choose("cut", len(data)+1)
	c := chunks{data: data[:cut], fail: fail, withEOF: sym.Choose("with data", 2) == 1, step: sym.Choose("step", 3)}
	var r io.Reader = &c
	if sym.Choose("byte reader", 2) == 1 {
		r = &byteChunks{c}
	}
	got, err := readAll(r, len(vals))
	whole, used := 0, 0
	for whole < len(vals) && used+len(parts[whole]) <= cut {
		used += len(parts[whole])
		whole++
	}
	delivered(got, vals[:whole])
	if used == cut && fail == nil {
		sym.Assert(err == io.EOF, "a stream does not end with the end of input")
	} else {
		sym.Assert(err != nil && err != io.EOF, "an error inside a value is reported as the end of input")
	}
}

// malformed after complete values
func C22_Malformed() {
	vals, parts := shortStream()
	var bad []byte
	switch sym.Choose("bad", 5) {
	case 0:
		x := sym.U64("u")
		sym.Assume(x >= 1<<63)
		bad = hdr(0xcf, x, 8)
	case 1:
		bad = []byte{0x82, 0xa1, sym.U8("key"), 1, 0xa1, sym.U8("key"), 0xcf, 0x80, 0, 0, 0, 0, 0, 0, 1}
	case 2:
		bad = []byte{0xc7, 1, byte(value.BigIntExt), 0xff} // an unknown version
	case 3:
		bad = []byte{0x91, 0x91, 0xcf, 0xff, 0, 0, 0, 0, 0, 0, 0}
	default:
		bad = []byte{0xd4, byte(value.DecimalExt), sym.U8("x")} // too short
	}
	data := cat(append(parts, bad, pack(elem("after")))...)
	var r io.Reader = bytes.NewReader(data)
	if sym.Choose("chunks", 2) == 1 {
		r = &chunks{data: data, step: 1}
	}
	got, err := readAll(r, len(vals)+2)
	delivered(got, vals)
	sym.Assert(err != nil && err != io.EOF, "malformed input is reported as the end of input")
}

// the values of a stream do not share memory with each other or the reader
func C22_Independent() {
	data := cat(cat(refStr(2), sym.Bytes("a", 2)), hdr(0xc4, 2, 1), sym.Bytes("b", 2), []byte{0xd5, 0x33}, sym.Bytes("c", 2))
	keep := append([]byte(nil), data...)
	got, err := readAll(&chunks{data: data, step: 1 + sym.Choose("step", 3)}, 3)
	sym.Assert(err == io.EOF && len(got) == 3, "another number of values is delivered")
	clobber(data)
	sym.Assert(sym.BytesEq(cat(pack(got[0]), pack(got[1]), pack(got[2])), keep), "delivered values change with the input")
}

// many values
func C22_Many() {
	n := sym.Choose("n", 70)
	if n > 40 {
		n = []int{41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}[n%12]
	}
	vals := make([]value.Value, n)
	x, y := elem("x"), value.Utf8(sym.Str("y", 2))
	for i := range vals {
		if i%3 == 1 {
			vals[i] = y
		} else {
			vals[i] = x
		}
	}
	data := written(vals)
	var want []byte
	for _, v := range vals {
		want = append(want, pack(v)...)
	}
	sym.Assert(sym.BytesEq(data, want), "a stream is not the packed values one after another")
	var r io.Reader = bytes.NewReader(data)
	switch sym.Choose("reader", 3) {
	case 1:
		r = &chunks{data: data, step: 3, withEOF: true}
	case 2:
		r = &byteChunks{chunks{data: data, step: 5}}
	}
	got, err := readAll(r, n)
	delivered(got, vals)
	sym.Assert(err == io.EOF, "a stream does not end with the end of input")
}

// A consumer of any pace at a channel with room for none or some: values wait
// for it. In front of each value it may let the reader run as far as it gets.
func C22_Consumer() {
	vals, parts := shortStream()
	if sym.Choose("more", 2) == 1 {
		vals, parts = append(vals, nil, value.True), append(parts, []byte{0xc0}, []byte{0xc3})
	}
	data := cat(parts...)
	var fail error
	whole := true
	if sym.Choose("cut", 2) == 1 {
		// within the last value
		data = data[:len(data)-1]
		vals = vals[:len(vals)-1]
		whole = len(parts[len(parts)-1]) == 1
		if sym.Choose("fail", 2) == 1 {
			fail, whole = failure("failure"), false
		}
	}
	out := make(chan value.Value, sym.Choose("room", 3))
	res := make(chan error, 1)
	var r io.Reader = &chunks{data: data, fail: fail, step: 1 + sym.Choose("step", 2)}
	go func() { res <- value.ReadStream(r, out) }()
	slow := sym.Choose("slow", 4)
	var got []value.Value
	for {
		if slow>>(len(got)%2)&1 == 1 {
			sym.Yield()
		}
		v, ok := <-out
		if !ok {
			break
		}
		sym.Assert(v != nil, "something else than a value is delivered")
		got = append(got, v)
		sym.Assert(len(got) <= len(vals), "more values are delivered than there are")
	}
	err := <-res
	delivered(got, vals)
	sym.Assert(err != nil && (err == io.EOF) == whole, "the end of the stream is reported wrongly")
}

// a producer of any pace
func C22_Producer() {
	vals, parts := shortStream()
	if sym.Choose("more", 2) == 1 {
		vals, parts = append(vals, nil, value.True), append(parts, []byte{0xc0}, []byte{0xc3})
	}
	in := make(chan value.Value, sym.Choose("room", 3))
	res := make(chan error, 1)
	var buf bytes.Buffer
	go func() { res <- value.WriteStream(&buf, in) }()
	slow := sym.Choose("slow", 4)
	for i, v := range vals {
		if slow>>(i%2)&1 == 1 {
			sym.Yield()
		}
		in <- v
	}
	if slow&1 == 1 {
		sym.Yield()
	}
	close(in)
	sym.Assert(<-res == nil, "writing a stream fails")
	sym.Assert(sym.BytesEq(buf.Bytes(), cat(parts...)), "a stream is not the packed values one after another")
}

// from a producer through a pipe of channels to a consumer, all at once
func C22_Through() {
	vals := []value.Value{value.Utf8(sym.Str("s", 2)), nil, elem("e")}[:2+sym.Tier()]
	in, out := make(chan value.Value, sym.Choose("in room", 2)), make(chan value.Value, sym.Choose("out room", 2))
	pr, pw := io.Pipe()
	werr, rerr := make(chan error, 1), make(chan error, 1)
	go func() {
		werr <- value.WriteStream(pw, in)
		pw.Close()
	}()
	go func() { rerr <- value.ReadStream(pr, out) }()
	go func() {
		for _, v := range vals {
			in <- v
		}
		close(in)
	}()
	var got []value.Value
	for v := range out {
		got = append(got, v)
		sym.Assert(len(got) <= len(vals), "more values are delivered than there are")
	}
	delivered(got, vals)
	sym.Assert(<-werr == nil, "writing a stream fails")
	sym.Assert(<-rerr == io.EOF, "a stream does not end with the end of input")
}
