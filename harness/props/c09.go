package props

import (
	"errors"
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

var errWriter = errors.New("writer failed")

// brokenWriter accepts the first room bytes and fails on the first write
// that does not fit, of which it may accept a part.
type brokenWriter struct {
	data    []byte
	room    int
	partial bool
	failed  bool
	err     error
}

func (w *brokenWriter) Write(p []byte) (int, error) {
	sym.Assert(!w.failed, "written after a write has failed")
	if len(p) > w.room-len(w.data) {
		w.failed = true
		n := 0
		if w.partial {
			n = w.room - len(w.data)
		}
		w.data = append(w.data, p[:n]...)
		return n, w.err
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

// failAlways fails on the n-th write, empty ones included.
type failNth struct {
	data   []byte
	n      int
	failed bool
	err    error
}

func (w *failNth) Write(p []byte) (int, error) {
	sym.Assert(!w.failed, "written after a write has failed")
	if w.n == 0 {
		w.failed = true
		return 0, w.err
	}
	w.n--
	w.data = append(w.data, p...)
	return len(p), nil
}

func anyError(name string) error {
	return []error{errWriter, io.EOF, io.ErrShortWrite}[sym.Choose(name, 3)]
}

func isPrefix(p, s []byte) bool { return len(p) <= len(s) && sym.BytesEq(p, s[:len(p)]) }

func checkWritten(got, want []byte, failed bool, err, wantErr error) {
	if failed {
		sym.Assert(err == wantErr, "the error of the writer is not returned")
		sym.Assert(isPrefix(got, want), "what was written before the failure is no prefix of the packed form")
	} else {
		sym.Assert(err == nil, "an error without a failure")
		sym.Assert(sym.BytesEq(got, want), "the packed form is not written in full")
	}
}

// values of every kind, a failure at every point
func C09_Write() {
	v := anyValue("v")
	p := pack(v)
	w := &brokenWriter{room: sym.Choose("room", len(p)+1), partial: sym.Choose("partial", 2) == 1, err: anyError("err")}
	err := value.Write(w, v)
	sym.Assert(w.failed == (w.room < len(p)), "not everything was offered to the writer")
	checkWritten(w.data, p, w.failed, err, w.err)
	if w.failed {
		sym.Assert(len(w.data) <= w.room, "more than what fits")
	}
}

func C09_WriteNth() {
	v := anyValue("v")
	p := pack(v)
	w := &failNth{n: sym.Choose("n", 12), err: anyError("err")}
	err := value.Write(w, v)
	checkWritten(w.data, p, w.failed, err, w.err)
}

// all header sizes
func C09_WriteSizes() {
	n := []int{0, 31, 32, 255, 256, 65536}[sym.Choose("len", 6)]
	var v value.Value
	switch sym.Choose("kind", 4) {
	case 0:
		v = value.Utf8(string(make([]byte, n)))
	case 1:
		v = value.Raw(make([]byte, n), false)
	case 2:
		v = value.Unknown(append([]byte{0x44}, make([]byte, n)...))
	default:
		v = value.Tuple(value.Long(sym.I64("n")), value.Double(sym.F64("d")), value.Raw(make([]byte, n), false), value.True)
	}
	p := pack(v)
	rooms := []int{0, 1, 2, 3, 4, 5, 6, len(p) - n - 1, len(p) - 1, len(p) - 2, len(p)}
	room := rooms[sym.Choose("room", len(rooms))]
	sym.Assume(room >= 0)
	w := &brokenWriter{room: room, partial: sym.Choose("partial", 2) == 1, err: errWriter}
	err := value.Write(w, v)
	checkWritten(w.data, p, w.failed, err, w.err)
	sym.Assert(w.failed == (w.room < len(p)), "not everything was offered to the writer")
}

// nested ones
func C09_Nested() {
	in := anyCollection("in", sym.Choose("inner", 6))
	var v value.Value
	switch sym.Choose("outer", 5) {
	case 0:
		v = value.ImmutableList([]value.Value{in, nil, elem("e")})
	case 1:
		v = value.MutableList([]value.Value{elem("e"), in, nil})
	case 2:
		v = value.EmptyImmutableMap().Put("a", in).Put("b", elem("e"))
	case 3:
		v = value.EmptyMutableMap().Put("b", in).Put("a", elem("e"))
	default:
		v = value.EmptySparseList().PutAt(3, in).PutAt(9, elem("e"))
	}
	p := pack(v)
	w := &brokenWriter{room: sym.Choose("room", len(p)+1), partial: sym.Choose("partial", 2) == 1, err: errWriter}
	err := value.Write(w, v)
	sym.Assert(w.failed == (w.room < len(p)), "not everything was offered to the writer")
	checkWritten(w.data, p, w.failed, err, w.err)
}

// every operation of the packer keeps the first error
func C09_Packer() {
	n := 1 + sym.Choose("n", 3)
	ok, w := &sliceWriter{}, &failNth{n: sym.Choose("fail", 5), err: anyError("err")}
	a, b := value.MessagePacker(ok), value.MessagePacker(w)
	for i := 0; i < n; i++ {
		op := sym.Choose("op", 10)
		x := int64(sym.U8("x"))
		for _, p := range []value.Packer{a, b} {
			switch op {
			case 0:
				p.PackNil()
			case 1:
				p.PackBool(x&1 == 1)
			case 2:
				p.PackLong(x << 8)
			case 3:
				p.PackDouble(float64(x))
			case 4:
				p.PackStr("s")
			case 5:
				p.PackBin([]byte{byte(x)})
			case 6:
				p.PackExt(value.Ext(7), []byte{byte(x), 1})
			case 7:
				p.PackList(3)
			case 8:
				p.PackMap(3)
			default:
				p.PackRaw([]byte{1, byte(x)})
			}
		}
		sym.Assert(a.Error() == nil, "an error without a failure")
		sym.Assert((b.Error() != nil) == w.failed, "the packer does not keep the error of the writer")
	}
	checkWritten(w.data, ok.data, w.failed, b.Error(), w.err)
}

// streams: a failure in any value
func C09_Stream() {
	n := sym.Choose("n", 4)
	c := make(chan value.Value, 4)
	var want []byte
	for i := 0; i < n; i++ {
		var v value.Value
		switch sym.Choose("kind", 4) {
		case 0:
			v = elem("v")
		case 1:
			v = value.Tuple(elem("v"), nil, value.Utf8("x"))
		case 2:
			v = value.EmptyImmutableMap().Put("a", value.Raw(sym.Bytes("v", 1), false))
		}
		want = append(want, pack(v)...)
		c <- v
	}
	close(c)
	w := &brokenWriter{room: sym.Choose("room", len(want)+1), partial: sym.Choose("partial", 2) == 1, err: anyError("err")}
	err := value.WriteStream(w, c)
	sym.Assert(w.failed == (w.room < len(want)), "not everything was offered to the writer")
	checkWritten(w.data, want, w.failed, err, w.err)
}

func C09_Nil() {
	w := &sliceWriter{}
	sym.Assert(value.Write(w, nil) == nil && sym.BytesEq(w.data, []byte{0xc0}), "nil is not written as nil")
	c := make(chan value.Value, 2)
	c <- nil
	c <- elem("v")
	close(c)
	w = &sliceWriter{}
	sym.Assert(value.WriteStream(w, c) == nil && len(w.data) == 2 && w.data[0] == 0xc0, "nil is not written as nil")
	b := &brokenWriter{err: errWriter}
	sym.Assert(value.Write(b, nil) == errWriter, "the error of the writer is not returned")
}
