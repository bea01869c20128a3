package props

import (
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// a message of a few bytes with every header class of the reader
func anyMessage(name string) []byte {
	switch sym.Choose(name, 12) {
	case 0:
		return pack(value.Long(int64(sym.U8(name)))) // one or two bytes
	case 1:
		return hdr(0xd1, uint64(sym.U16(name)), 2)
	case 2:
		return hdr(0xd2, uint64(sym.U32(name)), 4)
	case 3:
		return hdr(0xcb, sym.U64(name), 8)
	case 4:
		return cat(refStr(2), sym.Bytes(name, 2))
	case 5:
		return cat(hdr(0xda, 2, 2), sym.Bytes(name, 2))
	case 6:
		return cat(hdr(0xc6, 2, 4), sym.Bytes(name, 2))
	case 7:
		return cat([]byte{0xd5, 0x50}, sym.Bytes(name, 2))
	case 8:
		return cat([]byte{0xc7, 3, 0x51}, sym.Bytes(name, 3))
	case 9:
		return cat(refList(2), refLong(int64(sym.U8(name))), []byte{0xc0})
	case 10:
		return cat(refMap(1), refStr(1), sym.Bytes(name, 1), []byte{0xc3})
	default:
		return cat(hdr(0xdc, 1, 2), hdr(0xde, 1, 2), []byte{7}, refStr(0))
	}
}

func sameResult(v value.Value, err error, w value.Value, werr error) {
	if werr != nil {
		sym.Assert(err != nil && err.Error() == werr.Error(), "reading gives another error than unpacking")
		sym.Assert((err == io.EOF) == (werr == io.EOF) && (err == io.ErrUnexpectedEOF) == (werr == io.ErrUnexpectedEOF), "reading gives another end of input than unpacking")
		return
	}
	sym.Assert(err == nil && v != nil, "reading fails where unpacking does not")
	sym.Assert(v.Kind() == w.Kind(), "reading gives another kind than unpacking")
	sym.Assert(sym.BytesEq(pack(v), pack(w)), "reading gives another value than unpacking")
	if !hasNaN(w) {
		sym.Assert(value.Equal(v, w), "reading gives another value than unpacking")
	}
}

func C06_Message() {
	b := anyMessage("m")
	w, werr := value.Unpack(b, true)
	r, c := anyReader(b, nil)
	v, err := value.Read(r)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(b), "reading does not consume exactly the message")
}

// messages in a row are read one by one
func C06_Sequence() {
	a := anyMessage("a")
	b := [][]byte{{0xc0}, {0xa1, 'x'}, {0xcd, 1, 2}, {0x91, 0xd4, 9, 9}}[sym.Choose("b", 4)]
	s := cat(a, b)
	c := &chunks{data: s, anySize: true, empties: 0}
	if sym.Choose("one by one", 2) == 1 {
		c.anySize = false
	}
	v, err := value.Read(c)
	w, werr := value.Unpack(a, true)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(a), "reading does not consume exactly the message")
	v, err = value.Read(c)
	w, werr = value.Unpack(b, true)
	sameResult(v, err, w, werr)
	_, err = value.Read(c)
	sym.Assert(err == io.EOF, "the end behind the last message is not reported as one")
}

// one reader for all messages, as streams use it
func C06_SameUnpacker() {
	a := anyMessage("a")
	b := []byte{0x92, 0xa1, 'x', 0xcd, 1, 2}
	r, c := anyReader(cat(a, b), nil)
	u, p := value.MessageReader(r), value.MessageParser()
	v, err := value.Parse(u, p)
	w, werr := value.Unpack(a, true)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(a), "reading does not consume exactly the message")
	v, err = value.Parse(u, p)
	w, werr = value.Unpack(b, true)
	sameResult(v, err, w, werr)
	_, err = value.Parse(u, p)
	sym.Assert(err == io.EOF, "the end behind the last message is not reported as one")
}

// a reader that fails at any position
func C06_Failing() {
	b := anyMessage("m")
	k := sym.Choose("fails at", len(b))
	r, _ := anyReader(b[:k], failure("failure"))
	v, err := value.Read(r)
	sym.Assert(err != nil, "a failing reader gives a value")
	sym.Assert(err != io.EOF, "a failing reader is reported as a regular end of input")
	sym.Assert(v == nil, "a failing reader gives a value")
}

// a failure behind the message does not matter to it
func C06_FailingBehind() {
	b := anyMessage("m")
	r, c := anyReader(b, failure("failure"))
	w, werr := value.Unpack(b, true)
	v, err := value.Read(r)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(b), "reading does not consume exactly the message")
	_, err = value.Read(r)
	sym.Assert(err != nil && err != io.EOF, "a failing reader is reported as a regular end of input")
}

// arbitrary input, also malformed
func C06_AnyBytes() {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	b := sym.Bytes("in", sym.Choose("len", n+1))
	w, werr := value.Unpack(b, true)
	var v value.Value
	var err error
	switch sym.Choose("reader", 3) {
	case 0:
		v, err = value.Read(&chunks{data: b})
	case 1:
		v, err = value.Read(&chunks{data: b, withEOF: true})
	default:
		v, err = value.Read(&byteChunks{chunks{data: b}})
	}
	sameResult(v, err, w, werr)
}

// payloads longer than the pieces they are read in
func C06_Long() {
	n := []int{255, 4095, 4096, 4097, 8192, 8193, 10000, 65536}[sym.Choose("len", 8)]
	data := make([]byte, n)
	data[0], data[n/2], data[n-1] = sym.U8("first"), sym.U8("middle"), sym.U8("last")
	var b []byte
	switch sym.Choose("kind", 4) {
	case 0:
		b = cat(refStr(uint64(n)), data)
	case 1:
		b = cat(refBin(uint64(n)), data)
	case 2:
		b = cat(refExt(uint64(n), 0x44), data)
	default:
		b = cat([]byte{0x92}, refBin(uint64(n)), data, []byte{5})
	}
	c := &chunks{data: append(b, 0xc1, 0xc1)}
	c.step = []int{0, 1, 1000, 4096, 4097}[sym.Choose("step", 5)]
	w, werr := value.Unpack(b, true)
	v, err := value.Read(c)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(b), "reading does not consume exactly the message")
}

// pause is a reader that returns nothing for a number of times at a position.
type pause struct {
	chunks
	at, times int
}

func (r *pause) Read(p []byte) (int, error) {
	if r.pos == r.at && r.times > 0 {
		r.times--
		return 0, nil
	}
	return r.chunks.Read(p)
}

// many empty reads in a row
func C06_Pauses() {
	b := anyMessage("m")
	w, werr := value.Unpack(b, true)
	r := &pause{chunks: chunks{data: b}}
	r.at = sym.Choose("at", len(b))
	r.times = []int{1, 2, 10, 99, 100, 101, 1000}[sym.Choose("times", 7)]
	v, err := value.Read(r)
	sameResult(v, err, w, werr)
	sym.Assert(r.pos == len(b), "reading does not consume exactly the message")
}

// payloads of every length up to some kilobytes
func C06_Lengths() {
	n := sym.Choose("len", 70)
	if k := sym.Choose("page", 4); k > 0 {
		n += []int{0, 4060, 8160, 65500}[k]
	}
	data := make([]byte, n)
	if n > 0 {
		data[0], data[n-1] = sym.U8("first"), sym.U8("last")
	}
	var b []byte
	switch sym.Choose("kind", 3) {
	case 0:
		b = cat(hdr(0xdb, uint64(n), 4), data)
	case 1:
		b = cat(hdr(0xc6, uint64(n), 4), data)
	default:
		b = cat(hdr(0xc9, uint64(n), 4), []byte{0x44}, data)
	}
	c := &chunks{data: append(b, 0xc1, 0xc1)}
	w, werr := value.Unpack(b, true)
	v, err := value.Read(c)
	sameResult(v, err, w, werr)
	sym.Assert(c.pos == len(b), "reading does not consume exactly the message")
}
