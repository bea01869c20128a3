package props

import (
	"bytes"
	"io"
	"math"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// token is one operation of a packer, and what reads it.
type token struct {
	write func(p value.Packer)
	read  func(u value.Unpacker, p value.Parser)
	bytes []byte
}

func next(u value.Unpacker, want value.Format) []byte {
	f, h := u.Next()
	sym.Assert(f == want, "a token is read as one of another format")
	sym.Assert(len(h) > 0, "a token without a header")
	return h
}

const tokenKinds = 11

// anyToken is a token with a payload of up to two bytes.
func anyToken(name string, kind int) token {
	switch kind {
	case 0:
		return token{
			func(p value.Packer) { p.PackNil() },
			func(u value.Unpacker, p value.Parser) { next(u, value.NilToken) },
			[]byte{0xc0},
		}
	case 1:
		b := sym.Choose(name, 2) == 1
		return token{
			func(p value.Packer) { p.PackBool(b) },
			func(u value.Unpacker, p value.Parser) {
				sym.Assert(p.ParseBool(next(u, value.BoolToken)) == b, "another boolean is read")
			},
			[]byte{map[bool]byte{false: 0xc2, true: 0xc3}[b]},
		}
	case 2:
		n := sym.I64(name)
		return token{
			func(p value.Packer) { p.PackLong(n) },
			func(u value.Unpacker, p value.Parser) {
				sym.Assert(p.ParseLong(next(u, value.LongToken)) == n, "another long is read")
			},
			refLong(n),
		}
	case 3:
		d := sym.U64(name)
		return token{
			func(p value.Packer) { p.PackDouble(math.Float64frombits(d)) },
			func(u value.Unpacker, p value.Parser) {
				got := p.ParseDouble(next(u, value.DoubleToken))
				f := math.Float64frombits(d)
				sym.Assert(sym.Or(math.Float64bits(got) == d, sym.And(math.IsNaN(f), math.IsNaN(got))), "another double is read")
			},
			hdr(0xcb, d, 8),
		}
	case 4, 5, 6:
		return payloadToken(kind, sym.Str(name, sym.Choose(name+".len", 3)), byte(sym.U8(name+".tag")))
	case 7:
		n := int(sym.U32(name))
		return token{
			func(p value.Packer) { p.PackList(n) },
			func(u value.Unpacker, p value.Parser) {
				sym.Assert(p.ParseList(next(u, value.ListHeader)) == n, "a list of another size is read")
			},
			refList(uint64(n)),
		}
	case 8:
		n := int(sym.U32(name))
		return token{
			func(p value.Packer) { p.PackMap(n) },
			func(u value.Unpacker, p value.Parser) {
				sym.Assert(p.ParseMap(next(u, value.MapHeader)) == n, "a map of another size is read")
			},
			refMap(uint64(n)),
		}
	case 9:
		// packed elsewhere
		n := int64(int16(sym.U16(name)))
		b := refLong(n)
		return token{
			func(p value.Packer) { p.PackRaw(b) },
			func(u value.Unpacker, p value.Parser) {
				sym.Assert(p.ParseLong(next(u, value.LongToken)) == n, "another long is read")
			},
			b,
		}
	default:
		// a whole value among the tokens
		v := value.Tuple(elem(name), value.Utf8("x"), value.EmptyImmutableMap().Put("k", value.Null))
		return token{
			func(p value.Packer) { v.Pack(p) },
			func(u value.Unpacker, p value.Parser) {
				got, err := value.Parse(u, p)
				sym.Assert(err == nil, "a value among tokens is not read")
				sameBytes(v, got)
			},
			pack(v),
		}
	}
}

// payloadToken is a string, bytes or an extension.
func payloadToken(kind int, s string, tag byte) token {
	read := func(u value.Unpacker, n int, err error) {
		sym.Assert(err == nil && n == len(s), "a payload of another length is announced")
		b, err := u.Read(n)
		sym.Assert(err == nil && sym.StrEq(string(b), s), "another payload is read")
	}
	switch kind {
	case 4:
		return token{
			func(p value.Packer) { p.PackStr(s) },
			func(u value.Unpacker, p value.Parser) {
				n := p.ParseStr(next(u, value.StrHeader))
				read(u, n, p.Error())
			},
			cat(refStr(uint64(len(s))), []byte(s)),
		}
	case 5:
		return token{
			func(p value.Packer) { p.PackBin([]byte(s)) },
			func(u value.Unpacker, p value.Parser) {
				n := p.ParseBin(next(u, value.BinHeader))
				read(u, n, p.Error())
			},
			cat(refBin(uint64(len(s))), []byte(s)),
		}
	default:
		return token{
			func(p value.Packer) { p.PackExt(value.Ext(tag), []byte(s)) },
			func(u value.Unpacker, p value.Parser) {
				f, h := u.Next()
				n, data := p.ParseExt(h)
				sym.Assert(p.Error() == nil && n == len(s), "an extension of another size is read")
				if f == value.ExtHeader {
					var err error
					data, err = u.Read(n + 1)
					sym.Assert(err == nil, "an extension is not read")
				} else {
					sym.Assert(f == value.FixExtToken, "an extension is read as something else")
				}
				sym.Assert(len(data) == n+1 && data[0] == tag && sym.StrEq(string(data[1:]), s), "another extension is read")
			},
			cat(refExt(uint64(len(s)), tag), []byte(s)),
		}
	}
}

// tokenSource unpacks data in one of the ways there are.
func tokenSource(data []byte) value.Unpacker {
	switch sym.Choose("source", 5) {
	case 0:
		return value.MessageUnpacker(data, false)
	case 1:
		return value.MessageUnpacker(data, true)
	case 2:
		return value.MessageReader(bytes.NewReader(data))
	case 3:
		return value.MessageReader(&chunks{data: data, step: 1})
	default:
		return value.MessageReader(&byteChunks{chunks{data: data, step: 2, withEOF: true}})
	}
}

func tokensAgree(ts []token) {
	var buf bytes.Buffer
	p := value.MessagePacker(&buf)
	var want []byte
	for _, t := range ts {
		t.write(p)
		want = cat(want, t.bytes)
	}
	sym.Assert(p.Error() == nil, "packing fails")
	sym.Assert(sym.BytesEq(buf.Bytes(), want), "a packer writes other bytes")
	u, r := tokenSource(buf.Bytes()), value.MessageParser()
	for _, t := range ts {
		t.read(u, r)
		sym.Assert(r.Error() == nil, "reading a token reports an error")
	}
	f, h := u.Next()
	sym.Assert(f == value.EOF && h == nil, "the end behind the last token is not reported")
	f, _ = u.Next()
	sym.Assert(f == value.EOF, "the end is reported only once")
}

// any two operations in a row
func C27_Two() {
	ts := []token{anyToken("a", sym.Choose("a.kind", tokenKinds)), anyToken("b", sym.Choose("b.kind", tokenKinds))}
	tokensAgree(ts)
}

// any operations in a row, with simple payloads
func C27_Sequence() {
	n := 3 + sym.Tier()
	simple := func(k int) token {
		switch k {
		case 0:
			return anyToken("n", 0)
		case 1:
			return anyToken("l", 2)
		case 2:
			return payloadToken(4, sym.Str("s", 1), 0)
		case 3:
			return payloadToken(6, sym.Str("x", 3), 7)
		case 4:
			return payloadToken(6, sym.Str("x", 4), 7)
		default:
			return payloadToken(5, sym.Str("b", 2), 0)
		}
	}
	ts := make([]token, n)
	for i := range ts {
		ts[i] = simple(sym.Choose("kind", 6))
	}
	tokensAgree(ts)
}

// payloads of every length class
func C27_Payload() {
	kind := 4 + sym.Choose("kind", 3)
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, 4096, 65535, 65536}
	n := sizes[sym.Choose("n", len(sizes))]
	b := make([]byte, n)
	if n > 0 {
		b[0], b[n/2], b[n-1] = sym.U8("x"), sym.U8("y"), sym.U8("z")
	}
	tokensAgree([]token{payloadToken(kind, string(b), sym.U8("tag")), anyToken("l", 0)})
}

// the parser takes a header for what it is only, and keeps its error
func C27_Rejects() {
	a := sym.Choose("kind", 9)
	t := anyToken("t", a)
	as := sym.Choose("as", 8)
	u, p := tokenSource(t.bytes), value.MessageParser()
	_, h := u.Next()
	ok := false
	switch as {
	case 0:
		ok = a == 1
		r := p.ParseBool(h)
		sym.Assert(ok || !r, "something else than a boolean is read as true")
	case 1:
		ok = a == 2
		r := p.ParseLong(h)
		sym.Assert(ok || r == 0, "something else than a long is read as one")
	case 2:
		ok = a == 3
		r := p.ParseDouble(h)
		sym.Assert(ok || r == 0, "something else than a double is read as one")
	case 3:
		ok = a == 4
		r := p.ParseStr(h)
		sym.Assert(ok || r == 0, "something else than a string is read as one")
	case 4:
		ok = a == 5
		r := p.ParseBin(h)
		sym.Assert(ok || r == 0, "something else than bytes are read as them")
	case 5:
		ok = a == 6
		r, _ := p.ParseExt(h)
		sym.Assert(ok || r == 0, "something else than an extension is read as one")
	case 6:
		ok = a == 7
		r := p.ParseList(h)
		sym.Assert(ok || r == 0, "something else than a list is read as one")
	default:
		ok = a == 8
		r := p.ParseMap(h)
		sym.Assert(ok || r == 0, "something else than a map is read as one")
	}
	sym.Assert((p.Error() == nil) == ok, "a parser takes exactly the headers of a kind")
	p.ParseBool([]byte{0xc3})
	sym.Assert((p.Error() == nil) == ok, "a parser loses its error")
}

// cut off within a token
func C27_Cut() {
	t := anyToken("t", sym.Choose("kind", tokenKinds-1))
	cut := sym.Choose("cut", len(t.bytes))
	lead := sym.Choose("lead", 2)
	data := cat(bytes.Repeat([]byte{0xc0}, lead), t.bytes[:cut])
	u, p := tokenSource(data), value.MessageParser()
	for i := 0; i < lead; i++ {
		next(u, value.NilToken)
	}
	if cut == 0 {
		f, _ := u.Next()
		sym.Assert(f == value.EOF, "the end is not reported")
		return
	}
	f, h := u.Next()
	if f == value.UnexpectedEOF {
		sym.Assert(h == nil, "a header that is cut off is handed out")
		return
	}
	n := 0
	switch f {
	case value.StrHeader:
		n = p.ParseStr(h)
	case value.BinHeader:
		n = p.ParseBin(h)
	case value.ExtHeader:
		n, _ = p.ParseExt(h)
		n++
	default:
		sym.Fail("a token that is cut off is read")
	}
	sym.Assert(p.Error() == nil, "the header of a payload is not parsed")
	_, err := u.Read(n)
	sym.Assert(err == io.ErrUnexpectedEOF, "a payload that is cut off is read")
}

// the format of any code
func C27_Formats() {
	code := sym.U8("code")
	sym.Assume(code != 0xc1) // never used
	data := append([]byte{code}, sym.Bytes("rest", 20)...)
	u := tokenSource(data)
	f, h := u.Next()
	in := func(lo, hi byte) bool { return sym.And(code >= lo, code <= hi) }
	want := value.LongToken
	size := 1
	switch {
	case code == 0xc0:
		want = value.NilToken
	case in(0x80, 0x8f):
		want = value.MapHeader
	case in(0x90, 0x9f):
		want = value.ListHeader
	case in(0xa0, 0xbf):
		want = value.StrHeader
	case in(0xc2, 0xc3):
		want = value.BoolToken
	case in(0xc4, 0xc6):
		want, size = value.BinHeader, 1+1<<sym.Concrete(int(code-0xc4))
	case in(0xc7, 0xc9):
		want, size = value.ExtHeader, 1+1<<sym.Concrete(int(code-0xc7))
	case in(0xca, 0xcb):
		want, size = value.DoubleToken, 1+4<<sym.Concrete(int(code-0xca))
	case in(0xcc, 0xcf):
		size = 1 + 1<<sym.Concrete(int(code-0xcc))
	case in(0xd0, 0xd3):
		size = 1 + 1<<sym.Concrete(int(code-0xd0))
	case in(0xd4, 0xd8):
		want, size = value.FixExtToken, 2+1<<sym.Concrete(int(code-0xd4))
	case in(0xd9, 0xdb):
		want, size = value.StrHeader, 1+1<<sym.Concrete(int(code-0xd9))
	case in(0xdc, 0xdd):
		want, size = value.ListHeader, 1+2<<sym.Concrete(int(code-0xdc))
	case in(0xde, 0xdf):
		want, size = value.MapHeader, 1+2<<sym.Concrete(int(code-0xde))
	}
	sym.Assert(f == want, "a code has another format")
	sym.Assert(sym.BytesEq(h, data[:size]), "a header has other bytes")
	// the next token begins behind the header
	b, err := u.Read(21 - size)
	sym.Assert(err == nil && sym.BytesEq(b, data[size:]), "reading goes on at another place")
	f, _ = u.Next()
	sym.Assert(f == value.EOF, "the end is not reported")
}

// what is read with copying, or from a reader, stays as it is
func C27_Copies() {
	a, b := sym.Bytes("a", 3), sym.Bytes("b", 3)
	data := cat(a, b)
	keepA, keepB := string(a), string(b)
	var u value.Unpacker
	switch sym.Choose("source", 3) {
	case 0:
		u = value.MessageUnpacker(data, true)
	case 1:
		u = value.MessageReader(bytes.NewReader(data))
	default:
		u = value.MessageReader(&byteChunks{chunks{data: data, step: 1}})
	}
	x, err := u.Read(3)
	sym.Assert(err == nil, "reading fails")
	y, err := u.Read(3)
	sym.Assert(err == nil, "reading fails")
	clobber(data)
	sym.Assert(sym.StrEq(string(x), keepA) && sym.StrEq(string(y), keepB), "what was read changes")
	clobber(x)
	sym.Assert(sym.StrEq(string(y), keepB), "what was read changes with something read before")
	_ = append(x, 0xff, 0xff, 0xff)
	sym.Assert(sym.StrEq(string(y), keepB), "what was read is overwritten by appending to something read before")
}

// a packer keeps the error of its writer and writes nothing more
func C27_Writer() {
	a, b := anyToken("a", sym.Choose("a.kind", tokenKinds)), anyToken("b", sym.Choose("b.kind", tokenKinds))
	want := cat(a.bytes, b.bytes)
	w := &brokenWriter{room: sym.Choose("room", len(want)+1), partial: sym.Choose("partial", 2) == 1, err: io.ErrClosedPipe}
	p := value.MessagePacker(w)
	a.write(p)
	b.write(p)
	if w.room == len(want) && !w.failed {
		sym.Assert(p.Error() == nil && sym.BytesEq(w.data, want), "packing fails without a failure")
		return
	}
	if !w.failed {
		sym.Assert(p.Error() == nil, "packing fails without a failure")
		return
	}
	n := len(w.data)
	sym.Assert(p.Error() == io.ErrClosedPipe, "the error of the writer is lost")
	sym.Assert(n <= len(want) && sym.BytesEq(w.data, want[:n]), "something else is written before the failure")
	w.room = 1000
	p.PackRaw(nil)
	p.PackRaw([]byte{})
	sym.Assert(p.Error() == io.ErrClosedPipe, "a packer loses its error")
	p.PackNil()
	p.PackBool(true)
	p.PackLong(5)
	p.PackDouble(2)
	p.PackStr("s")
	p.PackBin([]byte{1})
	for _, n := range []int{0, 1, 2, 3, 4, 8, 16, 17, 31, 32, 255, 256, 65536} {
		p.PackExt(9, make([]byte, n))
		p.PackBin(make([]byte, n))
		p.PackStr(string(make([]byte, n)))
		p.PackList(n)
		p.PackMap(n)
		p.PackLong(int64(n))
		p.PackLong(-int64(n) << 16)
	}
	p.PackRaw([]byte{0xc0})
	value.Tuple(value.True).Pack(p)
	sym.Assert(len(w.data) == n && p.Error() == io.ErrClosedPipe, "a packer writes on after a failure")
}

// a long beyond the range is an error, whatever is parsed afterwards
func C27_Overflow() {
	n := sym.U64("n")
	u, p := tokenSource(cat(hdr(0xcf, n, 8), []byte{5, 0xc0})), value.MessageParser()
	v := p.ParseLong(next(u, value.LongToken))
	if n > math.MaxInt64 {
		sym.Assert(p.Error() != nil && v == 0, "a long beyond the range is read")
	} else {
		sym.Assert(p.Error() == nil && v == int64(n), "another long is read")
	}
	e := p.Error()
	sym.Assert(p.ParseLong(next(u, value.LongToken)) == 5 && p.Error() == e, "a parser loses its error")
	next(u, value.NilToken)
}

// longer payloads: a failure in the header, in front of the payload, and inside of it
func C27_WriterSizes() {
	sizes := []int{1, 2, 4, 5, 8, 16, 17, 32, 256, 65536}
	n := sizes[sym.Choose("n", len(sizes))]
	b := make([]byte, n)
	b[0], b[n-1] = sym.U8("x"), sym.U8("y")
	t := payloadToken(4+sym.Choose("kind", 3), string(b), 9)
	head := len(t.bytes) - n
	room := []int{0, 1, head - 1, head, head + 1, head + n/2, head + n - 1}[sym.Choose("room", 7)]
	w := &brokenWriter{room: room, partial: sym.Choose("partial", 2) == 1, err: io.ErrShortWrite}
	p := value.MessagePacker(w)
	t.write(p)
	if !w.failed {
		sym.Assert(p.Error() == nil && sym.BytesEq(w.data, t.bytes[:len(w.data)]), "packing fails without a failure")
		return
	}
	k := len(w.data)
	sym.Assert(p.Error() == io.ErrShortWrite && sym.BytesEq(w.data, t.bytes[:k]), "the error of the writer is lost")
	w.room = 1 << 20
	t.write(p)
	p.PackRaw([]byte{})
	p.PackStr("")
	p.PackBin(nil)
	p.PackNil()
	sym.Assert(len(w.data) == k && p.Error() == io.ErrShortWrite, "a packer writes on after a failure")
}

// a parser keeps an error, whatever it parses afterwards
func C27_Keeps() {
	p := value.MessageParser()
	parse := []func(b []byte){
		func(b []byte) { p.ParseBool(b) },
		func(b []byte) { p.ParseLong(b) },
		func(b []byte) { p.ParseDouble(b) },
		func(b []byte) { p.ParseBin(b) },
		func(b []byte) { p.ParseStr(b) },
		func(b []byte) { p.ParseList(b) },
		func(b []byte) { p.ParseMap(b) },
		func(b []byte) { p.ParseExt(b) },
	}
	parse[sym.Choose("first", len(parse))]([]byte{0xc0})
	sym.Assert(p.Error() != nil, "nil is taken for another token")
	parse[sym.Choose("then", len(parse))](sym.Bytes("header", 18))
	sym.Assert(p.Error() != nil, "a parser loses its error")
}

// raw pieces are written as they are
func C27_Raw() {
	n := sym.Choose("n", 14)
	if n == 13 {
		n = []int{31, 64, 300, 5000}[sym.Choose("long", 4)]
	}
	b := make([]byte, n)
	copy(b, sym.Bytes("b", 12))
	if n > 0 {
		b[n-1] = sym.U8("last")
	}
	var buf bytes.Buffer
	p := value.MessagePacker(&buf)
	p.PackLong(7)
	p.PackRaw(b)
	p.PackRaw(b)
	p.PackBool(true)
	sym.Assert(p.Error() == nil && sym.BytesEq(buf.Bytes(), cat([]byte{7}, b, b, []byte{0xc3})), "a raw piece is not written as it is")
}

// a collection of less than no elements is an empty one
func C27_NegativeSizes() {
	n := -1 - sym.Choose("n", 3)
	var w bytes.Buffer
	p := value.MessagePacker(&w)
	p.PackList(n)
	p.PackMap(n)
	p.PackLong(5)
	sym.Assert(p.Error() == nil, "packing fails")
	u, r := tokenSource(w.Bytes()), value.MessageParser()
	sym.Assert(r.ParseList(next(u, value.ListHeader)) == 0, "a list of less than no elements")
	sym.Assert(r.ParseMap(next(u, value.MapHeader)) == 0, "a map of less than no entries")
	sym.Assert(r.ParseLong(next(u, value.LongToken)) == 5 && r.Error() == nil, "another token follows")
}
