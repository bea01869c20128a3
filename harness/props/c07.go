package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// clobber overwrites all of b with something else.
func clobber(b []byte) {
	b = b[:cap(b)]
	x := sym.U8("clobber")
	sym.Assume(x != 0)
	for i := range b {
		b[i] ^= x
	}
}

// payloadMessage is a message with a payload that a decoder may keep.
func payloadMessage(name string, kind int) []byte {
	switch kind {
	case 0:
		return cat(refStr(2), sym.Bytes(name, 2))
	case 1:
		return cat(refBin(3), sym.Bytes(name, 3))
	case 2, 3, 4, 5, 6:
		n := []int{1, 2, 4, 8, 16}[kind-2]
		return cat([]byte{0xd4 + byte(kind-2), 0x50}, sym.Bytes(name, n))
	case 7:
		return cat(refExt(3, 0x51), sym.Bytes(name, 3))
	case 8:
		return pack(value.BigInt(anyBig(name)))
	case 9:
		return pack(value.Decimal(decOf(int64(int8(sym.U8(name))), 3)))
	case 10:
		return cat(refList(2), refBin(1), sym.Bytes(name, 1), []byte{0xd4, 0x50, 7})
	case 11:
		return cat(refMap(1), refStr(2), sym.Bytes(name, 2), refBin(1), sym.Bytes(name+".v", 1))
	case 12:
		return cat(refMap(1), []byte{5}, []byte{0xd5, 0x50}, sym.Bytes(name, 2))
	case 13:
		return cat(refMap(2), refBin(1), sym.Bytes(name, 1), []byte{0xc0}, []byte{0xd4, 0x50, 1, 0xc2})
	case 14:
		return hdr(0xd3, sym.U64(name), 8)
	case 15:
		return hdr(0xcb, sym.U64(name), 8)
	case 16:
		return []byte{0xc2}
	default:
		return cat(refBin(40), sym.Bytes(name, 40))
	}
}

const payloadKinds = 18

// snapshot is everything that can be seen of a value.
func snapshot(v value.Value) []byte {
	s := pack(v)
	switch v.Kind() {
	case value.STRING:
		s = append(s, v.(value.String).Raw()...)
		s = append(s, v.(value.String).Utf8()...)
	case value.UNKNOWN:
		s = append(s, v.(value.Extension).Native()...)
	case value.MAP:
		for _, k := range v.(value.Map).Keys() {
			s = append(s, k...)
		}
	}
	return s
}

func C07_UnpackCopy() {
	b := payloadMessage("m", sym.Choose("kind", payloadKinds))
	v, err := value.Unpack(b, true)
	sym.Assert(err == nil, "a message was rejected")
	s := snapshot(v)
	clobber(b)
	sym.Assert(sym.BytesEq(snapshot(v), s), "a copied value changes with its input")
}

// the reader's buffers and later messages
func C07_Reader() {
	a := payloadMessage("a", sym.Choose("a.kind", payloadKinds))
	b := payloadMessage("b", sym.Choose("b.kind", payloadKinds))
	in := cat(a, b)
	var u value.Unpacker
	if sym.Choose("buffer", 2) == 1 {
		u = value.MessageUnpacker(in, true)
	} else {
		u = value.MessageReader(&chunks{data: in})
	}
	p := value.MessageParser()
	v, err := value.Parse(u, p)
	sym.Assert(err == nil, "a message was rejected")
	s := snapshot(v)
	w, err := value.Parse(u, p)
	sym.Assert(err == nil, "a message was rejected")
	sym.Assert(sym.BytesEq(snapshot(v), s), "a value changes when the next message is read")
	t := snapshot(w)
	clobber(in)
	sym.Assert(sym.BytesEq(snapshot(v), s), "a value changes with the input")
	sym.Assert(sym.BytesEq(snapshot(w), t), "a value changes with the input")
}

// readers that hand out their own memory cannot be told apart: the data is
// copied by the interface; but the buffers of one decode must not be reused
// in the next
func C07_ReadTwice() {
	a := payloadMessage("a", sym.Choose("a.kind", payloadKinds))
	b := payloadMessage("b", sym.Choose("b.kind", payloadKinds))
	r := &chunks{data: cat(a, b)}
	v, err := value.Read(r)
	sym.Assert(err == nil, "a message was rejected")
	s := snapshot(v)
	_, err = value.Read(r)
	sym.Assert(err == nil, "a message was rejected")
	sym.Assert(sym.BytesEq(snapshot(v), s), "a value changes when the next message is read")
}

func C07_Raw() {
	n := sym.Choose("len", 5)
	b := make([]byte, n, n+2)
	copy(b, sym.Bytes("b", n))
	want := append([]byte(nil), b...)
	v := value.Raw(b, true)
	clobber(b)
	sym.Assert(sym.BytesEq(v.Raw(), want), "a copied byte string changes with its input")
	s := value.Utf8(string(want))
	clobber(s.Raw())
	sym.Assert(s.Utf8() == string(want), "a string changes with the bytes that were taken from it")
	sym.Assert(sym.BytesEq(s.Raw(), want), "a string changes with the bytes that were taken from it")
}

// anyValue is a value of any kind.
func anyValue(name string) value.Value {
	k := sym.Choose(name+".kind", gScalars+6)
	if k < gScalars {
		return smallScalar(name, k)
	}
	return anyCollection(name, k-gScalars)
}

// outputs belong to the caller
func C07_Outputs() {
	registerHash()
	v := anyValue("v")
	p := append([]byte(nil), pack(v)...)
	j := value.Jsonify(v)
	var out []byte
	switch sym.Choose("output", 6) {
	case 0:
		out = pack(v)
	case 1:
		out, _ = v.MarshalBinary()
	case 2:
		out, _ = v.MarshalJSON()
	case 3:
		out, _, _ = value.Hash(v, testHash)
	case 4:
		_, out, _ = value.Hash(v, testHash)
	default:
		w := &sliceWriter{}
		sym.Assert(value.Write(w, v) == nil, "writing failed")
		out = w.data
	}
	clobber(out)
	sym.Assert(sym.BytesEq(pack(v), p), "overwriting an output changes the value")
	sym.Assert(value.Jsonify(v) == j, "overwriting an output changes the JSON form of the value")
	b, err := v.MarshalBinary()
	sym.Assert(err == nil && sym.BytesEq(b, p), "overwriting an output changes a later one")
	d, h, err := value.Hash(v, testHash)
	sym.Assert(err == nil && sym.BytesEq(d, p), "overwriting an output changes the hashed data")
	ref := &sumHash{}
	ref.Write(p)
	sym.Assert(sym.BytesEq(h, ref.Sum(nil)), "overwriting an output changes the hash")
}

// results of one call survive the next one, for other values as well
func C07_OutputsOfTwo() {
	which := sym.Choose("output", 3)
	var v value.Value
	if which == 2 {
		v = smallScalar("v", sym.Choose("v.kind", gScalars))
	} else {
		v = anyValue("v")
	}
	w := smallScalar("w", sym.Choose("w.kind", gScalars))
	get := func(x value.Value) []byte {
		switch which {
		case 0:
			return pack(x)
		case 1:
			b, _ := x.MarshalBinary()
			return b
		default:
			b, _ := x.MarshalJSON()
			return b
		}
	}
	a := get(v)
	s := append([]byte(nil), a...)
	b := get(w)
	sym.Assert(sym.BytesEq(a, s), "an output changes when the next one is made")
	t := append([]byte(nil), b...)
	clobber(a)
	sym.Assert(sym.BytesEq(b, t), "two outputs share memory")
	sym.Assert(sym.BytesEq(get(v), s), "overwriting an output changes a later one")
}

type sliceWriter struct{ data []byte }

func (w *sliceWriter) Write(p []byte) (int, error) {
	w.data = append(w.data, p...)
	return len(p), nil
}

// payloads of all lengths, several in one message
func C07_Lengths() {
	n := sym.Choose("len", 70)
	if k := sym.Choose("page", 2+sym.Tier()); k > 0 {
		n += []int{0, 4060, 8160}[k]
	}
	data := func(name string) []byte {
		b := make([]byte, n)
		if n > 0 {
			b[0], b[n/2], b[n-1] = sym.U8(name), sym.U8(name), sym.U8(name)
		}
		return b
	}
	part := func(name string) []byte {
		return cat(refBin(uint64(n)), data(name))
	}
	if sym.Choose("kind", 2) == 1 {
		part = func(name string) []byte { return cat(refExt(uint64(n), 0x44), data(name)) }
	}
	a, b, c := part("a"), part("b"), part("c")
	in := cat([]byte{0x92}, a, b, c)
	var u value.Unpacker
	if sym.Choose("buffer", 2) == 1 {
		u = value.MessageUnpacker(in, true)
	} else {
		u = value.MessageReader(&chunks{data: in})
	}
	p := value.MessageParser()
	v, err := value.Parse(u, p)
	sym.Assert(err == nil, "a message was rejected")
	w, err := value.Parse(u, p)
	sym.Assert(err == nil, "a message was rejected")
	for i := range in {
		in[i] = 0xaa
	}
	l := v.(value.List)
	sym.Assert(sym.BytesEq(pack(l.GetAt(0)), a), "a value changes when the next one is read")
	sym.Assert(sym.BytesEq(pack(l.GetAt(1)), b), "a value changes when the next one is read")
	sym.Assert(sym.BytesEq(pack(w), c), "a value changes with its input")
}

func C07_RawLengths() {
	n := []int{16, 31, 32, 63, 64, 100, 255, 256, 1000, 1024, 4095, 4096, 4097, 5000, 65535, 65536, 70000}[sym.Choose("len", 17)]
	b := make([]byte, n)
	x := sym.U8("x")
	i := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	b[i] = x
	v := value.Raw(b, true)
	b[i]++
	sym.Assert(v.Raw()[i] == x, "a copied byte string changes with its input")
	sym.Assert(pack(v)[len(pack(v))-n+i] == x, "a copied byte string changes with its input")
	out := pack(v)
	s := pack(v)
	for k := range out {
		out[k]++
	}
	sym.Assert(v.Raw()[i] == x && sym.BytesEq(pack(v), s), "overwriting an output changes the value")
}
