package props

import (
	"bytes"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// decodeAny decodes arbitrary bytes from a buffer or a reader.
func decodeAny(b []byte) (v value.Value, err error) {
	switch sym.Choose("source", 3) {
	case 0:
		v, err = value.Unpack(b, true)
	case 1:
		v, err = value.Unpack(b, false)
	default:
		v, err = value.Read(&chunks{data: b})
	}
	return
}

func reunpack(v value.Value) {
	p := pack(v)
	w, err := value.Unpack(p, true)
	sym.Assert(err == nil && w != nil, "the packed form of a decoded value was rejected")
	if !hasNaN(v) {
		sym.Assert(value.Equal(v, w), "unpacking the packed form of a decoded value gives another value")
	}
	sym.Assert(sym.BytesEq(pack(w), p), "the packed form of a decoded value does not come back")
}

func anyBytesTouched(b []byte) {
	v, err := value.Unpack(b, true)
	if err != nil {
		return
	}
	sym.Assert(v != nil, "no value and no error")
	touch(v)
	reunpack(v)
}

func C04_AnyBytes() {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	anyBytesTouched(sym.Bytes("in", sym.Choose("len", n+1)))
}

// decode only: longer inputs, no accessors
func C04_AnyBytesDecode() {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	v, err := decodeAny(sym.Bytes("in", n))
	if err == nil {
		sym.Assert(v != nil, "no value and no error")
		v.Kind()
	}
}

// numbers of every code
func C04_AnyNumber() {
	b := append([]byte{0xca + byte(sym.Choose("code", 10))}, sym.Bytes("in", 8)...)
	v, err := decodeAny(b)
	if err == nil {
		reunpack(v)
		n := v.(value.Number)
		n.Type()
		n.Long()
		n.Double()
		n.IsNaN()
		n.Equal(value.Null)
		n.Add(n)
		n.Subtract(n)
	}
}

// payloads of big integers and decimals
func C04_AnyBigInt() {
	anyBytesTouched(cat([]byte{0xc7, 0, 1}, nil))
	n := sym.Choose("len", 6)
	anyBytesTouched(cat([]byte{0xc7, byte(n), 1}, sym.Bytes("in", n)))
}

func C04_AnyDecimal() {
	lens := 7
	if sym.Tier() > 0 {
		lens = 8
	}
	n := sym.Choose("len", lens)
	in := sym.Bytes("in", n)
	if n >= 4 {
		// conversions of extreme exponents take forever
		in = append(be(uint64(sym.Choose("exp", 5)-2), 4), in[4:]...)
	}
	anyBytesTouched(cat([]byte{0xc7, byte(n), 2}, in))
}

// the exponent may be anything as long as nothing is converted
func C04_AnyDecimalExponent() {
	in := sym.Bytes("in", 6)
	v, err := decodeAny(cat([]byte{0xc7, byte(len(in)), 2}, in))
	if err == nil {
		p := pack(v)
		w, err := value.Unpack(p, true)
		sym.Assert(err == nil, "the packed form of a decoded decimal was rejected")
		sym.Assert(sym.BytesEq(pack(w), p), "the packed form of a decoded decimal does not come back")
		v.String()
		value.Jsonify(v)
	}
}

// declared sizes beyond the input are no reason to read outside of it
func C04_DeclaredSizes() {
	codes := []byte{0xa1, 0xbf, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb}
	c := codes[sym.Choose("code", len(codes))]
	n := sym.Choose("len", 9)
	whole := sym.Bytes("in", 9)
	b := append([]byte{c}, whole[:n]...)
	v, err := decodeAny(b[: n+1 : n+1])
	if err != nil {
		return
	}
	switch v.Kind() {
	case value.STRING:
		sym.Assert(bytes.Contains(b, v.(value.String).Raw()), "a string that is not in the input")
	case value.UNKNOWN:
		sym.Assert(bytes.Contains(b, v.(value.Extension).Native()), "an extension that is not in the input")
	}
	reunpack(v)
}

// collections of arbitrary small elements
func C04_AnyCollection() {
	n := 3
	in := sym.Bytes("in", n)
	if sym.Tier() == 0 {
		// a byte for every kind of element
		sym.Assume(sym.Or(in[0] < 0x80, in[0] >= 0x90))
	}
	h := []byte{0x91, 0x92, 0x93, 0x81, 0x82}[sym.Choose("header", 5)]
	anyBytesTouched(append([]byte{h}, in...))
}

// nested headers around something arbitrary
func C04_Nested() {
	var b []byte
	for i := 0; i < 3; i++ {
		b = append(b, [][]byte{{0x91}, {0x81, 0xa1, 'k'}, {0x81, 5}, {0x92, 0xc0}}[sym.Choose("header", 4)]...)
	}
	anyBytesTouched(append(b, sym.Bytes("in", 2)...))
}

// collections as keys of maps
func C04_AnyKeys() {
	key := [][]byte{{0x90}, {0x80}, {0x91, 1}, {0x81, 1, 2}, {0x81, 0xa0, 2}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xcb, 0x7f, 0xf8, 0, 0, 0, 0, 0, 0}, {0xc4, 1, 7}, {0xd4, 5, 5}, {0xc7, 0, 1}, {0xc7, 4, 2, 0, 0, 0, 1}, {0xc2}, {0xc0}}
	var b []byte
	b = append(b, 0x82)
	for i := 0; i < 2; i++ {
		k := sym.Choose("key", len(key)+1)
		if k < len(key) {
			b = append(b, key[k]...)
		} else {
			b = append(b, sym.U8("one byte key"))
		}
		b = append(b, byte(i))
	}
	anyBytesTouched(b)
}
