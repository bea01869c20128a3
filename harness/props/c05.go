package props

import (
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// rejected: the prefix b gives the end of input or an unexpected one.
func rejected(b []byte) {
	want := io.ErrUnexpectedEOF
	if len(b) == 0 {
		want = io.EOF
	}
	var v value.Value
	var err error
	switch sym.Choose("source", 5) {
	case 0:
		v, err = value.Unpack(b, true)
	case 1:
		v, err = value.Unpack(b, false)
	case 2:
		v, err = value.Read(&chunks{data: b})
	case 3:
		v, err = value.Read(&chunks{data: b, withEOF: true})
	default:
		v, err = value.Read(&byteChunks{chunks{data: b}})
	}
	sym.Assert(err != nil, "a truncated message was accepted")
	sym.Assert(err == want, "a truncated message gives another error than the end of input")
	sym.Assert(v == nil, "a truncated message gives a value")
}

func truncated(v value.Value) {
	b := pack(v)
	k := sym.Choose("cut", len(b))
	rejected(b[:k:k])
}

func C05_Long() {
	n := sym.I64("n")
	truncated(value.Long(n))
}

func C05_Scalars() {
	k := sym.Choose("kind", gScalars)
	truncated(anyScalar("v", k, 3))
}

func C05_BigInt() {
	truncated(value.BigInt(big128(sym.U64("hi"), sym.U64("lo"), sym.Choose("neg", 2) == 1)))
}

// sizes of every header class, cut near every boundary of the decoder
func C05_Sizes() {
	n := []int{31, 32, 255, 256, 4095, 4096, 4097, 9000, 65535, 65536}[sym.Choose("len", 10)]
	data := make([]byte, n)
	data[0], data[n-1] = sym.U8("first"), sym.U8("last")
	var v value.Value
	switch sym.Choose("kind", 3) {
	case 0:
		v = value.Utf8(string(data))
	case 1:
		v = value.Raw(data, false)
	default:
		data[0] = 0x77
		v = value.Unknown(data)
	}
	b := pack(v)
	cuts := []int{0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 31, 4095, 4096, 4097, 4100, 4101, 4102, 8192, 8193, 8197, 65535, len(b) - 2, len(b) - 1}
	k := cuts[sym.Choose("cut", len(cuts))]
	sym.Assume(k < len(b))
	rejected(b[:k:k])
}

func C05_Collections() {
	v := anyCollection("v", sym.Choose("kind", 6))
	truncated(v)
}

func C05_Elements() {
	e := smallScalar("e", sym.Choose("kind", gScalars))
	switch sym.Choose("in", 4) {
	case 0:
		truncated(value.Tuple(e, e))
	case 1:
		truncated(value.EmptyMutableMap().Put("key", e).Put("other", e))
	case 2:
		truncated(value.EmptySparseList().PutAt(200, e).PutAt(-200, e))
	default:
		truncated(value.ImmutableList([]value.Value{nil, e}))
	}
}

func C05_Nested() {
	inner := value.Tuple(elem("e"))
	m := value.EmptyImmutableMap().Put("k", inner)
	l := value.EmptySparseList().PutAt(4, m)
	truncated(value.ImmutableList([]value.Value{l, m, value.EmptyImmutableList(), value.EmptyImmutableMap()}))
}

// many elements: the cut falls behind whole elements
func C05_ManyElements() {
	n := []int{15, 16, 17, 40}[sym.Choose("n", 4)]
	items := make([]value.Value, n)
	m := value.EmptyMutableMap()
	s := value.EmptySparseList()
	for i := range items {
		items[i] = value.Long(int64(i))
		m = m.Put(string([]byte{'a', byte(i)}), items[i])
		s = s.PutAt(i, items[i])
	}
	switch sym.Choose("kind", 3) {
	case 0:
		truncated(value.ImmutableList(items))
	case 1:
		truncated(m)
	default:
		truncated(s)
	}
}

// messages that were not written by this library: long header forms
func C05_LongForms() {
	forms := [][]byte{
		hdr(0xd9, 3, 1), hdr(0xda, 3, 2), hdr(0xdb, 3, 4),
		hdr(0xc4, 3, 1), hdr(0xc5, 3, 2), hdr(0xc6, 3, 4),
		append(hdr(0xc7, 2, 1), 9), append(hdr(0xc8, 2, 2), 9), append(hdr(0xc9, 2, 4), 9),
		hdr(0xdc, 3, 2), hdr(0xdd, 3, 4), hdr(0xd0, 0, 0), hdr(0xd1, 0, 0), hdr(0xd2, 0, 0), hdr(0xd3, 0, 0), hdr(0xca, 0, 0), hdr(0xcb, 0, 0), hdr(0xcc, 0, 0),
	}
	b := cat(forms[sym.Choose("form", len(forms))])
	need := 3
	switch b[0] {
	case 0xc7, 0xc8, 0xc9:
		need = 2
	case 0xd0, 0xcc:
		need = 1
	case 0xd1:
		need = 2
	case 0xd2, 0xca:
		need = 4
	case 0xd3, 0xcb:
		need = 8
	}
	for i := 0; i < need; i++ {
		b = append(b, sym.U8("byte")&0x7f)
	}
	k := sym.Choose("cut", len(b))
	rejected(b[:k:k])
	_, err := value.Unpack(b, true)
	sym.Assert(err == nil, "the whole message was rejected")
}

// inside puts a message where the decoder comes across it in another one; what
// follows it is left out
func C05_Inside() {
	b := pack(smallScalar("v", sym.Choose("kind", gScalars)))
	if sym.Choose("what", 2) == 1 {
		b = [][]byte{{0x90}, {0x80}, {0x91, 0xc0}, {0x81, 0xa0, 0xc0}, {0x81, 5, 6}, {0xc4, 0}, {0xa0}, {0xc7, 0, 9}}[sym.Choose("short", 8)]
	}
	var h []byte
	for i, n := 0, 1+sym.Choose("depth", 2); i < n; i++ {
		h = cat(h, [][]byte{
			{0x91},
			{0x92, 0x05},
			{0xdd, 0, 0, 0, 1},
			{0x81},
			{0x81, 0xa1, 'a'},
			{0x82, 0xa1, 'a', 0xc0, 0xa1, 'b'},
			{0x81, 2},
			{0x82, 1, 2, 0x33},
			{0x81, 0xc3},
			{0xdf, 0, 0, 0, 1, 0xa0},
		}[sym.Choose("in", 10)])
	}
	all := cat(h, b)
	k := sym.Choose("cut", len(all))
	rejected(all[:k:k])
}
