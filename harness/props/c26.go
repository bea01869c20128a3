package props

import (
	"bytes"
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// A decoder may allocate this much at any rate, and this much per byte that
// it received.
const (
	allocBase    = 64 << 10
	allocPerByte = 1 << 10
)

// source is a reader that counts what it hands out.
type source struct {
	data []byte
	n    int
	one  bool // also byte by byte
}

func (r *source) Read(p []byte) (int, error) {
	if r.n == len(r.data) {
		return 0, io.EOF
	}
	k := copy(p, r.data[r.n:])
	r.n += k
	return k, nil
}

type byteSource struct{ source }

func (r *byteSource) ReadByte() (byte, error) {
	if r.n == len(r.data) {
		return 0, io.EOF
	}
	r.n++
	return r.data[r.n-1], nil
}

// decodeIn decodes b in one of the ways there are, with the allocation limits on.
func decodeIn(b []byte, perByte int) error {
	way := sym.Choose("way", 8)
	limit := uint64(allocBase + perByte*len(b))
	sym.MaxAlloc(limit)
	out := make(chan value.Value, len(b)+1)
	before := sym.Allocated()
	var err error
	switch way {
	case 0:
		_, err = value.Unpack(b, false)
	case 1:
		_, err = value.Unpack(b, true)
	case 2:
		_, err = value.Read(&source{data: b})
	case 3:
		_, err = value.Read(&byteSource{source{data: b}})
	case 4:
		_, err = value.Read(bytes.NewReader(b))
	case 5:
		err = value.UnpackStruct(b, &kindsS{}, true)
	case 6:
		err = value.UnpackStruct(b, &nodeS{}, false)
	default:
		err = value.ReadStream(&source{data: b}, out)
	}
	sym.Assert(sym.Allocated()-before <= limit, "decoding allocates far more than the input")
	return err
}

// sized is a header that declares any size, with the bytes of the size and
// all that follows it unknown.
func sized(name string) []byte {
	return sizedAs(name, sym.Choose(name, 16))
}

// container is one that declares a number of elements.
func container(name string) []byte {
	return sizedAs(name, []int{0, 1, 13, 15}[sym.Choose(name, 4)])
}

func sizedAs(name string, format int) []byte {
	switch format {
	case 0:
		return []byte{0x80 | sym.U8(name)&15}
	case 1:
		return []byte{0x90 | sym.U8(name)&15}
	case 2:
		return []byte{0xa0 | sym.U8(name)&31}
	case 3:
		return hdr(0xc4, uint64(sym.U8(name)), 1)
	case 4:
		return hdr(0xc5, uint64(sym.U16(name)), 2)
	case 5:
		return hdr(0xc6, uint64(sym.U32(name)), 4)
	case 6:
		return cat(hdr(0xc7, uint64(sym.U8(name)), 1), []byte{sym.U8(name)})
	case 7:
		return cat(hdr(0xc8, uint64(sym.U16(name)), 2), []byte{sym.U8(name)})
	case 8:
		return cat(hdr(0xc9, uint64(sym.U32(name)), 4), []byte{sym.U8(name)})
	case 9:
		return hdr(0xd9, uint64(sym.U8(name)), 1)
	case 10:
		return hdr(0xda, uint64(sym.U16(name)), 2)
	case 11:
		return hdr(0xdb, uint64(sym.U32(name)), 4)
	case 12:
		return hdr(0xdc, uint64(sym.U16(name)), 2)
	case 13:
		return hdr(0xdd, uint64(sym.U32(name)), 4)
	case 14:
		return hdr(0xde, uint64(sym.U16(name)), 2)
	default:
		return hdr(0xdf, uint64(sym.U32(name)), 4)
	}
}

// inside puts b where the decoder comes across it in another message.
func inside(b []byte) []byte {
	switch sym.Choose("inside", 8) {
	case 0:
		return b
	case 1:
		return cat(refList(2), []byte{1}, b)
	case 2: // as key and as value of maps
		return cat(refMap(1), b)
	case 3:
		return cat(refMap(1), refLong(2), b)
	case 4:
		return cat(refMap(2), refLong(2), refLong(2), refStr(1), []byte("a"), b)
	case 5: // struct fields
		return cat(refMap(1), refLong(1+int64(sym.Choose("tag", 7))), b)
	case 6:
		return cat(refMap(1), refLong(2), refMap(1), refLong(3), b)
	default:
		return cat(refMap(1), refLong(3), refList(2), b)
	}
}

// one declared size with little after it
func C26_Header() {
	b := inside(sized("h"))
	n := 1 // no rest is the same as a rest that is cut off
	if sym.Tier() > 0 {
		n = sym.Choose("n", 3)
	}
	decodeIn(append(b, sym.Bytes("rest", n)...), allocPerByte)
}

// sizes inside of sizes
func C26_Headers() {
	b := cat(container("a"), sized("b"))
	if sym.Tier() > 0 {
		b = cat(container("c"), b)
	}
	decodeIn(b, allocPerByte)
}

// keys in front of further sizes
func C26_MapHeaders() {
	key := [][]byte{{5}, {0xa1, 'k'}, {0xc0}}[sym.Choose("key", 3)]
	decodeIn(cat(hdr(0xdf, uint64(sym.U32("map")), 4), key, sized("b"), key), allocPerByte)
}

// any bytes
func C26_Any() {
	decodeIn(sym.Bytes("b", 1+sym.Choose("n", 3+sym.Tier())), allocPerByte)
}

// much data: the whole allocation stays in proportion
func C26_Payload() {
	n := []int{100, 4095, 4096, 4097, 70000, 100000}[sym.Choose("n", 6)]
	declared := sym.U32("declared")
	format := []byte{0xc6, 0xdb, 0xc9}[sym.Choose("format", 3)]
	b := hdr(format, uint64(declared), 4)
	if format == 0xc9 {
		b = append(b, 0x40)
	}
	sym.Assume(int(declared) >= n)
	decodeIn(append(b, make([]byte, n)...), 8)
}

func C26_Elements() {
	n := []int{15, 16, 17, 100, 2000}[sym.Choose("n", 5)]
	b := []byte{0xdd, 0, 0, 0, 0}
	elem := []byte{sym.U8("e") & 0x7f}
	switch sym.Choose("what", 4) {
	case 0:
	case 1:
		b[0] = 0xdf
		elem = append(elem, elem...)
	case 2:
		b[0] = 0xdf
		elem = append([]byte{0xa1}, 'a', 1)
	default:
		elem = []byte{0x90}
	}
	more := sym.U16("more")
	copy(b[1:], be(uint64(n)+uint64(more), 4))
	for i := 0; i < n; i++ {
		b = append(b, elem...)
	}
	decodeIn(b, allocPerByte)
}

// forever is a reader that returns the same bytes again and again.
type forever struct {
	unit []byte
	pos  int
}

func (r *forever) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.unit[r.pos]
		r.pos++
		if r.pos == len(r.unit) {
			r.pos = 0
		}
	}
	return len(p), nil
}

// unit is something that opens another level when it is repeated.
func unit() []byte {
	return [][]byte{
		{0x91},
		{0xdc, 0, 1},
		{0xdd, 0, 0, 0, 1},
		{0x9f},
		{0x81, 1},
		{0x81, 0xa1, 'a'},
		{0x81, 2},
		{0x81},
		{0xde, 0, 1, 3},
		{0xdf, 0xff, 0xff, 0xff, 0xff, 2},
		{0x81, 3, 0x91},
		{0x81, 4},
		{0x91, 0x81, 5},
	}[sym.Choose("unit", 13)]
}

const levels = 1 << 19 // more than the depth that is too deep

// repeated is that many units.
func repeated(u []byte) []byte {
	b := append([]byte(nil), u...)
	for n := 1; n < levels; n *= 2 {
		b = append(b, b...)
	}
	return b
}

// nested without end
func C26_Nesting() {
	sym.MaxDepth(150000)
	u := unit()
	deep := false
	switch sym.Choose("way", 5) {
	case 0:
		_, err := value.Read(&forever{unit: u})
		deep = err != nil
	case 1:
		b := repeated(u)
		_, err := value.Unpack(b, true)
		deep = err != nil
	case 2:
		b := repeated(u)
		deep = value.UnpackStruct(b, &kindsS{}, false) != nil
	case 3:
		b := repeated(u)
		deep = value.UnpackStruct(b, &nodeS{}, false) != nil
	default:
		deep = value.ReadStream(&forever{unit: u}, make(chan value.Value, 2)) != nil
	}
	sym.Assert(deep, "nesting without end is accepted")
}

// ordinary nesting is not an error
func C26_Ordinary() {
	n := 1 + sym.Choose("n", 8)*40
	u := [][]byte{{0x91}, {0x81, 0xa1, 'a'}, {0x81, 2}}[sym.Choose("unit", 3)]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, u...)
	}
	b = append(b, sym.U8("x")&0x7f)
	v, err := value.Unpack(b, true)
	sym.Assert(err == nil && sym.BytesEq(pack(v), b), "an ordinary nested message is rejected")
}

// keys of keys: the text of a key is part of the text of the next one
func C26_Keys() {
	n := []int{1, 2, 5, 16, 24}[sym.Choose("depth", 5)]
	var head, tail []byte
	shape := sym.Choose("shape", 4)
	for i := 0; i < n; i++ {
		switch shape {
		case 0: // a map as the key of a map
			head, tail = append(head, 0x81), append(tail, 0xc0)
		case 1: // a list with a map as the key of a map
			head, tail = append(head, 0x81, 0x91), append(tail, 0xc0)
		case 2: // as the second key
			head, tail = append(head, 0x82, 0xa1, 'k', 0xc0), append(tail, 0xc0)
		default: // a map as the value of a map
			head = append(head, 0x81, 0xa1, '"')
		}
	}
	inner := [][]byte{{0xa1, '"'}, {0xa1, '\\'}, {0xc4, 1, 0}, hdr(0xcb, 0x7fe0000000000000, 8), {0xd4, 7, 7}}[sym.Choose("inner", 5)]
	decodeIn(cat(head, inner, tail), allocPerByte)
}

// a key in the form of a decimal that is short and has many digits
func C26_DecimalKey() {
	exp := []int{9, 300, 5000, 200000}[sym.Choose("exp", 4)]
	if sym.Choose("negative", 2) == 1 {
		exp = -exp
	}
	key := pack(value.Decimal(decOf(7, int32(exp))))
	decodeIn(cat(refMap(1), key, []byte{1}), 40)
}

// indexes and keys of any size
func C26_Indexes() {
	n := 1 + sym.Choose("n", 2)
	b := refMap(uint64(n))
	for i := 0; i < n; i++ {
		switch sym.Choose("key", 4) {
		case 0:
			b = cat(b, hdr(0xce, uint64(sym.U32("k")), 4))
		case 1:
			b = cat(b, hdr(0xd3, sym.U64("k"), 8))
		case 2:
			b = cat(b, hdr(0xcd, uint64(sym.U16("k")), 2))
		default:
			b = cat(b, hdr(0xd2, uint64(sym.U32("k")), 4))
		}
		b = append(b, 1)
	}
	decodeIn(b, allocPerByte)
}

type listsS struct {
	V []value.Value     `tag:"1"`
	N []value.Number    `tag:"2"`
	S []value.String    `tag:"3" repeated:"true"`
	L []value.List      `tag:"4"`
	P []*innerS         `tag:"5"`
	R []*innerS         `tag:"6" repeated:"true"`
	M []value.Map       `tag:"7"`
	B []value.Bool      `tag:"8"`
	E []value.Extension `tag:"9" repeated:"true"`
}

// list fields of every type
func C26_Fields() {
	b := cat(refMap(1+uint64(sym.Choose("n", 2))), []byte{1 + byte(sym.Choose("tag", 9))}, sized("h"))
	b = append(b, sym.Bytes("rest", sym.Choose("rest", 3))...)
	limit := uint64(allocBase + allocPerByte*len(b))
	sym.MaxAlloc(limit)
	before := sym.Allocated()
	value.UnpackStruct(b, &listsS{}, sym.Choose("copy", 2) == 1)
	sym.Assert(sym.Allocated()-before <= limit, "decoding allocates far more than the input")
}
