package props

import (
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// probe is a writer that remembers how much was written, the first bytes and
// the byte at one arbitrary position, so that outputs of any size can be
// compared without storing them.
type probe struct {
	total uint64
	head  [16]byte
	at    uint64
	atVal byte
	atSet bool
}

func (p *probe) Write(b []byte) (int, error) {
	n := uint64(len(b))
	for k := uint64(0); k < 16; k++ {
		if k >= p.total && k-p.total < n {
			p.head[k] = b[k-p.total]
		}
	}
	if p.at >= p.total && p.at-p.total < n {
		p.atVal = b[p.at-p.total]
		p.atSet = true
	}
	p.total += n
	return len(b), nil
}

func (p *probe) expect(h []byte, n uint64, payload func(i uint64) byte) {
	sym.Assert(p.total == uint64(len(h))+n, "wrong number of bytes written")
	for i, c := range h {
		sym.Assert(p.head[i] == c, "wrong header byte")
	}
	if p.at < p.total {
		sym.Assert(p.atSet, "a byte is missing")
		if p.at >= uint64(len(h)) {
			sym.Assert(p.atVal == payload(p.at-uint64(len(h))), "wrong payload byte")
		}
	}
}

func C02_Long() {
	n := sym.I64("n")
	b := pack(value.Long(n))
	sym.Assert(sym.BytesEq(b, refLong(n)), "wrong encoding of a long")
	m, err := value.Long(n).MarshalBinary()
	sym.Assert(err == nil && sym.BytesEq(m, refLong(n)), "wrong binary form of a long")
	sym.ObserveBytes("b", b)
}

func C02_Double() {
	bits := sym.U64("bits")
	d := value.Double(math.Float64frombits(bits))
	b := pack(d)
	sym.Assert(sym.BytesEq(b, hdr(0xcb, bits, 8)), "wrong encoding of a double")
	m, err := d.MarshalBinary()
	sym.Assert(err == nil && sym.BytesEq(m, b), "wrong binary form of a double")
}

func C02_NullBool() {
	b := sym.Bool("b")
	e := byte(0xc2)
	if b {
		e = 0xc3
	}
	sym.Assert(sym.BytesEq(pack(value.Boolean(b)), []byte{e}), "wrong encoding of a boolean")
	sym.Assert(sym.BytesEq(pack(value.Null), []byte{0xc0}), "wrong encoding of null")
	sym.Assert(sym.BytesEq(pack(nil), []byte{0xc0}), "wrong encoding of nil")
}

const maxLen = 1<<32 - 1

// every length of a string
func C02_StrAnyLength() {
	s := sym.LazyStr("s", maxLen)
	p := &probe{at: anyAt()}
	k := value.MessagePacker(p)
	k.PackStr(s)
	sym.Assert(k.Error() == nil, "unexpected error")
	p.expect(refStr(uint64(len(s))), uint64(len(s)), func(i uint64) byte { return s[i] })
}

func C02_BinAnyLength() {
	s := sym.LazyBytes("b", maxLen)
	p := &probe{at: anyAt()}
	k := value.MessagePacker(p)
	k.PackBin(s)
	sym.Assert(k.Error() == nil, "unexpected error")
	p.expect(refBin(uint64(len(s))), uint64(len(s)), func(i uint64) byte { return s[i] })
}

func C02_ExtAnyLength() {
	s := sym.LazyBytes("b", maxLen)
	tag := sym.U8("tag")
	p := &probe{at: anyAt()}
	k := value.MessagePacker(p)
	k.PackExt(value.Ext(tag), s)
	sym.Assert(k.Error() == nil, "unexpected error")
	p.expect(refExt(uint64(len(s)), tag), uint64(len(s)), func(i uint64) byte { return s[i] })
}

func C02_ListAnyLength() {
	n := sym.U64("n")
	sym.Assume(n <= maxLen)
	p := &probe{at: anyAt()}
	k := value.MessagePacker(p)
	k.PackList(int(n))
	sym.Assert(k.Error() == nil, "unexpected error")
	p.expect(refList(n), 0, nil)
}

func C02_MapAnyLength() {
	n := sym.U64("n")
	sym.Assume(n <= maxLen)
	p := &probe{at: anyAt()}
	k := value.MessagePacker(p)
	k.PackMap(int(n))
	sym.Assert(k.Error() == nil, "unexpected error")
	p.expect(refMap(n), 0, nil)
}

// the scalar methods of the packer
func C02_PackerScalars() {
	p := &probe{}
	k := value.MessagePacker(p)
	n := sym.I64("n")
	bits := sym.U64("bits")
	switch sym.Choose("what", 5) {
	case 0:
		k.PackLong(n)
		p.expect(refLong(n), 0, nil)
	case 1:
		k.PackDouble(math.Float64frombits(bits))
		sym.Assert(p.total == 9 && p.head[0] == 0xcb, "wrong encoding of a double")
	case 2:
		b := sym.Bool("b")
		k.PackBool(b)
		if b {
			p.expect([]byte{0xc3}, 0, nil)
		} else {
			p.expect([]byte{0xc2}, 0, nil)
		}
	case 3:
		k.PackNil()
		p.expect([]byte{0xc0}, 0, nil)
	default:
		raw := sym.Bytes("raw", 3)
		k.PackRaw(raw)
		p.expect(raw, 0, nil)
	}
	sym.Assert(k.Error() == nil, "unexpected error")
}

// whole values, header and payload
func C02_Utf8() {
	s := sym.Str("s", boundaryLen("len"))
	sym.Assert(sym.BytesEq(pack(value.Utf8(s)), cat(refStr(uint64(len(s))), []byte(s))), "wrong encoding of a string")
}

func C02_Raw() {
	s := sym.Bytes("s", boundaryLen("len"))
	sym.Assert(sym.BytesEq(pack(value.Raw(s, true)), cat(refBin(uint64(len(s))), s)), "wrong encoding of bytes")
}

func C02_Unknown() {
	s := sym.Bytes("s", []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 255, 256, 65535, 65536}[sym.Choose("len", 16)])
	tag := sym.U8("tag")
	b := pack(value.Unknown(append([]byte{tag}, s...)))
	sym.Assert(sym.BytesEq(b, cat(refExt(uint64(len(s)), tag), s)), "wrong encoding of an extension")
}

// big integers and decimals are extensions 1 and 2 with the documented
// payloads of their types
func C02_BigInt() {
	var z *big.Int
	if sym.Choose("wide", 2) == 1 {
		z = big128(sym.U64("hi"), sym.U64("lo"), sym.Choose("neg", 2) == 1)
	} else {
		z = anyBig("z")
	}
	e, _ := z.GobEncode()
	sym.Assert(sym.BytesEq(pack(value.BigInt(z)), cat(refExt(uint64(len(e)), 1), e)), "wrong encoding of a big integer")
}

func C02_Decimal() {
	d := anyDecimal("d")
	e, _ := d.MarshalBinary()
	sym.Assert(sym.BytesEq(pack(value.Decimal(d)), cat(refExt(uint64(len(e)), 2), e)), "wrong encoding of a decimal")
}

// collections: a header and the elements in order
func C02_List() {
	mutable := sym.Choose("mutable", 2) == 1
	n := []int{0, 1, 2, 15, 16, 17}[sym.Choose("n", 6)]
	items := make([]value.Value, n)
	want := refList(uint64(n))
	for i := range items {
		c := sym.U8("e")
		items[i] = value.Long(int64(c))
		if i > 1 {
			sym.Assume(c < 128)
		}
		want = append(want, refLong(int64(c))...)
	}
	if n > 0 && sym.Choose("gap", 2) == 1 {
		items = append(items[:n-1:n-1], nil)
		want = refList(uint64(n))
		for _, it := range items[:n-1] {
			k, _ := intOf(it)
			want = append(want, refLong(k)...)
		}
		want = append(want, 0xc0)
	}
	l := value.ImmutableList(items)
	if mutable {
		l = value.MutableList(items)
	}
	sym.Assert(sym.BytesEq(pack(l), want), "wrong encoding of a list")
}

func C02_Map() {
	mutable := sym.Choose("mutable", 2) == 1
	n := []int{0, 1, 2, 15, 16}[sym.Choose("n", 5)]
	want := refMap(uint64(n))
	var entries []value.MapEntry
	for i := 0; i < n; i++ {
		key := string([]byte{byte('a' + i), sym.U8("k")})
		var v value.Value = elem("e")
		e := pack(v)
		if i == 0 && sym.Choose("nil", 2) == 1 {
			v, e = nil, []byte{0xc0}
		}
		if mutable {
			entries = append(entries, value.MutableEntry(key, v))
		} else {
			entries = append(entries, value.ImmutableEntry(key, v))
		}
		want = cat(want, refStr(2), []byte(key), e)
	}
	m := value.ImmutableMap(entries, true)
	if mutable {
		m = value.SortedMap(entries, true)
	}
	sym.Assert(sym.BytesEq(pack(m), want), "wrong encoding of a map")
}

func C02_Sparse() {
	n := []int{1, 2, 15, 16}[sym.Choose("n", 4)]
	want := refMap(uint64(n))
	var items []value.ListItem
	last := int64(0)
	for i := 0; i < n; i++ {
		k := last + 1
		if i < 2 {
			k = sym.I64("key")
			sym.Assume(sym.And(k > -1<<62, k < 1<<62))
			if i > 0 {
				sym.Assume(k > last)
			}
		}
		last = k
		var v value.Value = elem("e")
		e := pack(v)
		if i == 0 && sym.Choose("nil", 2) == 1 {
			v, e = nil, []byte{0xc0}
		}
		items = append(items, value.MutableItem(int(k), v))
		if n > 2 {
			sym.Assume(sym.And(k >= 0, k < 64))
		}
		want = cat(want, refLong(k), e)
	}
	sym.Assert(sym.BytesEq(pack(value.SparseList(items, true)), want), "wrong encoding of a sparse list")
}

// anyAt is a position of the output to look at.
func anyAt() uint64 {
	return []uint64{0, 1, 5, 9, 20, 40, 300, 65545}[sym.Choose("at", 8)]
}
