package props

import (
	"math"
	"strconv"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// decode both ways; they have to agree
func decode(b []byte) (value.Value, error) {
	return value.Unpack(b, true)
}

func decodeOK(b []byte) value.Value {
	v, err := decode(b)
	sym.Assert(err == nil, "a well-formed message was rejected")
	sym.Assert(v != nil, "a well-formed message gave nothing")
	return v
}

func isLong(v value.Value, n int64) {
	sym.Assert(v.Kind() == value.NUMBER, "an integer is not decoded to a number")
	sym.Assert(v.(value.Number).Type() == value.LONG, "an integer is not decoded to a long")
	sym.Assert(v.(value.Number).Long() == n, "an integer is decoded to another one")
}

// every integer code with every payload
func C03_Integers() {
	p := sym.U64("payload")
	switch sym.Choose("code", 10) {
	case 0:
		c := sym.U8("fix")
		sym.Assume(c < 0x80)
		isLong(decodeOK([]byte{c}), int64(c))
	case 1:
		c := sym.U8("fix")
		sym.Assume(c >= 0xe0)
		isLong(decodeOK([]byte{c}), int64(c)-256)
	case 2:
		isLong(decodeOK(hdr(0xcc, p, 1)), int64(p&0xff))
	case 3:
		isLong(decodeOK(hdr(0xcd, p, 2)), int64(p&0xffff))
	case 4:
		isLong(decodeOK(hdr(0xce, p, 4)), int64(p&0xffffffff))
	case 5:
		v, err := decode(hdr(0xcf, p, 8))
		if p < 1<<63 {
			sym.Assert(err == nil, "an unsigned integer was rejected")
			isLong(v, int64(p))
		} else {
			sym.Assert(err != nil, "an unsigned integer beyond the range was accepted")
		}
	case 6:
		isLong(decodeOK(hdr(0xd0, p, 1)), int64(p<<56)>>56)
	case 7:
		isLong(decodeOK(hdr(0xd1, p, 2)), int64(p<<48)>>48)
	case 8:
		isLong(decodeOK(hdr(0xd2, p, 4)), int64(p<<32)>>32)
	default:
		isLong(decodeOK(hdr(0xd3, p, 8)), int64(p))
	}
}

// an integer out of range is an error also inside of other values
func C03_OverflowInside() {
	p := sym.U64("payload")
	sym.Assume(p >= 1<<63)
	n := hdr(0xcf, p, 8)
	var b []byte
	switch sym.Choose("where", 5) {
	case 0:
		b = cat([]byte{0x91}, n)
	case 1:
		b = cat([]byte{0x92, 0x01}, n)
	case 2:
		b = cat([]byte{0x81}, n, []byte{0xc0})
	case 3:
		b = cat([]byte{0x81, 0xa1, 'k'}, n)
	default:
		b = cat([]byte{0x92}, n, []byte{0x01})
	}
	_, err := decode(b)
	sym.Assert(err != nil, "an unsigned integer beyond the range was accepted")
	_, err = value.Read(&chunks{data: b})
	sym.Assert(err != nil, "an unsigned integer beyond the range was accepted from a reader")
}

func C03_Doubles() {
	p := sym.U64("payload")
	v := decodeOK(hdr(0xcb, p, 8))
	sym.Assert(v.Kind() == value.NUMBER && v.(value.Number).Type() == value.DOUBLE, "a float is not decoded to a double")
	sym.Assert(math.Float64bits(v.(value.Number).Double()) == p, "a double is decoded to another one")
}

func C03_Floats() {
	p := sym.U32("payload")
	f := math.Float32frombits(p)
	v := decodeOK(hdr(0xca, uint64(p), 4))
	sym.Assert(v.Kind() == value.NUMBER && v.(value.Number).Type() == value.DOUBLE, "a float is not decoded to a double")
	d := v.(value.Number).Double()
	if f != f {
		sym.Assert(d != d, "NaN is decoded to a number")
	} else {
		sym.Assert(d == float64(f), "a float is decoded to another one")
	}
}

func C03_NilBool() {
	sym.Assert(decodeOK([]byte{0xc0}).Kind() == value.NULL, "nil is not decoded to null")
	f := decodeOK([]byte{0xc2})
	sym.Assert(f.Kind() == value.BOOL && !f.(value.Bool).Boolean(), "false is decoded to something else")
	f = decodeOK([]byte{0xc3})
	sym.Assert(f.Kind() == value.BOOL && f.(value.Bool).Boolean(), "true is decoded to something else")
}

// every header form of every length it can hold that is tried
func C03_Strings() {
	n := []int{0, 1, 2, 31, 32, 255, 256}[sym.Choose("len", 7)]
	s := sym.Bytes("s", n)
	tail := sym.Bytes("tail", 2)
	var h []byte
	switch sym.Choose("form", 4) {
	case 0:
		sym.Assume(n < 32)
		h = []byte{0xa0 | byte(n)}
	case 1:
		sym.Assume(n < 256)
		h = hdr(0xd9, uint64(n), 1)
	case 2:
		h = hdr(0xda, uint64(n), 2)
	default:
		h = hdr(0xdb, uint64(n), 4)
	}
	v := decodeOK(cat(h, s, tail))
	sym.Assert(v.Kind() == value.STRING && v.(value.String).Type() == value.UTF8, "a string is not decoded to a string")
	sym.Assert(v.(value.String).Utf8() == string(s), "a string is decoded to another one")
}

func C03_Binaries() {
	n := []int{0, 1, 2, 31, 32, 255, 256}[sym.Choose("len", 7)]
	s := sym.Bytes("s", n)
	tail := sym.Bytes("tail", 2)
	var h []byte
	switch sym.Choose("form", 3) {
	case 0:
		sym.Assume(n < 256)
		h = hdr(0xc4, uint64(n), 1)
	case 1:
		h = hdr(0xc5, uint64(n), 2)
	default:
		h = hdr(0xc6, uint64(n), 4)
	}
	v := decodeOK(cat(h, s, tail))
	sym.Assert(v.Kind() == value.STRING && v.(value.String).Type() == value.RAW, "binary is not decoded to a byte string")
	sym.Assert(sym.BytesEq(v.(value.String).Raw(), s), "binary is decoded to other bytes")
}

func extForm(n int, tag byte) []byte {
	fix := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}
	switch sym.Choose("form", 4) {
	case 0:
		c, ok := fix[n]
		sym.Assume(ok)
		return []byte{c, tag}
	case 1:
		sym.Assume(n < 256)
		return append(hdr(0xc7, uint64(n), 1), tag)
	case 2:
		return append(hdr(0xc8, uint64(n), 2), tag)
	default:
		return append(hdr(0xc9, uint64(n), 4), tag)
	}
}

func C03_Extensions() {
	n := []int{0, 1, 2, 3, 4, 8, 16, 17, 255, 256}[sym.Choose("len", 10)]
	s := sym.Bytes("s", n)
	tag := sym.U8("tag")
	sym.Assume(sym.And(tag != 1, tag != 2))
	v := decodeOK(cat(extForm(n, tag), s, sym.Bytes("tail", 1)))
	sym.Assert(v.Kind() == value.UNKNOWN, "an extension is not decoded to an unknown value")
	sym.Assert(sym.BytesEq(v.(value.Extension).Native(), cat([]byte{tag}, s)), "an extension is decoded to another one")
}

func C03_BigNumbers() {
	z := anyBig("z")
	if sym.Choose("decimal", 2) == 0 {
		e, _ := z.GobEncode()
		v := decodeOK(cat(extForm(len(e), 1), e))
		sym.Assert(v.Kind() == value.NUMBER && v.(value.Number).Type() == value.BIGINT, "a big integer is decoded to something else")
		sym.Assert(v.(value.Number).BigInt().Cmp(z) == 0, "a big integer is decoded to another one")
		return
	}
	d := anyDecimal("d")
	e, _ := d.MarshalBinary()
	v := decodeOK(cat(extForm(len(e), 2), e))
	sym.Assert(v.Kind() == value.NUMBER && v.(value.Number).Type() == value.DECIMAL, "a decimal is decoded to something else")
	g := v.(value.Number).Decimal()
	sym.Assert(g.Exponent() == d.Exponent() && g.Coefficient().Cmp(d.Coefficient()) == 0, "a decimal is decoded to another one")
}

func C03_Lists() {
	n := []int{0, 1, 2, 15, 16, 17, 40}[sym.Choose("len", 7)]
	var h []byte
	switch sym.Choose("form", 3) {
	case 0:
		sym.Assume(n < 16)
		h = []byte{0x90 | byte(n)}
	case 1:
		h = hdr(0xdc, uint64(n), 2)
	default:
		h = hdr(0xdd, uint64(n), 4)
	}
	e := sym.Bytes("e", n)
	for i := range e {
		sym.Assume(e[i] < 0x80)
	}
	v := decodeOK(cat(h, e))
	sym.Assert(v.Kind() == value.LIST, "a list is not decoded to a list")
	l := v.(value.List)
	sym.Assert(l.Len() == n, "a list is decoded with another length")
	for i := range e {
		isLong(l.GetAt(i), int64(e[i]))
	}
}

func mapForm(n int) []byte {
	switch sym.Choose("form", 3) {
	case 0:
		sym.Assume(n < 16)
		return []byte{0x80 | byte(n)}
	case 1:
		return hdr(0xde, uint64(n), 2)
	default:
		return hdr(0xdf, uint64(n), 4)
	}
}

// maps with keys of every kind, in any order
func C03_MapKeys() {
	n := sym.Choose("n", 4)
	b := mapForm(n)
	allInts := true
	ints := make([]int64, n)
	keys := make([]string, n)
	vals := make([]int64, n)
	for i := 0; i < n; i++ {
		kinds, low, high := 2, int64(-1), int64(2)
		if n <= 2 {
			kinds, low, high = 7, -2, 12
		}
		if sym.Tier() > 0 {
			low, high = -32, 100
		}
		switch sym.Choose("key", kinds) {
		case 0: // small integers, single and double digit, negative
			k := int64(int8(sym.U8("int")))
			sym.Assume(sym.And(k >= low, k < high))
			ints[i] = k
			keys[i] = strconv.FormatInt(k, 10)
			b = append(b, refLong(k)...)
		case 1:
			s := sym.Str("str", 1)
			keys[i] = s
			b = cat(b, refStr(1), []byte(s))
			allInts = false
		case 2:
			allInts = false
			keys[i] = ""
			b = append(b, 0xa0)
		case 3:
			allInts = false
			f := sym.Bool("bool")
			keys[i] = "false"
			b = append(b, 0xc2)
			if f {
				keys[i] = "true"
				b[len(b)-1] = 0xc3
			}
		case 4:
			allInts = false
			keys[i] = "null"
			b = append(b, 0xc0)
		case 5:
			s := sym.Str("long str", 3)
			keys[i] = s
			b = cat(b, refStr(3), []byte(s))
			allInts = false
		default: // integer in a wide form
			k := int64(int8(sym.U8("int")))
			sym.Assume(sym.And(k >= -1, k < 2))
			ints[i] = k
			keys[i] = strconv.FormatInt(k, 10)
			b = append(b, hdr(0xd3, uint64(k), 8)...)
		}
		vals[i] = int64(sym.U8("val") & 0x7f)
		b = append(b, byte(vals[i]))
	}
	v := decodeOK(b)
	if n > 0 && allInts {
		sym.Assert(v.Kind() == value.LIST, "a map with integer keys is not decoded to a sparse list")
		items := v.(value.List).Items()
		sym.Assert(len(items) == n, "a sparse list is decoded with another number of items")
		used := make([]bool, n)
		for k, it := range items {
			if k > 0 {
				sym.Assert(items[k-1].Key() <= it.Key(), "a sparse list is decoded out of order")
			}
			x, ok := intOf(it.Value())
			sym.Assert(ok, "a value is decoded to something else")
			found := false
			for j := range ints {
				if !used[j] && ints[j] == int64(it.Key()) && vals[j] == x {
					used[j], found = true, true
					break
				}
			}
			sym.Assert(found, "an item is decoded that was not there")
		}
		return
	}
	sym.Assert(v.Kind() == value.MAP, "a map is not decoded to a map")
	m := v.(value.Map)
	sym.Assert(m.Len() == n, "a map is decoded with another number of entries")
	used := make([]bool, n)
	entries := m.Entries()
	for k, it := range entries {
		if k > 0 {
			sym.Assert(entries[k-1].Key() <= it.Key(), "a map is decoded out of order")
		}
		x, ok := intOf(it.Value())
		sym.Assert(ok, "a value is decoded to something else")
		found := false
		for j := range keys {
			if !used[j] && keys[j] == it.Key() && vals[j] == x {
				used[j], found = true, true
				break
			}
		}
		sym.Assert(found, "an entry is decoded that was not there")
	}
	for j := range keys {
		dup := false
		for i := range keys {
			if i != j && keys[i] == keys[j] {
				dup = true
			}
		}
		if !dup {
			x, ok := intOf(m.Get(keys[j]))
			sym.Assert(ok && x == vals[j], "a key of the decoded map is not found")
		}
	}
}

// many entries in any direction: sorting of larger collections
func C03_MapOrder() {
	n := []int{12, 13, 20}[sym.Choose("n", 3)]
	down := sym.Choose("down", 2) == 1
	sparse := sym.Choose("sparse", 2) == 1
	b := mapForm(n)
	for i := 0; i < n; i++ {
		k := i
		if down {
			k = n - 1 - i
		}
		if sparse {
			b = append(b, byte(k), byte(k+1))
		} else {
			b = append(b, 0xa1, byte('a'+k), byte(k+1))
		}
	}
	v := decodeOK(b)
	for i := 0; i < n; i++ {
		if sparse {
			isLong(v.(value.List).GetAt(i), int64(i+1))
		} else {
			isLong(v.(value.Map).Get(string([]byte{byte('a' + i)})), int64(i+1))
		}
	}
}

// the parser on its own, including codes of other types
func C03_ParserRejects() {
	code := sym.U8("code")
	b := append([]byte{code}, sym.Bytes("rest", 8)...)
	p := value.MessageParser()
	var ok bool
	switch sym.Choose("type", 7) {
	case 0:
		p.ParseBool(b)
		ok = code == 0xc2 || code == 0xc3
	case 1:
		p.ParseLong(b)
		big := code == 0xcf && b[1] >= 0x80
		ok = sym.And(!big, sym.Or(code < 0x80, code >= 0xe0, sym.And(code >= 0xcc, code <= 0xd3)))
	case 2:
		p.ParseDouble(b)
		ok = code == 0xca || code == 0xcb
	case 3:
		p.ParseBin(b)
		ok = sym.And(code >= 0xc4, code <= 0xc6)
	case 4:
		p.ParseStr(b)
		ok = sym.Or(sym.And(code >= 0xa0, code <= 0xbf), sym.And(code >= 0xd9, code <= 0xdb))
	case 5:
		p.ParseList(b)
		ok = sym.Or(sym.And(code >= 0x90, code <= 0x9f), code == 0xdc, code == 0xdd)
	default:
		p.ParseMap(b)
		ok = sym.Or(sym.And(code >= 0x80, code <= 0x8f), code == 0xde, code == 0xdf)
	}
	sym.Assert((p.Error() == nil) == ok, "the parser accepts exactly the codes of a type")
}

// keys that are numbers, and no integers
func C03_NumberKeys() {
	var key []byte
	var text string
	switch sym.Choose("key", 5) {
	case 0:
		i := sym.Choose("float", 5)
		d := []float64{1.5, 1, 0, -2, 1e20}[i]
		key, text = hdr(0xcb, math.Float64bits(d), 8), []string{"1.5", "1", "0", "-2", "100000000000000000000"}[i]
	case 1:
		d := float32(0.25)
		key, text = hdr(0xca, uint64(math.Float32bits(d)), 4), "0.25"
	case 2:
		key, text = hdr(0xcb, math.Float64bits(math.NaN()), 8), "NaN"
	case 3:
		z := value.BigInt(bigOf(int64(sym.U8("z"))))
		key, text = pack(z), z.String()
	default:
		d := value.Decimal(decOf(int64(sym.U8("d")&7), -1))
		key, text = pack(d), d.String()
	}
	other := [][]byte{nil, refLong(1), refLong(7), cat(refStr(1), []byte("x"))}[sym.Choose("other", 4)]
	first := sym.Choose("first", 2) == 1
	n := 1
	b := cat(key, []byte{5})
	if other != nil {
		n = 2
		if first {
			b = cat(other, []byte{6}, b)
		} else {
			b = cat(b, other, []byte{6})
		}
	}
	v := decodeOK(cat(mapForm(n), b))
	sym.Assert(v.Kind() == value.MAP, "a map with a key that is no integer is not decoded to a map")
	m := v.(value.Map)
	sym.Assert(m.Len() == n, "a map is decoded with another number of entries")
	if text != "1" || other == nil || other[0] != 1 {
		isLong(m.Get(text), 5)
	}
}

// the sizes that headers declare
func C03_ParserSizes() {
	p := value.MessageParser()
	n, width := sym.U32("n"), sym.Choose("width", 3)
	b := func(code byte) []byte {
		code += byte(width)
		switch width {
		case 0:
			n &= 0xff
			return hdr(code, uint64(n), 1)
		case 1:
			n &= 0xffff
			return hdr(code, uint64(n), 2)
		}
		return hdr(code, uint64(n), 4)
	}
	var got int
	switch sym.Choose("type", 5) {
	case 0:
		got = p.ParseBin(b(0xc4))
	case 1:
		got = p.ParseStr(b(0xd9))
	case 2:
		sym.Assume(width > 0)
		got = p.ParseList(b(0xdc - 1))
	case 3:
		sym.Assume(width > 0)
		got = p.ParseMap(b(0xde - 1))
	default:
		size, tag := p.ParseExt(append(b(0xc7), 0x33))
		sym.Assert(len(tag) == 1 && tag[0] == 0x33, "the tag of an extension")
		got = size
	}
	sym.Assert(p.Error() == nil && got == int(n), "a declared size is read as another one")
}

// more elements than fit in the shorter headers
func C03_ManyElements() {
	n := []int{255, 256, 65535, 65536, 65537, 70000}[sym.Choose("n", 6)]
	first, last := sym.U8("first")&0x7f, sym.U8("last")&0x7f
	b := hdr(0xdd, uint64(n), 4)
	if n < 1<<16 && sym.Choose("form", 2) == 1 {
		b = hdr(0xdc, uint64(n), 2)
	}
	e := make([]byte, n)
	e[0], e[n-1] = first, last
	v := decodeOK(cat(b, e))
	sym.Assert(v.Kind() == value.LIST, "a list is not decoded to a list")
	l := v.(value.List)
	sym.Assert(l.Len() == n, "a list is decoded with another length")
	isLong(l.GetAt(0), int64(first))
	isLong(l.GetAt(n-2), 0)
	isLong(l.GetAt(n-1), int64(last))
}

// entries of one key keep their order, in long maps out of order as well
func C03_EqualKeysMany() {
	n := []int{11, 12, 13, 14, 20, 33, 50, 64}[sym.Choose("n", 8)]
	step := []int{1, 7, 9, -1}[sym.Choose("order", 4)]
	every := []int{2, 3, 5}[sym.Choose("every", 3)]
	text := sym.Choose("text", 2) == 1
	b := refMap(uint64(n))
	at := sym.Choose("unknown", 2) * (n / 2)
	var want []value.Value
	for i := 0; i < n; i++ {
		k := ((i*step)%n + n) % n
		if i%every == 0 {
			k = 5
		}
		v := value.Value(value.Long(int64(i)))
		if i == at {
			v = elem("e")
		}
		if k == 5 {
			want = append(want, v)
		}
		if text {
			b = cat(b, refStr(2), []byte{'a' + byte(k/10), '0' + byte(k%10)}, pack(v))
		} else {
			b = cat(b, refLong(int64(k)), pack(v))
		}
	}
	v := unpack(b)
	if text {
		m := v.(value.Map)
		sym.Assert(m.Len() == n, "a map has another number of entries")
		ascending(m)
		sameElems(m.Select("a5"), want, "the entries of a key are in another order")
		sym.Assert(sameElem(m.Get("a5"), want[0]), "another entry of a key comes first")
		return
	}
	l := v.(value.List)
	items := l.Items()
	sym.Assert(len(items) == n, "a list has another number of items")
	for i := range items[1:] {
		sym.Assert(items[i].Key() <= items[i+1].Key(), "the items are not in order")
	}
	sameElems(l.Select(5), want, "the items of an index are in another order")
	sym.Assert(sameElem(l.GetAt(5), want[0]), "another item of an index comes first")
}

// lists and maps as keys: their text is the key
func C03_CollectionKeys() {
	x := sym.U8("x") & 0x7f
	keys := []value.Value{
		value.Tuple(),
		value.Tuple(value.Long(int64(x)), value.True),
		value.EmptyImmutableMap(),
		value.EmptyImmutableMap().Put("a", value.Long(int64(x))),
		value.EmptySparseList().PutAt(3, value.Long(int64(x))),
		value.Tuple(value.Tuple(value.Null)),
	}
	k := keys[sym.Choose("key", len(keys))]
	v, o := elem("v"), elem("o")
	b := refMap(2)
	other := cat(refStr(1), []byte("z"), pack(o))
	switch sym.Choose("place", 3) {
	case 0:
		b = cat(b, pack(k), pack(v), other)
	case 1:
		b = cat(b, other, pack(k), pack(v))
	default:
		// the map is an element of another one
		b = cat(refList(1), b, other, pack(k), pack(v))
	}
	r := unpack(b)
	if l, ok := r.(value.List); ok {
		r = l.GetAt(0)
	}
	m, ok := r.(value.Map)
	sym.Assert(ok && m.Len() == 2, "a map with a collection as a key has another number of entries")
	sym.Assert(sameElem(m.Get(k.String()), v) && sameElem(m.Get("z"), o), "a map with a collection as a key has other values")
}

// a single entry, of any key and any simple element, inside of other collections
func C03_SingleInside() {
	simple := [][]byte{{0xc0}, {0xc2}, {0xc3}, {7}, {0xff}, {0xa0}, {0x90}, {0x80}, {0xc4, 0}, {0xd4, 5, 6}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xca, 0x3f, 0x80, 0, 0}}
	e := simple[sym.Choose("element", len(simple))]
	want := unpack(e)
	k := sym.U8("k")
	key := []byte{0xd0, k}
	n := int64(int8(k))
	text := false
	switch sym.Choose("key", 4) {
	case 0:
	case 1:
		key, n = []byte{0xcd, 0, k}, int64(k)
	case 2:
		key, n = []byte{k & 0x7f}, int64(k&0x7f)
	default:
		key, text = []byte{0xa1, '0'}, true
	}
	b := cat([]byte{0x81}, key, e)
	depth, how := sym.Choose("depth", 4), sym.Choose("wrap", 4)
	for i := 0; i < depth; i++ {
		switch how {
		case 0:
			b = cat([]byte{0x91}, b)
		case 1:
			b = cat([]byte{0x81, 0}, b)
		case 2:
			b = cat([]byte{0xde, 0, 1, 0xa0}, b)
		default:
			b = cat([]byte{0x82, 3, 0xc0, 4}, b)
		}
	}
	v := unpack(b)
	for i := 0; i < depth; i++ {
		switch how {
		case 0, 1:
			l, ok := v.(value.List)
			sym.Assert(ok && l.Len() == 1, "a collection around is another one")
			v = l.GetAt(0)
		case 2:
			m, ok := v.(value.Map)
			sym.Assert(ok && m.Len() == 1, "a collection around is another one")
			v = m.Get("")
			sym.Assert(v != nil, "a key is lost")
		default:
			l, ok := v.(value.List)
			sym.Assert(ok && l.Len() == 5 && len(l.Items()) == 2, "a collection around is another one")
			v = l.GetAt(4)
		}
	}
	if text {
		m, ok := v.(value.Map)
		sym.Assert(ok && m.Len() == 1 && m.Entries()[0].Key() == "0" && sameKind(m.Entries()[0].Value(), want), "an entry is lost or another one")
		return
	}
	l, ok := v.(value.List)
	sym.Assert(ok, "a map with an integer key is no list")
	items := l.Items()
	sym.Assert(len(items) == 1 && int64(items[0].Key()) == n && sameKind(items[0].Value(), want), "an item is lost or another one")
}
