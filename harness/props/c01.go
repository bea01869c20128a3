package props

import (
	"math"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// roundTrip checks the whole statement for one value.
func roundTrip(v value.Value) value.Value {
	b := pack(v)
	r := unpack(b)
	k := value.NULL
	if v != nil {
		k = v.Kind()
	}
	sym.Assert(r.Kind() == k, "the kind changed in a round trip")
	if n, ok := v.(value.Number); ok {
		sym.Assert(r.(value.Number).Type() == n.Type(), "the number type changed in a round trip")
	}
	if s, ok := v.(value.String); ok {
		sym.Assert(r.(value.String).Type() == s.Type(), "the string type changed in a round trip")
	}
	b2 := pack(r)
	sym.Assert(sym.BytesEq(b, b2), "packing again gives other bytes")
	return r
}

// equalBoth: both sides agree.
func equalBoth(v, r value.Value) {
	sym.Assert(value.Equal(v, r), "the unpacked value is not equal to the packed one")
	sym.Assert(value.Equal(r, v), "the packed value is not equal to the unpacked one")
}

// consumed: the decoder stops exactly at the end of the message.
func consumed(b []byte) {
	u := value.MessageUnpacker(b, false)
	_, err := value.Parse(u, value.MessageParser())
	sym.Assert(err == nil, "parsing failed")
	f, _ := u.Next()
	sym.Assert(f == value.EOF, "the message was not consumed to its end")
}

func C01_Long() {
	n := sym.I64("n")
	v := value.Long(n)
	r := roundTrip(v)
	sym.Assert(r.(value.Number).Long() == n, "another long came back")
	equalBoth(v, r)
	consumed(pack(v))
}

func C01_Double() {
	bits := sym.U64("bits")
	v := value.Double(math.Float64frombits(bits))
	r := roundTrip(v)
	sym.Assert(math.Float64bits(r.(value.Number).Double()) == bits, "another double came back")
	if !v.IsNaN() {
		equalBoth(v, r)
	}
	consumed(pack(v))
}

func C01_NullBool() {
	for _, v := range []value.Value{value.Null, value.True, value.False, value.Boolean(sym.Bool("b"))} {
		r := roundTrip(v)
		equalBoth(v, r)
		consumed(pack(v))
	}
	r := roundTrip(nil)
	sym.Assert(r == value.Value(value.Null), "nil does not come back as null")
}

// lengths around every header class, with arbitrary content
var lengths = []int{0, 1, 2, 3, 5, 15, 16, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536}

func boundaryLen(name string) int {
	return lengths[sym.Choose(name, len(lengths))]
}

func C01_Utf8() {
	s := sym.Str("s", boundaryLen("len"))
	v := value.Utf8(s)
	r := roundTrip(v)
	sym.Assert(r.(value.String).Utf8() == s, "another string came back")
	equalBoth(v, r)
	consumed(pack(v))
}

func C01_Raw() {
	b := sym.Bytes("b", boundaryLen("len"))
	v := value.Raw(b, sym.Choose("copy", 2) == 1)
	r := roundTrip(v)
	sym.Assert(sym.BytesEq(r.(value.String).Raw(), b), "other bytes came back")
	equalBoth(v, r)
	consumed(pack(v))
}

func C01_BigInt() {
	hi, lo := sym.U64("hi"), sym.U64("lo")
	z := big128(hi, lo, sym.Choose("neg", 2) == 1)
	v := value.BigInt(z)
	r := roundTrip(v)
	sym.Assert(r.(value.Number).BigInt().Cmp(z) == 0, "another big integer came back")
	equalBoth(v, r)
	consumed(pack(v))
}

func C01_Decimal() {
	d := anyDecimal("d")
	v := value.Decimal(d)
	r := roundTrip(v)
	g := r.(value.Number).Decimal()
	sym.Assert(g.Exponent() == d.Exponent(), "another exponent came back")
	sym.Assert(g.Coefficient().Cmp(d.Coefficient()) == 0, "another coefficient came back")
	if e := d.Exponent(); e > -3 && e < 3 {
		equalBoth(v, r)
	}
	consumed(pack(v))
}

func C01_Unknown() {
	tag := sym.U8("tag")
	sym.Assume(sym.And(tag != uint8(value.BigIntExt), tag != uint8(value.DecimalExt)))
	b := append([]byte{tag}, sym.Bytes("data", []int{0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 255, 256}[sym.Choose("len", 13)])...)
	v := value.Unknown(b)
	r := roundTrip(v)
	e, ok := r.(value.Extension)
	sym.Assert(ok, "an unknown extension does not come back as one")
	sym.Assert(sym.BytesEq(e.Native(), b), "another extension came back")
	equalBoth(v, r)
	consumed(pack(v))
}

// nan: collections with NaN are not equal to anything.
func equalUnlessNaN(v, r value.Value, items ...value.Value) {
	for _, i := range items {
		if i != nil && isNaN(i) {
			return
		}
	}
	equalBoth(v, r)
}

// one or two elements of every kind in a list of either mutability
func C01_ListOfScalars() {
	mutable := sym.Choose("mutable", 2) == 1
	n := 1 + sym.Choose("n", 2)
	var items []value.Value
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", gScalars+1)
		if k == gScalars {
			items = append(items, nil)
		} else if i == 0 {
			items = append(items, anyScalar("e", k, 1))
		} else {
			sym.Assume(k != gDecimal && k != gBigInt)
			items = append(items, smallScalar("f", k))
		}
	}
	var l value.List
	if mutable {
		l = value.MutableList(items)
	} else {
		l = value.ImmutableList(items)
	}
	r := roundTrip(l).(value.List)
	sym.Assert(r.Len() == n, "a list came back with another length")
	for i, it := range items {
		if it == nil {
			sym.Assert(r.GetAt(i) == value.Value(value.Null), "a gap does not come back as null")
		} else if !isNaN(it) {
			sym.Assert(value.Equal(it, r.GetAt(i)), "a list element came back changed")
		}
	}
	equalUnlessNaN(l, r, items...)
	consumed(pack(l))
}

// smallScalar is a scalar with a one byte payload.
func smallScalar(name string, kind int) value.Value {
	switch kind {
	case gNull:
		return value.Null
	case gBool:
		return value.Boolean(sym.Bool(name))
	case gLong:
		return value.Long(int64(int8(sym.U8(name))))
	case gDouble:
		return value.Double(float64(sym.U8(name)))
	case gUtf8:
		return value.Utf8(sym.Str(name, 1))
	case gRaw:
		return value.Raw(sym.Bytes(name, 1), false)
	case gBigInt:
		return value.BigInt(bigOf(int64(int8(sym.U8(name)))))
	case gDecimal:
		return value.Decimal(decOf(int64(int8(sym.U8(name))), 2))
	default:
		return value.Unknown([]byte{0x55, sym.U8(name)})
	}
}

// list and map headers of every class
func C01_ListSizes() {
	mutable := sym.Choose("mutable", 2) == 1
	sizes := []int{0, 1, 2, 3, 14, 15, 16, 17, 255, 256, 257, 65535, 65536}
	n := sizes[sym.Choose("n", len(sizes))]
	items := make([]value.Value, n)
	for i := range items {
		items[i] = value.True
	}
	if n > 0 {
		items[0] = elem("first")
		items[n-1] = elem("last")
	}
	l := value.ImmutableList(items)
	if mutable {
		l = value.MutableList(items)
	}
	r := roundTrip(l).(value.List)
	sym.Assert(r.Len() == n, "a list came back with another length")
	equalBoth(l, r)
	consumed(pack(l))
}

func C01_MapSizes() {
	mutable := sym.Choose("mutable", 2) == 1
	sizes := []int{0, 1, 2, 14, 15, 16, 17, 64, 257, 65535, 65536}
	if sym.Tier() == 0 {
		sizes = sizes[:9]
	}
	n := sizes[sym.Choose("n", len(sizes))]
	entries := make([]value.MapEntry, n)
	for i := range entries {
		key := string([]byte{'k', byte(i >> 16), byte(i >> 8), byte(i)})
		val := value.Value(value.False)
		if i == 0 || i == n-1 {
			val = elem("e")
		}
		if mutable {
			entries[i] = value.MutableEntry(key, val)
		} else {
			entries[i] = value.ImmutableEntry(key, val)
		}
	}
	m := value.ImmutableMap(entries, true)
	if mutable {
		m = value.SortedMap(entries, true)
	}
	r := roundTrip(m).(value.Map)
	sym.Assert(r.Len() == n, "a map came back with another length")
	equalBoth(m, r)
	consumed(pack(m))
}

// arbitrary keys, values of every kind
func C01_Map() {
	mutable := sym.Choose("mutable", 2) == 1
	k1 := sym.Str("k1", sym.Choose("k1.len", 3))
	k2 := sym.Str("k2", sym.Choose("k2.len", 3))
	kind := sym.Choose("kind", gScalars+1)
	var v1 value.Value
	if kind < gScalars {
		v1 = smallScalar("v1", kind)
	}
	v2 := elem("v2")
	m := value.EmptyMap(!mutable).Put(k1, v1).Insert(k2, v2)
	r := roundTrip(m).(value.Map)
	sym.Assert(r.Len() == 2, "a map came back with another length")
	if k1 != k2 {
		sym.Assert(value.Equal(r.Get(k2), v2), "a map value came back changed")
		if !isNaN(v1) {
			sym.Assert(value.Equal(r.Get(k1), v1), "a map value came back changed")
		}
	}
	equalUnlessNaN(m, r, v1, v2)
	consumed(pack(m))
}

// keys that look like numbers stay a map
func C01_MapNumericText() {
	m := value.EmptyImmutableMap().Put("0", elem("a")).Put("17", elem("b"))
	r := roundTrip(m)
	sym.Assert(r.Kind() == value.MAP, "a map with numeric text keys came back as a list")
	equalBoth(m, r)
}

func C01_Sparse() {
	n := 1 + sym.Choose("n", 3)
	var items []value.ListItem
	keys := make([]int, n)
	for i := range keys {
		keys[i] = sym.Int("key")
		sym.Assume(sym.And(keys[i] > -1<<62, keys[i] < 1<<62))
		if n > 1 {
			// all header classes of a key come up in the single item
			sym.Assume(sym.And(keys[i] >= -32, keys[i] < 1000))
		}
		if i > 0 {
			sym.Assume(keys[i-1] <= keys[i])
		}
		items = append(items, value.MutableItem(keys[i], elem("v")))
	}
	l := value.SparseList(items, true)
	r := roundTrip(l).(value.List)
	sym.Assert(r.Len() == l.Len(), "a sparse list came back with another length")
	got := r.Items()
	sym.Assert(len(got) == n, "a sparse list came back with another number of items")
	for i := range got {
		sym.Assert(got[i].Key() == keys[i], "a sparse list came back with other indexes")
		sym.Assert(value.Equal(got[i].Value(), items[i].Value()), "a sparse list came back with other values")
	}
	equalBoth(l, r)
	consumed(pack(l))
}

// nested collections of every kind in each other
func C01_Nested() {
	inner := anyCollection("in", sym.Choose("inner", 6))
	outer := sym.Choose("outer", 5)
	var v value.Value
	switch outer {
	case 0:
		v = value.ImmutableList([]value.Value{inner, elem("e")})
	case 1:
		v = value.MutableList([]value.Value{elem("e"), inner})
	case 2:
		v = value.EmptyImmutableMap().Put("a", inner).Put("b", elem("e"))
	case 3:
		v = value.EmptyMutableMap().Put("b", inner).Put("a", elem("e"))
	default:
		v = value.EmptySparseList().PutAt(3, inner).PutAt(9, elem("e"))
	}
	r := roundTrip(v)
	equalBoth(v, r)
	consumed(pack(v))
}

func anyCollection(name string, kind int) value.Value {
	switch kind {
	case 0:
		return value.ImmutableList(elems(name, sym.Choose(name+".n", 3)))
	case 1:
		return value.MutableList(elems(name, sym.Choose(name+".n", 3)))
	case 2:
		m := value.EmptyImmutableMap()
		for i, n := 0, sym.Choose(name+".n", 3); i < n; i++ {
			m = m.Insert(sym.Str(name+".k", 1), elem(name))
		}
		return m
	case 3:
		m := value.EmptyMutableMap()
		for i, n := 0, sym.Choose(name+".n", 3); i < n; i++ {
			m = m.Insert(sym.Str(name+".k", 1), elem(name))
		}
		return m
	case 4:
		l := value.EmptySparseList()
		for i, n := 0, 1+sym.Choose(name+".n", 2); i < n; i++ {
			l = l.InsertAt(int(int8(sym.U8(name+".i"))), elem(name))
		}
		return l
	default:
		return value.ImmutableList([]value.Value{nil, elem(name)})
	}
}

// deep ones: collections of one element in each other
func C01_Deep() {
	depth := []int{3, 15, 16, 17, 33, 65, 200, 1000}[sym.Choose("depth", 8)]
	if sym.Tier() == 0 {
		sym.Assume(depth <= 200)
	}
	how := sym.Choose("how", 4)
	v := elem("e")
	for i := 0; i < depth; i++ {
		switch k := how; {
		case k == 0 || k == 3 && i%3 == 0:
			v = value.ImmutableList([]value.Value{v})
		case k == 1 || k == 3 && i%3 == 1:
			v = value.EmptyMutableMap().Put("k", v)
		default:
			v = value.EmptySparseList().PutAt(2, v)
		}
	}
	equalBoth(v, roundTrip(v))
	consumed(pack(v))
}

// numbers of many bytes
func C01_WideNumbers() {
	n := wideSizes[sym.Choose("size", len(wideSizes))]
	z := wideBig("z", n)
	if sym.Choose("decimal", 2) == 0 {
		v := value.BigInt(z)
		r := roundTrip(v)
		sym.Assert(r.(value.Number).BigInt().Cmp(z) == 0, "another big integer came back")
		equalBoth(v, r)
		consumed(pack(v))
		return
	}
	exps := []int32{0, -1, 5, -19, 40, -400, 1 << 20, math.MinInt32, math.MaxInt32}
	e := exps[sym.Choose("exp", len(exps))]
	v := value.Decimal(decBig(z, e))
	g := roundTrip(v).(value.Number).Decimal()
	sym.Assert(g.Exponent() == e && g.Coefficient().Cmp(z) == 0, "another decimal came back")
	consumed(pack(v))
}

// an element of any kind as the only one of a collection, inside of others
func C01_KindsInside() {
	rainbowOn()
	e := someKind()
	var v value.Value
	switch sym.Choose("in", 8) {
	case 0:
		v = value.ImmutableList([]value.Value{e})
	case 1:
		v = value.EmptyMutableMap().Put("", e)
	case 2:
		v = value.EmptyImmutableMap().Put("0", e)
	case 3:
		v = value.EmptySparseList().PutAt(0, e)
	case 4:
		v = value.EmptySparseList().PutAt(-1, e)
	case 5:
		v = value.EmptySparseList().PutAt(1, e).InsertAt(1, value.Null)
	case 6:
		v = value.ImmutableList([]value.Value{e, value.Null})
	default:
		v = value.EmptyImmutableMap().Put("", e).Insert("", value.Null)
	}
	for n, how := sym.Choose("depth", 4), sym.Choose("wrap", 4); n > 0; n-- {
		switch how {
		case 0:
			v = value.Tuple(v)
		case 1:
			v = value.EmptyImmutableMap().Put("", v)
		case 2:
			v = value.EmptySparseList().PutAt(0, v)
		default:
			v = value.EmptySparseList().PutAt(5, value.EmptyMutableMap().Put("k", value.ImmutableList([]value.Value{value.Null, v})))
		}
	}
	r := roundTrip(v)
	if !value.Equal(v, v) { // has NaN inside
		return
	}
	equalBoth(v, r)
}
