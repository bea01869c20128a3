package props

import (
	"math"
	"strconv"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// getters is the typed access of any collection to one place.
type getters struct {
	get  func() value.Value
	bool func() value.Bool
	num  func() value.Number
	str  func() value.String
	list func() value.List
	mp   func() value.Map
}

func listGetters(l value.List, i int) getters {
	return getters{
		func() value.Value { return l.GetAt(i) },
		func() value.Bool { return l.GetBoolAt(i) },
		func() value.Number { return l.GetNumberAt(i) },
		func() value.String { return l.GetStringAt(i) },
		func() value.List { return l.GetListAt(i) },
		func() value.Map { return l.GetMapAt(i) },
	}
}

func mapGetters(m value.Map, k string) getters {
	return getters{
		func() value.Value { return m.Get(k) },
		func() value.Bool { return m.GetBool(k) },
		func() value.Number { return m.GetNumber(k) },
		func() value.String { return m.GetString(k) },
		func() value.List { return m.GetList(k) },
		func() value.Map { return m.GetMap(k) },
	}
}

// holding is the access to v in a collection of any type.
func holding(v value.Value) getters {
	switch sym.Choose("collection", 9) {
	case 0:
		return listGetters(value.ImmutableList([]value.Value{value.True, v}), 1)
	case 1:
		return listGetters(value.MutableList([]value.Value{v, value.True}), 0)
	case 2:
		return listGetters(value.EmptySparseList().PutAt(2, value.True).PutAt(7, v), 7)
	case 3:
		return mapGetters(value.EmptyImmutableMap().Put("b", v).Put("a", value.True), "b")
	case 4:
		return mapGetters(value.EmptyMutableMap().Put("b", v).Put("c", value.True), "b")
	case 5:
		return mapGetters(value.ImmutableMapOf(map[string]value.Value{"x": v}), "x")
	case 6:
		return mapGetters(value.SortedMap([]value.MapEntry{value.MutableEntry("", v)}, true), "")
	case 7:
		return mapGetters(value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("x", v)}, true), "x")
	default:
		return listGetters(value.SparseList([]value.ListItem{value.ImmutableItem(-1, v)}, true), -1)
	}
}

func emptyOnes(g getters) {
	sym.Assert(!g.bool().Boolean(), "a boolean that is absent or null is not false")
	n := g.num()
	sym.Assert(n.Type() == value.LONG && n.Long() == 0, "a number that is absent or null is not zero")
	s := g.str()
	sym.Assert(s.Len() == 0 && s.Utf8() == "", "a string that is absent or null is not empty")
	l := g.list()
	sym.Assert(l.Kind() == value.LIST && l.Len() == 0 && len(l.Values()) == 0, "a list that is absent or null is not empty")
	m := g.mp()
	sym.Assert(m.Kind() == value.MAP && m.Len() == 0 && len(m.Keys()) == 0, "a map that is absent or null is not empty")
}

func sameNumber(a, b value.Number) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.IsNaN() || b.IsNaN() {
		return a.IsNaN() && b.IsNaN()
	}
	return value.Equal(a, b)
}

func sameString(a, b value.String) bool {
	return a.Type() == b.Type() && sym.BytesEq(a.Raw(), b.Raw())
}

// convert checks all the typed access to v.
func convert(g getters, v value.Value) {
	if isNull(v) {
		sym.Assert(isNull(g.get()), "another value is stored")
		emptyOnes(g)
		return
	}
	p := pack(v)
	sym.Assert(g.get().Kind() == v.Kind() && sym.BytesEq(pack(g.get()), p), "another value is stored")
	b := g.bool()
	if v.Kind() == value.BOOL {
		sym.Assert(b.Boolean() == v.(value.Bool).Boolean(), "another boolean than the stored one")
	} else {
		sym.Assert(b.Boolean() == value.ParseBoolean(v.String()).Boolean(), "a boolean is not parsed from the text form")
	}
	n := g.num()
	if v.Kind() == value.NUMBER {
		sym.Assert(n.Type() == v.(value.Number).Type() && sym.BytesEq(pack(n), p), "another number than the stored one")
	} else {
		sym.Assert(sameNumber(n, value.ParseNumber(v.String())), "a number is not parsed from the text form")
	}
	s := g.str()
	if v.Kind() == value.STRING {
		sym.Assert(s.Type() == v.(value.String).Type() && sym.BytesEq(pack(s), p), "another string than the stored one")
	} else {
		sym.Assert(sameString(s, value.ParseString(v.String())), "a string is not parsed from the text form")
	}
	l := g.list()
	sym.Assert(l.Kind() == value.LIST, "a list is no list")
	switch v.Kind() {
	case value.LIST:
		sym.Assert(sym.BytesEq(pack(l), p), "another list than the stored one")
	case value.MAP:
		vals := v.(value.Map).Values()
		sym.Assert(l.Len() == len(vals), "a map is not converted to the list of its values")
		for i, x := range vals {
			sym.Assert(value.Equal(l.GetAt(i), x), "a map is not converted to the list of its values")
		}
	default:
		sym.Assert(l.Len() == 0, "a scalar is converted to a list that is not empty")
	}
	m := g.mp()
	sym.Assert(m.Kind() == value.MAP, "a map is no map")
	switch v.Kind() {
	case value.MAP:
		sym.Assert(sym.BytesEq(pack(m), p), "another map than the stored one")
	case value.LIST:
		items := v.(value.List).Items()
		sym.Assert(m.Len() == len(items), "a list is not converted to the map of its items")
		for i, it := range items {
			if i == 0 || items[i-1].Key() != it.Key() {
				sym.Assert(value.Equal(m.Get(strconv.Itoa(it.Key())), it.Value()), "a list is not converted to a map by decimal index")
			}
		}
		ascending(m)
	default:
		sym.Assert(m.Len() == 0, "a scalar is converted to a map that is not empty")
	}
}

// scalars of every kind
func C18_Scalar() {
	var v value.Value
	switch sym.Choose("kind", 8) {
	case 0:
	case 1:
		v = value.Null
	case 2:
		v = value.Boolean(sym.Bool("v"))
	case 3:
		v = value.Long(int64(int8(sym.U8("v"))))
	case 4:
		v = value.Double([]float64{0, 1, -2.5, 1e300, math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choose("v", 7)])
	case 5:
		v = value.BigInt(bigOf(int64(int8(sym.U8("v")))))
	case 6:
		v = value.Decimal(decOf(int64(int8(sym.U8("v"))), int32(sym.Choose("exp", 3)-1)))
	default:
		v = value.Unknown([]byte{9, sym.U8("v")})
	}
	convert(holding(v), v)
}

func C18_Long() {
	v := value.Long(sym.I64("v"))
	convert(holding(v), v)
}

// strings with any content
func C18_String() {
	n := sym.Choose("len", 3)
	var v value.Value
	if sym.Choose("raw", 2) == 1 {
		v = value.Raw(sym.Bytes("v", n), false)
	} else {
		v = value.Utf8(sym.Str("v", n))
	}
	convert(holding(v), v)
}

// strings that mean something
func C18_Texts() {
	ts := []string{"", "true", "TRUE", "false", "t", "1", "0", "-7", "+7", "12.5", "1e3", "NaN", "Inf", "0x", "0x1", "-0xff", "0x1x2", "0x1x-2", "base64,", "base64,AQ", "base64,$", "null", " 1", "9223372036854775808", "-", "x", "0xg", "\xff"}
	v := value.Utf8(ts[sym.Choose("text", len(ts))])
	convert(holding(v), v)
}

func C18_Collection() {
	v := anyCollection("v", sym.Choose("kind", 6))
	convert(holding(v), v)
}

// more than ten elements: indexes are not in the order of their texts
func C18_LongList() {
	n := []int{10, 11, 12, 20, 101, 257, 300, 1001}[sym.Choose("n", 7+sym.Tier())]
	items := elems("v", n)
	var v value.Value
	switch sym.Choose("type", 3) {
	case 0:
		v = value.ImmutableList(items)
	case 1:
		v = value.MutableList(items)
	default:
		v = value.SparseListOf(items)
	}
	g := holding(v)
	m := g.mp()
	sym.Assert(m.Len() == n, "a list is not converted to the map of its items")
	for i := range items {
		sym.Assert(value.Equal(m.Get(strconv.Itoa(i)), items[i]), "a list is not converted to a map by decimal index")
	}
	ascending(m)
}

// absent ones
func C18_AbsentAt() {
	i := sym.Int("pos")
	n := sym.Choose("n", 4)
	a := elems("v", n)
	var l value.List
	switch sym.Choose("type", 4) {
	case 0:
		l = value.ImmutableList(a)
		sym.Assume(i < 0 || i >= n)
	case 1:
		l = value.MutableList(a)
		sym.Assume(i < 0 || i >= n)
	case 2:
		l = value.SparseListOf(a)
		sym.Assume(i < 0 || i >= n)
	default:
		k := int(int8(sym.U8("k")))
		sym.Assume(k != i)
		l = value.EmptySparseList().PutAt(k, elem("v"))
	}
	g := listGetters(l, i)
	sym.Assert(isNull(g.get()), "an absent element is found")
	emptyOnes(g)
}

func C18_AbsentKey() {
	k := sym.Str("key", sym.Choose("key.len", 3))
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1)
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		e := sym.Str("k", sym.Choose("k.len", 3))
		sym.Assume(e != k)
		m = m.Put(e, elem("v"))
	}
	g := mapGetters(m, k)
	sym.Assert(isNull(g.get()), "an absent key is found")
	emptyOnes(g)
}

// gaps are null
func C18_Gap() {
	l := value.EmptyList(sym.Choose("immutable", 2) == 1).PutAt(3, elem("v"))
	i := sym.Choose("i", 3)
	g := listGetters(l, i)
	sym.Assert(isNull(g.get()), "a gap is not null")
	emptyOnes(g)
	m := value.SortedMap([]value.MapEntry{value.MutableEntry("a", nil)}, true)
	if sym.Choose("immutable map", 2) == 1 {
		m = value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("a", nil)}, true)
	}
	emptyOnes(mapGetters(m, "a"))
	s := value.SparseList([]value.ListItem{value.ImmutableItem(1, nil), value.MutableItem(2, nil)}, true)
	emptyOnes(listGetters(s, 1+sym.Choose("j", 2)))
}

// duplicates: the first one counts
func C18_Duplicates() {
	a, b := elem("a"), elem("b")
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1).Insert("k", b).Insert("k", a)
	convert(mapGetters(m, "k"), a)
	l := value.EmptySparseList().InsertAt(4, b).InsertAt(4, a)
	convert(listGetters(l, 4), a)
}

// a map with equal keys is the list of all its values
func C18_EqualKeys() {
	n := 3 + sym.Choose("n", 1+sym.Tier())
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1)
	for i := 0; i < n; i++ {
		m = m.Insert([]string{"a", "b"}[sym.Choose("key", 2)], value.Boolean(sym.Bool("v")))
	}
	convert(holding(m), m)
}

// items of equal indexes
func C18_EqualIndexes() {
	l := value.EmptySparseList()
	for i, n := 0, 3+sym.Choose("n", 1+sym.Tier()); i < n; i++ {
		l = l.InsertAt([]int{-1, 5}[sym.Choose("key", 2)], value.Boolean(sym.Bool("v")))
	}
	convert(holding(l), l)
}
