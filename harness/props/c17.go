package props

import (
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// eq is Equal with both sides checked.
func eq(a, b value.Value) bool {
	x, y := value.Equal(a, b), value.Equal(b, a)
	sym.Assert(x == y, "equality is not symmetric")
	if a != nil {
		sym.Assert(a.Equal(b) == x, "the method and the function disagree")
	}
	return x
}

func kindOf(v value.Value) value.Kind {
	if v == nil {
		return value.NULL
	}
	return v.Kind()
}

// tiny values: many kinds, few bits.
const tinyKinds = 14

func tiny(name string) value.Value { return tinyOf(name, sym.Choose(name+".kind", tinyKinds)) }

func tinyOf(name string, kind int) value.Value {
	n := int64(int8(sym.U8(name)))
	switch kind {
	case 0:
		return nil
	case 1:
		return value.Null
	case 2:
		return value.Boolean(n > 0)
	case 3:
		return value.Long(n)
	case 4:
		return value.Double(float64(n))
	case 5:
		return value.BigInt(bigOf(n))
	case 6:
		return value.Decimal(decOf(n, 1))
	case 7:
		return value.Utf8(string([]byte{byte(n)}))
	case 8:
		return value.Raw([]byte{byte(n)}, false)
	case 9:
		return value.Unknown([]byte{7, byte(n)})
	case 10:
		return value.ImmutableList([]value.Value{value.Long(n)})
	case 11:
		return value.MutableList([]value.Value{value.BigInt(bigOf(n))})
	case 12:
		return value.EmptySparseList().PutAt(int(n), value.Null)
	default:
		return value.EmptyMutableMap().Put(string([]byte{byte(n)}), nil)
	}
}

func C17_Reflexive() {
	var v value.Value
	switch sym.Choose("what", 2) {
	case 0:
		v = anyValue("v")
	default:
		v = anyScalar("v", sym.Choose("v.kind", gDecimal), 3)
	}
	if !hasNaN(v) {
		sym.Assert(eq(v, v), "a value is not equal to itself")
		c := unpack(pack(v))
		sym.Assert(eq(v, c), "a value is not equal to its copy")
	} else {
		sym.Assert(!eq(v, v), "a value with NaN is equal to itself")
	}
}

// NaN is equal to nothing
func C17_NaN() {
	nan := value.Double(math.Float64frombits(sym.U64("nan")))
	sym.Assume(nan.IsNaN())
	v := tiny("v")
	sym.Assert(!eq(nan, v), "NaN is equal to something")
	sym.Assert(!eq(nan, nan), "NaN is equal to itself")
	sym.Assert(!eq(value.Tuple(nan), value.ImmutableList([]value.Value{nan})), "a list with NaN is equal to another")
	m := value.EmptyImmutableMap().Put("a", nan)
	sym.Assert(!eq(m, m), "a map with NaN is equal to itself")
	s := value.EmptySparseList().PutAt(1, nan)
	sym.Assert(!eq(s, s), "a sparse list with NaN is equal to itself")
}

// any two values of different kinds
func C17_Kinds() {
	a := anyOrNil("a")
	b := tiny("b")
	// numbers have their own
	sym.Assume(kindOf(a) != value.NUMBER || kindOf(b) != value.NUMBER)
	e := eq(a, b)
	if kindOf(a) != kindOf(b) {
		sym.Assert(!e, "values of different kinds are equal")
	}
	if kindOf(a) == value.NULL && kindOf(b) == value.NULL {
		sym.Assert(e, "nil and null are not equal")
	}
}

func anyOrNil(name string) value.Value {
	if sym.Choose(name+".nil", 2) == 1 {
		return nil
	}
	return anyValue(name)
}

// symmetry between any two values, collections included
func C17_Symmetric() {
	eq(anyOrNil("a"), anyCollection("b", sym.Choose("b.kind", 6)))
}

func C17_Transitive() {
	ka, kb, kc := sym.Choose("a.kind", tinyKinds), sym.Choose("b.kind", tinyKinds), sym.Choose("c.kind", tinyKinds)
	sym.Assume(ka != 4 && kb != 4 && kc != 4)
	a, b, c := tinyOf("a", ka), tinyOf("b", kb), tinyOf("c", kc)
	transitive(a, b, c)
}

// doubles against the other numbers, where the tolerance does not matter
func C17_TransitiveDoubles() {
	var v [3]value.Value
	for i := range v {
		n := int64(sym.Choose("n", 3)) - 1
		switch sym.Choose("kind", 4) {
		case 0:
			v[i] = value.Long(n)
		case 1:
			v[i] = value.BigInt(bigOf(n))
		case 2:
			v[i] = value.Decimal(decOf(n*5, -1))
		default:
			v[i] = value.Double(float64(n) / 2)
		}
	}
	transitive(v[0], v[1], v[2])
}

func transitive(a, b, c value.Value) {
	ab, bc := eq(a, b), eq(b, c)
	if ab && bc {
		sym.Assert(eq(a, c), "equality is not transitive")
	}
}

// scalars by content
func C17_Bool() {
	x, y := sym.Bool("x"), sym.Bool("y")
	sym.Assert(eq(value.Boolean(x), value.Boolean(y)) == (x == y), "booleans are compared wrongly")
}

func C17_String() {
	x, y := sym.Str("x", sym.Choose("x.len", 4)), sym.Str("y", sym.Choose("y.len", 4))
	mk := func(name, s string) value.Value {
		if sym.Choose(name, 2) == 1 {
			return value.Raw([]byte(s), false)
		}
		return value.Utf8(s)
	}
	a, b := mk("x.raw", x), mk("y.raw", y)
	sym.Assert(eq(a, b) == (x == y), "strings are compared wrongly")
}

func C17_Unknown() {
	x, y := sym.Bytes("x", 1+sym.Choose("x.len", 3)), sym.Bytes("y", 1+sym.Choose("y.len", 3))
	sym.Assert(eq(value.Unknown(x), value.Unknown(y)) == sym.BytesEq(x, y), "extensions are compared wrongly")
}

// numbers by value
func C17_Long() {
	x, y := sym.I64("x"), sym.I64("y")
	a := value.Long(x)
	sym.Assert(eq(a, value.Long(y)) == (x == y), "longs are compared wrongly")
	sym.Assert(eq(a, value.BigInt(bigOf(y))) == (x == y), "a long and a big integer are compared wrongly")
	sym.Assert(eq(value.BigInt(bigOf(x)), value.BigInt(bigOf(y))) == (x == y), "big integers are compared wrongly")
}

func C17_LongBig() {
	x := sym.I64("x")
	z := big128(sym.U64("hi"), sym.U64("lo"), sym.Choose("neg", 2) == 1)
	sym.Assert(eq(value.Long(x), value.BigInt(z)) == (bigOf(x).Cmp(z) == 0), "a long and a big integer are compared wrongly")
}

func C17_LongDecimal() {
	x, y := sym.I64("x"), sym.I64("y")
	a := value.Long(x)
	sym.Assert(eq(a, value.Decimal(decOf(y, 0))) == (x == y), "a long and a decimal are compared wrongly")
	sym.Assert(eq(value.BigInt(bigOf(x)), value.Decimal(decOf(y, 0))) == (x == y), "a big integer and a decimal are compared wrongly")
}

func C17_Decimal() {
	x, y := int64(int16(sym.U16("x"))), int64(int16(sym.U16("y")))
	e := int32(sym.Choose("exp", 4)) - 1
	var p int64 = 1
	for i := int32(0); i < e; i++ {
		p *= 10
	}
	if e < 0 {
		// x/10 against y
		a := value.Decimal(decOf(x, e))
		sym.Assert(eq(a, value.Long(y)) == (x == 10*y), "a long and a decimal are compared wrongly")
		sym.Assert(eq(a, value.BigInt(bigOf(y))) == (x == 10*y), "a big integer and a decimal are compared wrongly")
		sym.Assert(eq(a, value.Decimal(decOf(y, 0))) == (x == 10*y), "decimals are compared wrongly")
		return
	}
	a := value.Decimal(decOf(x, e))
	sym.Assert(eq(a, value.Long(y)) == (x*p == y), "a long and a decimal are compared wrongly")
	sym.Assert(eq(a, value.BigInt(bigOf(y))) == (x*p == y), "a big integer and a decimal are compared wrongly")
	sym.Assert(eq(a, value.Decimal(decOf(y, 0))) == (x*p == y), "decimals are compared wrongly")
}

func near(x, y float64) bool { return sym.Or(x == y, math.Abs(x-y) < value.PrecisionLevel) }

func C17_Double() {
	x, y := sym.F64("x"), sym.F64("y")
	sym.Assert(eq(value.Double(x), value.Double(y)) == near(x, y), "doubles are compared wrongly")
}

func C17_DoubleInf() {
	x := sym.F64("x")
	inf := math.Inf(1 - 2*sym.Choose("sign", 2))
	sym.Assert(eq(value.Double(inf), value.Double(x)) == (x == inf), "infinities are compared wrongly")
	sym.Assert(!eq(value.Double(inf), value.Long(sym.I64("n"))), "infinities are compared wrongly")
}

func C17_DoubleLong() {
	x, n := sym.F64("x"), sym.I64("n")
	sym.Assert(eq(value.Double(x), value.Long(n)) == near(x, float64(n)), "a double and a long are compared wrongly")
}

func C17_DoubleOther() {
	// halves
	x := float64(int8(sym.U8("x"))) / 2
	n := int64(int8(sym.U8("n")))
	var b value.Value
	if sym.Choose("type", 2) == 0 {
		b = value.BigInt(bigOf(n))
	} else {
		b = value.Decimal(decOf(n, 0))
	}
	sym.Assert(eq(value.Double(x), b) == (x == float64(n)), "a double and another number are compared wrongly")
}

// lists by content
func C17_List() {
	n, k := sym.Choose("n", 4), sym.Choose("k", 4)
	a, b := elemsOrNil("a", n), elemsOrNil("b", k)
	want := n == k
	for i := 0; i < n && i < k; i++ {
		want = sym.And(want, sameElem(a[i], b[i]))
	}
	mk := func(name string, l []value.Value) value.Value {
		if sym.Choose(name, 2) == 1 {
			return value.ImmutableList(l)
		}
		return value.MutableList(l)
	}
	sym.Assert(eq(mk("a.immutable", a), mk("b.immutable", b)) == want, "lists are compared wrongly")
}

// a sparse list and any other list
func C17_Sparse() {
	n, k := sym.Choose("n", 4), sym.Choose("k", 3)
	a := make([]value.Value, n)
	b := value.EmptySparseList()
	var bk [4]int
	var bv [4]value.Value
	for i := range a {
		a[i] = elem("a")
	}
	for i := 0; i < k; i++ {
		bk[i], bv[i] = int(int8(sym.U8("k"))), elem("b")
		if i > 0 {
			sym.Assume(bk[i-1] <= bk[i])
		}
	}
	var items []value.ListItem
	for i := 0; i < k; i++ {
		if sym.Choose("mutable", 2) == 1 {
			items = append(items, value.MutableItem(bk[i], bv[i]))
		} else {
			items = append(items, value.ImmutableItem(bk[i], bv[i]))
		}
	}
	b = value.SparseList(items, true)
	want := n == k
	for i := 0; i < n && i < k; i++ {
		want = sym.And(want, bk[i] == i, sameElem(a[i], bv[i]))
	}
	var l value.Value
	switch sym.Choose("a.type", 3) {
	case 0:
		l = value.ImmutableList(a)
	case 1:
		l = value.MutableList(a)
	default:
		l = value.SparseListOf(a)
	}
	sym.Assert(eq(l, b) == want, "a sparse list is compared wrongly")
}

func C17_TwoSparse() {
	mk := func(name string) (value.List, multimap[int]) {
		n := sym.Choose(name+".n", 3)
		l, w := value.EmptySparseList(), multimap[int]{}
		for i := 0; i < n; i++ {
			k, v := sym.Int(name+".k"), elem(name)
			l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
		}
		return l, w
	}
	a, x := mk("a")
	b, y := mk("b")
	want := len(x) == len(y)
	for i := 0; i < len(x) && i < len(y); i++ {
		want = sym.And(want, x[i].key == y[i].key, sameElem(x[i].val, y[i].val))
	}
	sym.Assert(eq(a, b) == want, "sparse lists are compared wrongly")
}

func C17_Map() {
	mk := func(name string) (value.Map, multimap[string]) {
		n := sym.Choose(name+".n", 3)
		m, w := value.EmptyMap(sym.Choose(name+".immutable", 2) == 1), multimap[string]{}
		for i := 0; i < n; i++ {
			k, v := sym.Str(name+".k", sym.Choose(name+".len", 2)), elemOrNil(name)
			m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
		}
		return m, w
	}
	a, x := mk("a")
	b, y := mk("b")
	want := len(x) == len(y)
	for i := 0; i < len(x) && i < len(y); i++ {
		want = sym.And(want, x[i].key == y[i].key, sameElem(x[i].val, y[i].val))
	}
	sym.Assert(eq(a, b) == want, "maps are compared wrongly")
}

// nested
func C17_Nested() {
	x, y := elem("x"), elem("y")
	mk := func(name string, v value.Value) value.Value {
		switch sym.Choose(name, 6) {
		case 0:
			return value.ImmutableList([]value.Value{value.Zero, value.Tuple(v)})
		case 1:
			return value.Tuple(value.Zero, value.Single(v))
		case 2:
			return value.SparseListOf([]value.Value{value.Zero, value.SparseListOf([]value.Value{v})})
		case 3:
			return value.EmptyImmutableMap().Put("a", value.EmptyMutableMap().Put("b", v))
		case 4:
			return value.EmptyMutableMap().Put("a", value.EmptyImmutableMap().Put("b", v))
		default:
			return value.Tuple(value.Zero, value.EmptyMutableMap().Put("0", v))
		}
	}
	a, b := mk("a", x), mk("b", y)
	ka, kb := a.Kind(), b.Kind()
	e := eq(a, b)
	if e {
		sym.Assert(ka == kb && sameElem(x, y), "different nested values are equal")
	}
	if sameElem(x, y) && pack(a)[0]&0xf0 == pack(b)[0]&0xf0 && sym.BytesEq(pack(a), pack(b)) {
		sym.Assert(e, "equal nested values are not equal")
	}
}

func C17_Item() {
	k, l := sym.Int("k"), sym.Int("l")
	x, y := elemOrNil("x"), elemOrNil("y")
	mk := func(name string, k int, v value.Value) value.ListItem {
		if sym.Choose(name, 2) == 1 {
			return value.ImmutableItem(k, v)
		}
		return value.MutableItem(k, v)
	}
	a, b := mk("a", k, x), mk("b", l, y)
	want := sym.And(k == l, sameElem(x, y))
	sym.Assert(a.Equal(b) == want && b.Equal(a) == want, "items are compared wrongly")
}

func C17_Entry() {
	k, l := sym.Str("k", sym.Choose("k.len", 3)), sym.Str("l", sym.Choose("l.len", 3))
	x, y := elemOrNil("x"), elemOrNil("y")
	mk := func(name string, k string, v value.Value) value.MapEntry {
		if sym.Choose(name, 2) == 1 {
			return value.ImmutableEntry(k, v)
		}
		return value.MutableEntry(k, v)
	}
	a, b := mk("a", k, x), mk("b", l, y)
	want := sym.And(k == l, sameElem(x, y))
	sym.Assert(a.Equal(b) == want && b.Equal(a) == want, "entries are compared wrongly")
}

// decimals of large exponents
func C17_Exponents() {
	exps := []int{1, 2, 9, 15, 17, 18, 19, 20, 22, 27, 30, 38, 39, 50, 100, 308, 309, 400}
	e := exps[sym.Choose("exp", len(exps))]
	n := bigOf([]int64{1, -1, 7, -250, 1<<62 + 3}[sym.Choose("n", 5)])
	k := sym.U8("k")
	z := new(big.Int).Mul(n, pow10(e))
	z.Add(z, bigOf(int64(k)))
	same := k == 0
	d := value.Decimal(decBig(n, int32(e)))
	sym.Assert(eq(d, value.BigInt(z)) == same, "a big integer and a decimal are compared wrongly")
	sym.Assert(eq(d, value.Decimal(decBig(z, 0))) == same, "decimals are compared wrongly")
	// the other way around
	f := value.Decimal(decBig(z, int32(-e)))
	sym.Assert(eq(f, value.BigInt(n)) == same, "a big integer and a decimal are compared wrongly")
	if n.IsInt64() {
		sym.Assert(eq(f, value.Long(n.Int64())) == same, "a long and a decimal are compared wrongly")
	}
	g := value.Decimal(decBig(new(big.Int).Mul(n, bigOf(10)), -1))
	sym.Assert(eq(f, g) == same, "decimals are compared wrongly")
}

// numbers of many bytes, and strings of many bytes
func C17_Wide() {
	n := wideSizes[sym.Choose("size", len(wideSizes))]
	x, y := wideBig("x", n), wideBig("y", n)
	same := x.Cmp(y) == 0
	a, b := value.BigInt(x), value.BigInt(y)
	sym.Assert(eq(a, b) == same, "big integers are compared wrongly")
	sym.Assert(eq(a, value.Decimal(decBig(y, 0))) == same, "a big integer and a decimal are compared wrongly")
	sym.Assert(!eq(a, value.Long(int64(sym.U8("l")))), "a long and a big integer are compared wrongly")
}

func C17_LongStrings() {
	n := []int{16, 64, 100, 256, 1000, 4097}[sym.Choose("len", 6)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	mk := func(name string, c byte, n int) value.Value {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		b[at] = c
		if sym.Choose(name, 2) == 1 {
			return value.Raw(b, false)
		}
		return value.Utf8(string(b))
	}
	x, y := sym.U8("x"), sym.U8("y")
	sym.Assert(eq(mk("a", x, n), mk("b", y, n)) == (x == y), "long strings are compared wrongly")
	sym.Assert(!eq(mk("a", x, n), mk("b", y, n+1)), "long strings are compared wrongly")
}
