package props

import (
	"math"
	"math/big"
	"reflect"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"verif/harness/sym"
)

func sameView(a, b value.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Kind() == b.Kind() && sym.BytesEq(pack(a), pack(b))
}

// goView: kind, class, interfaces and object of a value agree with its content.
func goView(v value.Value) {
	sym.Assert(v.Class() == reflect.TypeOf(v), "the class of a value is not its type")
	_, isBool := v.(value.Bool)
	_, isNumber := v.(value.Number)
	_, isString := v.(value.String)
	_, isList := v.(value.List)
	_, isMap := v.(value.Map)
	_, isExt := v.(value.Extension)
	k := v.Kind()
	sym.Assert(isBool == (k == value.BOOL) && isNumber == (k == value.NUMBER) && isString == (k == value.STRING) && isList == (k == value.LIST) && isMap == (k == value.MAP) && isExt == (k == value.UNKNOWN), "a value implements the interface of another kind")
	o := v.Object()
	switch k {
	case value.NULL:
		sym.Assert(o == nil, "null has an object")
	case value.BOOL:
		b, ok := o.(bool)
		sym.Assert(ok && b == v.(value.Bool).Boolean(), "a boolean has another object")
	case value.NUMBER:
		n := v.(value.Number)
		switch n.Type() {
		case value.LONG:
			x, ok := o.(int64)
			sym.Assert(ok && x == n.Long(), "a long has another object")
		case value.DOUBLE:
			x, ok := o.(float64)
			sym.Assert(ok && math.Float64bits(x) == math.Float64bits(n.Double()), "a double has another object")
		case value.BIGINT:
			x, ok := o.(*big.Int)
			sym.Assert(ok && x.Cmp(n.BigInt()) == 0, "a big integer has another object")
		case value.DECIMAL:
			x, ok := o.(decimal.Decimal)
			d := n.Decimal()
			sym.Assert(ok && x.Exponent() == d.Exponent() && x.Coefficient().Cmp(d.Coefficient()) == 0, "a decimal has another object")
		default:
			sym.Fail("a number of no type")
		}
	case value.STRING:
		s := v.(value.String)
		sym.Assert(s.Len() == len(s.Raw()) && sym.StrEq(s.Utf8(), string(s.Raw())), "the text and the bytes of a string disagree")
		switch s.Type() {
		case value.UTF8:
			x, ok := o.(string)
			sym.Assert(ok && sym.StrEq(x, s.Utf8()), "a text has another object")
		case value.RAW:
			x, ok := o.([]byte)
			sym.Assert(ok && sym.BytesEq(x, s.Raw()), "bytes have another object")
		default:
			sym.Fail("a string of no type")
		}
	case value.UNKNOWN:
		e := v.(value.Extension)
		x, ok := o.([]byte)
		sym.Assert(ok && sym.BytesEq(x, e.Native()), "an extension has another object")
	case value.LIST:
		l := v.(value.List)
		switch x := o.(type) {
		case []value.Value:
			values := l.Values()
			sym.Assert(len(x) == len(values), "a list has another object")
			for i, e := range values {
				sym.Assert(sameView(x[i], e), "a list has another object")
			}
		case []value.ListItem:
			items := l.Items()
			sym.Assert(len(x) == len(items), "a sparse list has another object")
			for i, it := range items {
				sym.Assert(x[i].Key() == it.Key() && sameView(x[i].Value(), it.Value()), "a sparse list has another object")
			}
		default:
			sym.Fail("a list has the object of something else")
		}
	case value.MAP:
		x, ok := o.([]value.MapEntry)
		entries := v.(value.Map).Entries()
		sym.Assert(ok && len(x) == len(entries), "a map has another object")
		for i, e := range entries {
			sym.Assert(sym.StrEq(x[i].Key(), e.Key()) && sameView(x[i].Value(), e.Value()), "a map has another object")
		}
	default:
		sym.Fail("a value of no kind")
	}
}

// the constructors give what they are given
func C29_Scalars() {
	k := sym.Choose("kind", 10)
	var v value.Value
	kind := value.NUMBER
	switch k {
	case 0:
		v, kind = value.Nil(), value.NULL
		sym.Assert(v == value.Value(value.Null) && v.String() == "null", "nil is not null")
	case 1:
		b := sym.Bool("b")
		x := value.Boolean(b)
		v, kind = x, value.BOOL
		sym.Assert(x.Boolean() == b, "a boolean is another one")
	case 2:
		n := sym.I64("n")
		x := value.Long(n)
		v = x
		sym.Assert(x.Type() == value.LONG && x.Long() == n, "a long is another one")
	case 3:
		d := sym.F64("d")
		x := value.Double(d)
		v = x
		sym.Assume(!math.IsNaN(d))
		sym.Assert(x.Type() == value.DOUBLE && math.Float64bits(x.Double()) == math.Float64bits(d), "a double is another one")
	case 4:
		z := anyBig("z")
		x := value.BigInt(z)
		v = x
		sym.Assert(x.Type() == value.BIGINT && x.BigInt().Cmp(z) == 0, "a big integer is another one")
	case 5:
		d := anyDecimal("d")
		x := value.Decimal(d)
		v = x
		y := x.Decimal()
		sym.Assert(x.Type() == value.DECIMAL && y.Exponent() == d.Exponent() && y.Coefficient().Cmp(d.Coefficient()) == 0, "a decimal is another one")
	case 6:
		s := sym.Str("s", sym.Choose("len", 3))
		x := value.Utf8(s)
		v, kind = x, value.STRING
		sym.Assert(x.Type() == value.UTF8 && sym.StrEq(x.Utf8(), s) && sym.StrEq(x.String(), s), "a text is another one")
		y := value.Str(s)
		sym.Assert(y.Type() == value.UTF8 && sym.StrEq(y.Utf8(), s), "a text by its other constructor is another one")
	case 7:
		b := sym.Bytes("r", sym.Choose("len", 3))
		x := value.Raw(b, sym.Choose("copy", 2) == 1)
		v, kind = x, value.STRING
		sym.Assert(x.Type() == value.RAW && sym.BytesEq(x.Raw(), b), "bytes are others")
	case 8:
		b := sym.Bytes("x", 1+sym.Choose("len", 3))
		x := value.Unknown(b)
		v, kind = x, value.UNKNOWN
		sym.Assert(byte(x.Tag()) == b[0] && sym.BytesEq(x.Data(), b[1:]) && sym.BytesEq(x.Native(), b), "an extension is another one")
	default:
		v = value.Double(math.NaN())
		sym.Assert(v.(value.Number).IsNaN(), "NaN is a number")
	}
	sym.Assert(v.Kind() == kind, "a value has another kind")
	goView(v)
}

// collections of every origin
func C29_Collections() {
	a, b := elem("a"), value.Utf8(sym.Str("b", 1))
	var v value.Value
	kind := value.LIST
	switch sym.Choose("what", 16) {
	case 0:
		v = value.EmptyImmutableList()
	case 1:
		v = value.EmptyMutableList()
	case 2:
		v = value.EmptySparseList()
	case 3:
		v = value.ImmutableList([]value.Value{a, b})
	case 4:
		v = value.MutableList([]value.Value{a, b})
	case 5:
		v = value.EmptySparseList().PutAt(int(sym.U8("i")), a).PutAt(300, b)
	case 6:
		v = value.Tuple(a, b)
	case 7:
		v = value.Single(b)
	case 8:
		v = value.SparseListOf([]value.Value{a, b})
	case 9:
		v = value.SparseList([]value.ListItem{value.ImmutableItem(7, a), value.MutableItem(3, b)}, false)
	case 10:
		v, kind = value.EmptyImmutableMap(), value.MAP
	case 11:
		v, kind = value.EmptyMutableMap().Put(sym.Str("k", 1), a), value.MAP
	case 12:
		v, kind = value.ImmutableMapOf(map[string]value.Value{"x": a, "y": b}), value.MAP
	case 13:
		v, kind = value.SortedMapOf(map[string]value.Value{"x": a, "y": b}), value.MAP
	case 14:
		v, kind = value.ImmutableMap([]value.MapEntry{value.MutableEntry("q", a), value.ImmutableEntry("p", b)}, false), value.MAP
	default:
		v, kind = value.SortedMapCopyOf(value.EmptyImmutableMap().Put("k", a).Insert("k", b)), value.MAP
	}
	sym.Assert(v.Kind() == kind, "a collection has another kind")
	goView(v)
}

// what comes out of collections and of decoding has the same views
func C29_Decoded() {
	v := anyValue("v")
	goView(v)
	r := unpack(pack(v))
	goView(r)
	if v.Kind() == value.LIST {
		for _, x := range r.(interface{ Entries() []value.MapEntry }).Entries() {
			if x.Value() != nil {
				goView(x.Value())
			}
		}
	}
	if v.Kind() == value.NUMBER {
		sym.Assert(r.(value.Number).Type() == v.(value.Number).Type() && r.Class() == v.Class(), "decoding gives a number of another type")
	}
	if v.Kind() == value.STRING {
		sym.Assert(r.(value.String).Type() == v.(value.String).Type() && r.Class() == v.Class(), "decoding gives a string of another type")
	}
}

func C29_AnyBytes() {
	b := sym.Bytes("b", 1+sym.Choose("n", 3))
	v, err := value.Unpack(b, false)
	if err != nil {
		sym.Assert(v == nil || isNull(v) || v.Kind() != value.INVALID, "an error with a value of no kind")
		return
	}
	goView(v)
}

// the names of kinds and types differ
func C29_Names() {
	kinds := []value.Kind{value.INVALID, value.NULL, value.BOOL, value.NUMBER, value.STRING, value.LIST, value.MAP, value.UNKNOWN}
	i, j := sym.Choose("i", len(kinds)), sym.Choose("j", len(kinds))
	sym.Assert((kinds[i] == kinds[j]) == (i == j) && (kinds[i].String() == kinds[j].String()) == (i == j), "two kinds have one name")
	types := []value.NumberType{value.LONG, value.DOUBLE, value.BIGINT, value.DECIMAL}
	i, j = i%4, j%4
	sym.Assert((types[i] == types[j]) == (i == j) && (types[i].String() == types[j].String()) == (i == j), "two number types have one name")
	strs := []value.StringType{value.UTF8, value.RAW}
	i, j = i%2, j%2
	sym.Assert((strs[i] == strs[j]) == (i == j) && (strs[i].String() == strs[j].String()) == (i == j), "two string types have one name")
}

type constUpdater struct{ to value.Value }

func (u constUpdater) Update(value.Value) value.Value { return u.to }

// collections after operations, and what is taken out of them
func C29_Derived() {
	a, b, c := elem("a"), value.Utf8(sym.Str("b", 1)), value.Raw(sym.Bytes("c", 1), false)
	all := func(vs ...value.Value) {
		for _, v := range vs {
			if v != nil {
				goView(v)
			}
		}
	}
	if k := sym.Choose("kind", 5); k < 3 {
		l := []value.List{value.ImmutableList([]value.Value{a, b}), value.MutableList([]value.Value{a, b}), value.EmptySparseList().PutAt(2, a).PutAt(5, b)}[k]
		for n := 0; n < 2; n++ {
			i := sym.Choose("at", 7)
			switch sym.Choose("op", 5) {
			case 0:
				l = l.PutAt(i, c)
			case 1:
				l = l.InsertAt(i, c)
			case 2:
				l = l.RemoveAt(i)
			case 3:
				l = l.Append(c)
			default:
				l.UpdateAt(i, constUpdater{c})
			}
			goView(l)
		}
		for i := 0; i < 9; i++ {
			all(l.GetAt(i))
		}
		all(l.GetListAt(0), l.GetMapAt(1), l.GetNumberAt(2), l.GetStringAt(3), l.GetBoolAt(4))
		all(l.Values()...)
		return
	} else {
		m := value.EmptyImmutableMap().Put("b", a).Put("d", b)
		if k == 4 {
			m = value.EmptyMutableMap().Put("b", a).Put("d", b)
		}
		for n := 0; n < 2; n++ {
			key := []string{"a", "b", "c", "d"}[sym.Choose("at", 4)]
			switch sym.Choose("op", 4) {
			case 0:
				m = m.Put(key, c)
			case 1:
				m = m.Insert(key, c)
			case 2:
				m = m.Remove(key)
			default:
				m.Update(key, constUpdater{c})
			}
			goView(m)
		}
		for _, key := range []string{"a", "b", "c", "d"} {
			all(m.Get(key), m.GetNumber(key), m.GetString(key), m.GetList(key), m.GetMap(key), m.GetBool(key))
		}
		all(m.Values()...)
	}
}

// the empty collections by flag are those by name
func C29_Empty() {
	type pair struct{ a, b value.Value }
	p := []pair{
		{value.EmptyList(true), value.EmptyImmutableList()},
		{value.EmptyList(false), value.EmptyMutableList()},
		{value.EmptyMap(true), value.EmptyImmutableMap()},
		{value.EmptyMap(false), value.EmptyMutableMap()},
	}[sym.Choose("which", 4)]
	sym.Assert(p.a.Class() == p.b.Class() && p.a.Kind() == p.b.Kind(), "an empty collection by flag is another than by name")
	sym.Assert(value.EmptyList(true).Class() != value.EmptyList(false).Class(), "the mutable empty list is the immutable one")
	sym.Assert(value.EmptyMap(true).Class() != value.EmptyMap(false).Class(), "the mutable empty map is the immutable one")
	goView(p.a)
}

// texts made by a format
func C29_Format() {
	for _, c := range []struct {
		got  value.String
		want string
	}{{value.Stringf("plain"), "plain"}, {value.Stringf(""), ""}, {value.Stringf("100%%"), "100%"}, {value.Stringf("%s-%d", "a", 5), "a-5"}, {value.Stringf("%v %v", true, "x%d"), "true x%d"}} {
		sym.Assert(c.got.Type() == value.UTF8 && c.got.Utf8() == c.want, "a formatted text is another one")
	}
	sym.Assert(value.ParseNull(value.Null.String()) == value.Null, "null does not parse back")
}

// empty collections of every origin
func C29_Empties() {
	l := []value.List{
		value.ImmutableList(nil), value.ImmutableList([]value.Value{}), value.MutableList(nil), value.MutableList([]value.Value{}),
		value.Tuple(), value.SparseListOf(nil), value.SparseList(nil, true), value.SparseList(nil, false), value.SparseList([]value.ListItem{}, true),
		value.EmptyList(true), value.EmptyList(false), value.EmptySparseList(),
		value.ImmutableList([]value.Value{value.True}).RemoveAt(0), value.MutableList([]value.Value{value.True}).RemoveAt(0), value.EmptySparseList().Append(value.True).RemoveAt(0),
		unpack([]byte{0x90}).(value.List), value.EmptyImmutableMap().GetList("x"), value.EmptyImmutableList().GetListAt(3),
	}
	m := []value.Map{
		value.ImmutableMap(nil, true), value.ImmutableMap(nil, false), value.ImmutableMap([]value.MapEntry{}, true), value.ImmutableMapOf(nil), value.ImmutableMapOf(map[string]value.Value{}),
		value.SortedMap(nil, true), value.SortedMap(nil, false), value.SortedMapOf(nil), value.ImmutableMapCopyOf(value.EmptyMutableMap()), value.SortedMapCopyOf(value.EmptyImmutableMap()),
		value.EmptyMap(true), value.EmptyMap(false),
		value.EmptyImmutableMap().Put("k", value.True).Remove("k"), value.EmptyMutableMap().Put("k", value.True).Remove("k"), value.EmptyImmutableMap().Put("k", value.True).DeleteAll("k"),
		unpack([]byte{0x80}).(value.Map), value.EmptyImmutableMap().GetMap("x"), value.EmptyImmutableList().GetMapAt(3),
	}
	i := sym.Choose("what", len(l)+len(m))
	if i < len(l) {
		v := l[i]
		sym.Assert(v.Kind() == value.LIST && v.Len() == 0 && len(v.Values()) == 0 && len(v.Items()) == 0 && len(v.Entries()) == 0, "an empty list is no list or not empty")
		goView(v)
		goView(v.Append(value.True))
		return
	}
	v := m[i-len(l)]
	sym.Assert(v.Kind() == value.MAP && v.Len() == 0 && len(v.Keys()) == 0 && len(v.Values()) == 0 && len(v.Entries()) == 0 && len(v.HashMap()) == 0, "an empty map is no map or not empty")
	goView(v)
	goView(v.Put("k", value.True))
}
