package props

import (
	"bytes"
	"math"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// readOps are all operations that only read. Nothing in here may use sym: it
// runs in several goroutines at once when a finding is replayed.
func readOps(v value.Value) {
	v.String()
	v.Kind()
	v.Class()
	v.Object()
	v.Equal(v)
	v.Equal(nil)
	v.Equal(value.Null)
	value.Equal(v, value.True)
	value.Jsonify(v)
	value.Pack(v)
	value.Hex(v)
	v.MarshalJSON()
	v.MarshalBinary()
	var buf bytes.Buffer
	value.Write(&buf, v)
	switch x := v.(type) {
	case value.Bool:
		x.Boolean()
	case value.Number:
		readNumber(x)
	case value.String:
		x.Type()
		x.Len()
		x.Raw()
		x.Utf8()
	case value.Extension:
		x.Native()
	case value.List:
		readList(x)
	case value.Map:
		readMap(x)
	}
}

func readNumber(n value.Number) {
	n.Type()
	n.IsNaN()
	n.Long()
	if n.Type() == value.DECIMAL && n.Decimal().Exponent() > 100 {
		return
	}
	if n.Type() != value.DOUBLE {
		n.BigInt()
		n.Decimal()
	}
	n.Add(value.One)
	n.Subtract(value.One)
	value.One.Add(n)
}

func readList(l value.List) {
	n := l.Len()
	if n <= denseMax {
		l.Values()
	}
	for _, it := range l.Items() {
		it.Key()
		it.Value()
		it.Equal(it)
	}
	for _, e := range l.Entries() {
		e.Key()
		e.Value()
		e.Equal(e)
	}
	for i := -1; i < 3; i++ {
		touchAt(l, i)
	}
}

func readMap(m value.Map) {
	m.Len()
	m.HashMap()
	m.Values()
	for _, e := range m.Entries() {
		e.Key()
		e.Value()
		e.Equal(e)
	}
	for _, k := range append(m.Keys(), "none") {
		m.Get(k)
		m.GetBool(k)
		m.GetNumber(k)
		m.GetString(k)
		m.GetList(k)
		m.GetMap(k)
		m.Select(k)
	}
}

func C25_Scalars() {
	v := smallScalar("v", sym.Choose("kind", gScalars))
	sym.ReadOnly(func() { readOps(v) })
}

func C25_Doubles() {
	d := value.Double([]float64{0, 1.5, -2.75e10, 3e300, 5e-324, math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choose("d", 8)])
	sym.ReadOnly(func() {
		readOps(d)
		d.BigInt()
		d.Decimal()
		value.Long(1).Add(d)
		value.Decimal(decOf(5, -1)).Add(d)
	})
}

// plainCollection has known keys and elements of one digit.
func plainCollection(name string, kind int) value.Value {
	e := func() value.Value { return value.Long(int64(sym.U8(name) & 7)) }
	switch kind {
	case 0:
		return value.ImmutableList([]value.Value{e(), nil, e()})
	case 1:
		return value.MutableList([]value.Value{e(), e()})
	case 2:
		return value.EmptyImmutableMap().Put("b", e()).Put("a", e()).Insert("a", e())
	case 3:
		return value.EmptyMutableMap().Put("b", e()).Put("a", nil).Insert("a", e())
	case 4:
		return value.EmptySparseList().PutAt(3, e()).PutAt(-1, e()).InsertAt(3, e())
	case 5:
		return value.ImmutableMapOf(map[string]value.Value{"x": e(), "y": e()})
	case 6:
		return value.SortedMap([]value.MapEntry{value.MutableEntry("q", e()), value.MutableEntry("p", e())}, false)
	case 7:
		return value.SparseList([]value.ListItem{value.MutableItem(2, e()), value.ImmutableItem(0, e())}, false)
	case 8:
		return value.EmptyImmutableList()
	default:
		return value.EmptyImmutableMap()
	}
}

const plainCollections = 10

func C25_Collections() {
	v := plainCollection("v", sym.Choose("kind", plainCollections))
	sym.ReadOnly(func() { readOps(v) })
}

// collections in collections, with elements of every kind
func C25_Nested() {
	var in value.Value
	if sym.Choose("collection", 2) == 1 {
		in = plainCollection("v", sym.Choose("kind", plainCollections))
	} else {
		in = smallScalar("v", sym.Choose("kind", gScalars))
	}
	v := []value.Value{
		value.Tuple(in, nil),
		value.MutableList([]value.Value{in}),
		value.EmptyImmutableMap().Put("k", in),
		value.EmptyMutableMap().Put("k", in).Put("l", value.Null),
		value.EmptySparseList().PutAt(4, in),
		value.Tuple(value.EmptyImmutableMap().Put("a", value.Tuple(in))),
	}[sym.Choose("in what", 6)]
	sym.ReadOnly(func() { readOps(v) })
}

// two values that are compared and printed at the same time
func C25_Pairs() {
	v, w := anyValue("v"), anyValue("w")
	sym.ReadOnly(func() {
		value.Equal(v, w)
		w.Equal(v)
		value.Pack(v)
		value.Pack(w)
	})
}

// derived lists share memory with what they are derived from
func sharedList() value.List {
	var l value.List
	switch sym.Choose("list", 4) {
	case 0:
		l = value.EmptyImmutableList()
		for i, n := 0, sym.Choose("n", 5); i < n; i++ {
			l = l.Append(elem("e"))
		}
	case 1: // with room behind it
		s := make([]value.Value, 3, 8)
		copy(s, elems("e", 3))
		l = value.ImmutableList(s)
	case 2:
		l = value.ImmutableList(elems("e", 3)).RemoveAt(sym.Choose("removed", 3))
	default:
		l = value.EmptyImmutableList().PutAt(2, elem("e")).InsertAt(sym.Choose("inserted", 3), elem("f"))
	}
	return l
}

func C25_DeriveLists() {
	l := sharedList()
	op, i, n := sym.Choose("op", 6), sym.Choose("pos", 7)-1, sym.Choose("bulk", 3)
	v, more := elem("v"), elems("more", 4)
	sym.ReadOnly(func() {
		var m value.List
		switch op {
		case 0:
			m = l.Append(v)
		case 1:
			m = l.PutAt(i, v)
		case 2:
			m = l.InsertAt(i, v)
		case 3:
			m = l.RemoveAt(i)
		case 4:
			m = l.InsertAll(i, more[:n])
		default:
			m = l.DeleteAll(i)
		}
		l.UpdateAt(i, keep{})
		// and once more from what came out
		m.Append(v)
		m.InsertAt(0, v)
		m.PutAt(0, v)
		m.RemoveAt(0)
		m.InsertAll(1, more)
		value.Pack(m)
	})
}

func sharedMap() value.Map {
	var m value.Map
	switch sym.Choose("map", 5) {
	case 0:
		m = value.EmptyImmutableMap()
		for i, n := 0, sym.Choose("n", 4); i < n; i++ {
			m = m.Put(string(rune('a'+2*i)), elem("e"))
		}
	case 1: // with room behind it
		s := make([]value.MapEntry, 2, 8)
		s[0], s[1] = value.ImmutableEntry("a", elem("e")), value.ImmutableEntry("c", elem("e"))
		m = value.ImmutableMap(s, true)
	case 2:
		m = value.EmptyImmutableMap().Insert("a", elem("e")).Insert("a", elem("e")).Put("c", elem("e")).Remove("a")
	case 3:
		m = value.ImmutableMapOf(map[string]value.Value{"a": elem("e"), "c": elem("e")})
	default: // entries in no order
		m = value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("c", elem("e")), value.ImmutableEntry("a", elem("e"))}, false)
	}
	return m
}

func C25_DeriveMaps() {
	m := sharedMap()
	op := sym.Choose("op", 7)
	k := []string{"", "a", "b", "c", "d"}[sym.Choose("key", 5)]
	v, more := elem("v"), elems("more", 4)
	n := sym.Choose("bulk", 3)
	sym.ReadOnly(func() {
		var d value.Map
		switch op {
		case 0:
			d = m.Put(k, v)
		case 1:
			d = m.Insert(k, v)
		case 2:
			d = m.Remove(k)
		case 3:
			d = m.InsertAll(k, more[:n])
		case 4:
			d = m.DeleteAll(k)
		case 5:
			d = m.Put(k, v).Put("e", v)
		default:
			d = m
		}
		m.Update(k, keep{})
		d.Put("b", v)
		d.Insert("a", v)
		d.Remove("c")
		d.InsertAll("b", more)
		value.Pack(d)
	})
}

// the entries and items handed out are not shared between two calls
func C25_HandedOut() {
	l, m := sharedList(), sharedMap()
	sym.ReadOnly(func() {
		// a caller may do what it likes with slices it was given; Values and
		// Items of lists may be the list's own, so only those that are made
		// for the call
		for k := range m.HashMap() {
			_ = k
		}
		h := m.HashMap()
		h["new"] = value.True
		b := l.String()
		_ = b
		p, _ := l.MarshalBinary()
		for i := range p {
			p[i] = 0
		}
		j, _ := m.MarshalJSON()
		for i := range j {
			j[i] = 0
		}
	})
}

// decoding the same bytes
func C25_Decode() {
	b := pack(anyValue("v"))
	if sym.Choose("two", 2) == 1 {
		b = cat(refList(2), []byte{1}, b)
	}
	copied := sym.Choose("copy", 2) == 1
	sym.ReadOnly(func() {
		v, err := value.Unpack(b, copied)
		if err == nil {
			value.Pack(v)
		}
		value.Read(&chunks{data: b})
		value.Read(bytes.NewReader(b))
	})
}

// what was decoded without copying shares its bytes
func C25_Decoded() {
	var v value.Value
	if sym.Choose("collection", 2) == 1 {
		v = plainCollection("v", sym.Choose("kind", plainCollections))
	} else {
		v = smallScalar("v", sym.Choose("kind", gScalars))
	}
	v, err := value.Unpack(pack(v), sym.Choose("copy", 2) == 1)
	sym.Assert(err == nil, "a packed value is rejected")
	sym.ReadOnly(func() { readOps(v) })
}

func C25_AnyBytes() {
	b := sym.Bytes("b", 1+sym.Choose("n", 4))
	sym.ReadOnly(func() {
		v, err := value.Unpack(b, true)
		if err == nil {
			value.Jsonify(v)
			value.Pack(v)
		}
	})
}

func C25_Parse() {
	s := []string{"12", "-3.5", "1e3", "0x1p2", "true", "", "base64,AAAA", "x", "0xff", "123456789012345678901234567890"}[sym.Choose("text", 10)] + sym.Str("s", sym.Choose("n", 2))
	sym.ReadOnly(func() {
		value.ParseNumber(s)
		value.ParseBoolean(s)
		value.ParseString(s)
	})
}

// structs, whose types are seen for the first time in there
func C25_Structs() {
	e := elem("e")
	s := &outerS{
		N: value.Long(int64(int8(sym.U8("n")))),
		L: []value.Value{e, value.Null},
		R: []value.Number{value.Double(1)},
		P: &innerS{A: e},
		Q: []*innerS{{}, {A: e}},
		X: []*innerS{{A: e}},
	}
	k := &kindsS{V: anyValue("v")}
	n := &nodeS{V: e, Next: &nodeS{Kids: []*nodeS{{}}}, Rep: []*nodeS{{V: e}}}
	which := sym.Choose("which", 4)
	sym.ReadOnly(func() {
		switch which {
		case 0:
			b, err := value.PackStruct(s)
			if err == nil {
				value.UnpackStruct(b, &outerS{}, true)
			}
		case 1:
			b, err := value.PackStruct(k)
			if err == nil {
				value.UnpackStruct(b, &kindsS{}, false)
			}
		case 2:
			b, err := value.PackStruct(n)
			if err == nil {
				value.UnpackStruct(b, &nodeS{}, true)
			}
		default:
			value.UnpackStruct([]byte{0x80}, &arrayS{}, true)
			value.PackStruct(&badInnerS{})
			value.PackStruct(&sameTagS{})
		}
	})
}

// streams have state of their own only
func C25_Streams() {
	v := anyValue("v")
	sym.ReadOnly(func() {
		in := make(chan value.Value, 3)
		in <- v
		in <- nil
		close(in)
		var buf bytes.Buffer
		if value.WriteStream(&buf, in) == nil {
			value.ReadStream(&buf, make(chan value.Value, 3))
		}
	})
}

// constants and empty collections are the same for everybody
func C25_Globals() {
	v := elem("v")
	sym.ReadOnly(func() {
		for _, l := range []value.List{value.EmptyImmutableList(), value.EmptyMutableList(), value.EmptySparseList()} {
			l.Append(v)
			l.PutAt(1, v)
			l.InsertAt(0, v)
			l.InsertAll(0, []value.Value{v, v})
		}
		for _, m := range []value.Map{value.EmptyImmutableMap(), value.EmptyMutableMap()} {
			m.Put("a", v)
			m.Insert("b", v)
		}
		value.Null.String()
		value.True.MarshalBinary()
		value.Zero.Add(value.One)
		value.Long(5).Subtract(value.One)
		value.Utf8("s").String()
		value.Raw([]byte{1, 2}, true).String()
	})
}
