package props

import (
	"io"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// Interfaces of the package that a program implements itself: values, entries,
// items, packers, unpackers and parsers that do what those of the package do.

type ownBool struct{ value.Bool }
type ownNumber struct{ value.Number }
type text = value.String
type ownString struct{ text } // String is a method
type ownExtension struct{ value.Extension }
type ownList struct{ value.List }
type ownMap struct{ value.Map }

// ownOf wraps a value.
func ownOf(v value.Value) value.Value {
	switch x := v.(type) {
	case value.Bool:
		return &ownBool{x}
	case value.Number:
		return &ownNumber{x}
	case value.String:
		return &ownString{x}
	case value.Extension:
		return &ownExtension{x}
	case value.List:
		return &ownList{x}
	case value.Map:
		return &ownMap{x}
	}
	return v
}

// plainValue is a value of any kind (except for lists with gaps, doubles that
// are no numbers and nil).
func plainValue(name string) value.Value {
	x := sym.U8(name)
	switch sym.Choose(name+".kind", 11) {
	case 0:
		return value.Boolean(x&1 == 0)
	case 1:
		return value.Long(int64(x) - 100)
	case 2:
		return value.Double([]float64{0.25, 5, -100}[sym.Choose(name+".double", 3)])
	case 3:
		return value.BigInt(bigOf(int64(x) - 100))
	case 4:
		return value.Utf8(string([]byte{x}))
	case 5:
		return value.Raw([]byte{x, 0}[:1+sym.Choose(name+".len", 2)], false)
	case 6:
		return value.Unknown([]byte{x | 0x80, x})
	case 7:
		return value.Tuple(value.Long(int64(x)), value.Utf8("a"))
	case 8:
		return value.ImmutableList([]value.Value{value.Utf8(string([]byte{x}))})
	case 9:
		return value.EmptyMutableMap().Put(string([]byte{x}), value.One)
	default:
		return value.EmptyImmutableMap().Put("k", value.Utf8(string([]byte{x})))
	}
}

func ownCollection(kind int, v value.Value) value.Value {
	switch kind {
	case 0:
		return value.Tuple(value.One, v, value.Null)
	case 1:
		return value.ImmutableList([]value.Value{v, value.One})
	case 2:
		return value.EmptyMutableMap().Put("b", v).Put("a", value.One)
	case 3:
		return value.EmptyImmutableMap().Put("b", v).Put("c", value.Null)
	case 4:
		return value.EmptySparseList().PutAt(3, v)
	}
	return v
}

// they are written like others
func C08_Own() {
	v := plainValue("v")
	kind := sym.Choose("in", 6)
	a, b := ownCollection(kind, v), ownCollection(kind, ownOf(v))
	p := pack(a)
	sym.Assert(sym.BytesEq(p, pack(b)), "a value of an own type is packed otherwise")
	sym.Assert(value.Jsonify(a) == value.Jsonify(b), "a value of an own type is printed otherwise")
	w := &brokenWriter{room: 1 << 20}
	sym.Assert(value.Write(w, b) == nil && sym.BytesEq(w.data, p), "a value of an own type is written otherwise")
	sym.Assert(value.Hex(a) == value.Hex(b), "a value of an own type has another hexadecimal form")
}

// and compared by content
func C17_Own() {
	v := plainValue("v")
	kind := sym.Choose("in", 6)
	a, b := ownCollection(kind, v), ownCollection(kind, ownOf(v))
	sym.Assert(value.Equal(a, b) && value.Equal(b, a) && value.Equal(b, b), "a value of an own type is not equal to the same content")
	u := plainValue("u")
	o := ownOf(u)
	e := value.Equal(v, u)
	sym.Assert(value.Equal(v, o) == e && value.Equal(o, v) == e, "a value of an own type is compared otherwise")
	c := ownCollection(kind, o)
	sym.Assert(value.Equal(a, c) == e && value.Equal(c, a) == e, "a collection with a value of an own type is compared otherwise")
}

// typed access returns them
func C18_Own() {
	v := plainValue("v")
	o := ownOf(v)
	same := func(got value.Value) { sym.Assert(got == o, "typed access returns another value") }
	check := func(b func() value.Bool, n func() value.Number, s func() value.String, l func() value.List, m func() value.Map) {
		switch v.Kind() {
		case value.BOOL:
			same(b())
		case value.NUMBER:
			same(n())
		case value.STRING:
			same(s())
		case value.LIST:
			same(l())
			sym.Assert(m().Len() == l().Len(), "a list is not converted to a map")
		case value.MAP:
			same(m())
			sym.Assert(l().Len() == m().Len(), "a map is not converted to a list")
		}
	}
	if sym.Choose("in", 2) == 0 {
		l := ownCollection([]int{0, 1, 4}[sym.Choose("list", 3)], o).(value.List)
		i := 0
		for ; i < l.Len() && l.GetAt(i) != o; i++ {
		}
		sym.Assert(i < l.Len(), "an element is another one")
		check(func() value.Bool { return l.GetBoolAt(i) }, func() value.Number { return l.GetNumberAt(i) }, func() value.String { return l.GetStringAt(i) },
			func() value.List { return l.GetListAt(i) }, func() value.Map { return l.GetMapAt(i) })
		return
	}
	m := ownCollection(2+sym.Choose("map", 2), o).(value.Map)
	sym.Assert(m.Get("b") == o, "an element is another one")
	check(func() value.Bool { return m.GetBool("b") }, func() value.Number { return m.GetNumber("b") }, func() value.String { return m.GetString("b") },
		func() value.List { return m.GetList("b") }, func() value.Map { return m.GetMap("b") })
}

// sums with numbers of own types
func C21_Own() {
	x, y := int64(sym.U8("x"))-100, int64(sym.U8("y"))-100
	num := func(name string, x *int64) value.Number {
		switch sym.Choose(name, 3) {
		case 0:
			return value.Long(*x)
		case 1:
			return value.BigInt(bigOf(*x))
		}
		*x = []int64{0, 7, -1 << 40}[sym.Choose(name+".double", 3)]
		return value.Double(float64(*x))
	}
	a, b := num("a", &x), num("b", &y)
	sum, diff := a.Add(&ownNumber{b}), a.Subtract(&ownNumber{b})
	sym.Assert(sum.Long() == x+y && sum.Type() == a.Add(b).Type(), "the sum differs")
	sym.Assert(diff.Long() == x-y && diff.Type() == a.Subtract(b).Type(), "the difference differs")
}

// ownPacker records what it is given through another packer.
type ownPacker struct {
	p     value.Packer
	calls int
}

func (t *ownPacker) PackNil()                      { t.calls++; t.p.PackNil() }
func (t *ownPacker) PackBool(b bool)               { t.calls++; t.p.PackBool(b) }
func (t *ownPacker) PackLong(x int64)              { t.calls++; t.p.PackLong(x) }
func (t *ownPacker) PackDouble(x float64)          { t.calls++; t.p.PackDouble(x) }
func (t *ownPacker) PackStr(s string)              { t.calls++; t.p.PackStr(s) }
func (t *ownPacker) PackBin(b []byte)              { t.calls++; t.p.PackBin(b) }
func (t *ownPacker) PackExt(x value.Ext, b []byte) { t.calls++; t.p.PackExt(x, b) }
func (t *ownPacker) PackList(n int)                { t.calls++; t.p.PackList(n) }
func (t *ownPacker) PackMap(n int)                 { t.calls++; t.p.PackMap(n) }
func (t *ownPacker) PackRaw(b []byte)              { t.calls++; t.p.PackRaw(b) }
func (t *ownPacker) Error() error                  { return t.p.Error() }

type ownUnpacker struct{ u value.Unpacker }

func (t *ownUnpacker) Next() (value.Format, []byte) { return t.u.Next() }
func (t *ownUnpacker) Read(n int) ([]byte, error)   { return t.u.Read(n) }

type ownParser struct{ value.Parser }

// ownToken is a collection with a value of any kind in it.
func ownToken() value.Value {
	return ownCollection(sym.Choose("in", 6), plainValue("v"))
}

// values through a packer, an unpacker and a parser of the program
func C27_Own() {
	v := ownToken()
	b := pack(v)
	w := &brokenWriter{room: 1 << 20}
	p := &ownPacker{p: value.MessagePacker(w)}
	v.Pack(p)
	v.Pack(p)
	sym.Assert(p.Error() == nil && p.calls > 0, "a value does not use the packer it is given")
	sym.Assert(sym.BytesEq(w.data, cat(b, b)), "a value is packed otherwise")
	var u value.Unpacker
	switch sym.Choose("from", 2) {
	case 0:
		u = value.MessageUnpacker(w.data, true)
	default:
		u = value.MessageReader(&chunks{data: w.data, step: 2})
	}
	for i := 0; i < 2; i++ {
		r, err := value.Parse(&ownUnpacker{u}, &ownParser{value.MessageParser()})
		sym.Assert(err == nil && sym.BytesEq(pack(r), b), "another value comes back")
	}
	_, err := value.Parse(&ownUnpacker{u}, value.MessageParser())
	sym.Assert(err == io.EOF, "the end is not reported")
}

// entries and items of own types
type ownEntry struct {
	k     string
	v     value.Value
	calls int
}

func (t *ownEntry) Key() string        { return t.k }
func (t *ownEntry) Value() value.Value { return t.v }
func (t *ownEntry) Update(u value.Updater) bool {
	t.calls++
	t.v = u.Update(t.v)
	return true
}
func (t *ownEntry) Equal(e value.MapEntry) bool {
	return t.k == e.Key() && value.Equal(t.v, e.Value())
}

type ownItem struct {
	k     int
	v     value.Value
	calls int
}

func (t *ownItem) Key() int           { return t.k }
func (t *ownItem) Value() value.Value { return t.v }
func (t *ownItem) Update(u value.Updater) bool {
	t.calls++
	t.v = u.Update(t.v)
	return true
}
func (t *ownItem) Equal(e value.ListItem) bool {
	return t.k == e.Key() && value.Equal(t.v, e.Value())
}

func ownEntries(n int) ([]value.MapEntry, multimap[string]) {
	var e []value.MapEntry
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := sym.Str("k", 1), elem("e")
		e = append(e, &ownEntry{k: k, v: v})
		w = w.splice(w.lower(k)+w.count(k), 0, mmEntry[string]{k, v})
	}
	return e, w
}

func C12_OwnEntries() { ownEntriesMap(true) }
func C14_OwnEntries() { ownEntriesMap(false) }

func ownEntriesMap(immutable bool) {
	e, w := ownEntries(1 + sym.Choose("n", 3))
	var m value.Map
	if immutable {
		m = value.ImmutableMap(e, false)
	} else {
		m = value.SortedMap(e, false)
	}
	checkMap(m, w)
	k := sym.Str("k", 1)
	m, w = mapOp(m, w, k)
	checkMap(m, w, k)
}

func C15_OwnItems() {
	fastAppends()
	var e []value.ListItem
	var w multimap[int]
	for i, n := 0, 1+sym.Choose("n", 3); i < n; i++ {
		k, v := sym.Choose("k", 5), elem("e")
		e = append(e, &ownItem{k: k, v: v})
		w = w.splice(w.lower(k)+w.count(k), 0, mmEntry[int]{k, v})
	}
	l := value.SparseList(e, false)
	checkSparse(l, w)
	k := sym.Choose("at", 5)
	l, w = sparseOp(l, w, k)
	checkSparse(l, w, k)
}

// an update of a map goes through its entry
func C16_OwnEntries() {
	e, w := ownEntries(3)
	m := value.SortedMap(e, false)
	k := sym.Str("k", 1)
	u := newChange()
	if u.to == nil {
		u.to = value.Null
	}
	ok := m.Update(k, u)
	calls := 0
	for _, x := range e {
		calls += x.(*ownEntry).calls
	}
	if w.count(k) > 0 {
		updated(ok, u, w[w.lower(k)].val)
		sym.Assert(calls == 1, "another entry is updated")
		w[w.lower(k)].val = u.to
	} else {
		notUpdated(ok, u)
		sym.Assert(calls == 0, "another entry is updated")
	}
	checkMap(m, w, k)
}

// nested is an updater that uses and updates the collection it is called from.
type nested struct {
	change
	inside func()
}

func (n *nested) Update(old value.Value) value.Value {
	n.inside()
	return n.change.Update(old)
}

func C16_Nested() {
	kind := sym.Choose("kind", 3)
	m := elems("e", 4)
	i, j := sym.Choose("i", 4), sym.Choose("j", 4)
	if i == j {
		return
	}
	u2 := newChange()
	u := &nested{change: *newChange()}
	var all func() []value.Value
	var ok, ok2 bool
	switch kind {
	case 0:
		l := value.MutableList(seqCopy(m))
		u.inside = func() {
			sym.Assert(sameElem(l.GetAt(i), m[i]), "an element changes before its updater returns")
			ok2 = l.UpdateAt(j, u2)
		}
		ok = l.UpdateAt(i, u)
		all = l.Values
	case 1:
		x := value.EmptyMutableMap()
		key := func(i int) string { return string([]byte{'a' + byte(i)}) }
		for i, v := range m {
			x = x.Put(key(i), v)
		}
		u.inside = func() {
			sym.Assert(sameElem(x.Get(key(i)), m[i]), "an element changes before its updater returns")
			ok2 = x.Update(key(j), u2)
		}
		ok = x.Update(key(i), u)
		all = x.Values
	default:
		fastAppends()
		l := value.EmptySparseList()
		for i, v := range m {
			l = l.PutAt(i, v)
		}
		u.inside = func() {
			sym.Assert(sameElem(l.GetAt(i), m[i]), "an element changes before its updater returns")
			ok2 = l.UpdateAt(j, u2)
		}
		ok = l.UpdateAt(i, u)
		all = l.Values
	}
	updated(ok, &u.change, m[i])
	updated(ok2, u2, m[j])
	m[i], m[j] = u.to, u2.to
	sameElems(all(), m, "another element has changed")
}

// long runs of one key, and many values at once
func runs(n int) []int { return []int{1, 2, 9, 17, 33, 65, 3, 5, 20, 40, 129}[:n] }

func run(name string, n, from int) []value.Value {
	vs := make([]value.Value, n)
	for i := range vs {
		vs[i] = value.Long(int64(from + i))
	}
	if n > 0 {
		vs[[]int{0, n / 2, n - 1}[sym.Choose(name+".at", 3)]] = elem(name)
	}
	return vs
}

func C12_Runs() { mapRuns(true) }
func C14_Runs() { mapRuns(false) }

func mapRuns(immutable bool) {
	rs := runs(6 + 5*sym.Tier())
	var m value.Map = value.EmptyMap(immutable)
	var w multimap[string]
	if sym.Choose("before", 2) == 1 {
		m, w = m.Put("a", value.Long(1)), w.put("a", value.Long(1))
	}
	if sym.Choose("behind", 2) == 1 {
		m, w = m.Put("c", value.Long(2)), w.put("c", value.Long(2))
	}
	vs := run("vs", rs[sym.Choose("run", len(rs))], 100)
	m, w = m.InsertAll("b", vs), w.insertAll("b", vs)
	old, oldW := m, w
	k := sym.Str("k", 1)
	switch sym.Choose("op", 6) {
	case 0:
		m, w = m.DeleteAll(k), w.deleteAll(k)
	case 1:
		m, w = m.Remove(k), w.remove(k)
	case 2:
		m, w = m.Put(k, value.Long(77)), w.put(k, value.Long(77))
	case 3:
		m, w = m.Insert(k, value.Long(77)), w.insertAll(k, []value.Value{value.Long(77)})
	default:
		more := run("more", rs[sym.Choose("more", len(rs))], 500)
		m, w = m.InsertAll(k, more), w.insertAll(k, more)
	}
	checkMap(m, w, k)
	if immutable {
		checkMap(old, oldW)
	}
}

func C15_Runs() {
	fastAppends()
	rs := runs(6 + 5*sym.Tier())
	l, w := value.EmptySparseList(), multimap[int]{}
	if sym.Choose("before", 2) == 1 {
		l, w = l.PutAt(1, value.Long(1)), w.put(1, value.Long(1))
	}
	if sym.Choose("behind", 2) == 1 {
		l, w = l.PutAt(5, value.Long(2)), w.put(5, value.Long(2))
	}
	vs := run("vs", rs[sym.Choose("run", len(rs))], 100)
	l, w = l.InsertAll(3, vs), w.insertAll(3, vs)
	k := sym.Choose("k", 7)
	switch sym.Choose("op", 5) {
	case 0:
		l, w = l.DeleteAll(k), w.deleteAll(k)
	case 1:
		l, w = l.RemoveAt(k), w.remove(k)
	case 2:
		l, w = l.PutAt(k, value.Long(77)), w.put(k, value.Long(77))
	case 3:
		l, w = l.InsertAt(k, value.Long(77)), w.insertAll(k, []value.Value{value.Long(77)})
	default:
		more := run("more", rs[sym.Choose("more", len(rs))], 500)
		l, w = l.InsertAll(k, more), w.insertAll(k, more)
	}
	checkSparse(l, w, k)
}

func C11_Runs() { listRuns(true) }
func C13_Runs() { listRuns(false) }

func listRuns(immutable bool) {
	rs := runs(6 + 5*sym.Tier())
	n := rs[sym.Choose("n", len(rs))]
	m := run("e", n, 100)
	var l value.List = value.EmptyList(immutable).InsertAll(0, m)
	old := l
	more := run("more", rs[sym.Choose("more", len(rs))], 500)
	i := sym.Int("pos")
	l = l.InsertAll(i, more)
	w := seqInsertAll(m, i, more)
	sym.Assert(l.Len() == len(w), "the length differs from the model")
	sameElems(l.Values(), w, "the values differ from the model")
	p := []int{0, n, len(more), len(w) - 1, len(w) / 2}[sym.Choose("probe", 5)]
	if p < len(w) {
		sym.Assert(sameElem(l.GetAt(p), w[p]), "element access differs from the model")
	} else {
		sym.Assert(isNull(l.GetAt(p)), "an absent element is found")
	}
	if immutable {
		sameElems(old.Values(), m, "an earlier version has changed")
	}
}
