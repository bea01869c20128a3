package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// change is an updater that replaces what it is given.
type change struct {
	to    value.Value
	calls int
	got   value.Value
}

func (c *change) Update(old value.Value) value.Value {
	c.calls++
	c.got = old
	return c.to
}

type listVersion struct {
	l value.List
	m []value.Value
}

type mapVersion struct {
	m value.Map
	w multimap[string]
}

func lightSeq(l value.List, m []value.Value) {
	sym.Assert(l.Len() == len(m), "an earlier version has changed")
	sameElems(l.Values(), m, "an earlier version has changed")
}

func lightMap(m value.Map, w multimap[string]) {
	e := m.Entries()
	sym.Assert(m.Len() == len(w) && len(e) == len(w), "an earlier version has changed")
	for i := range w {
		sym.Assert(e[i].Key() == w[i].key && sameElem(e[i].Value(), w[i].val), "an earlier version has changed")
	}
}

// every operation on any of the versions
func listTree(l value.List, m []value.Value, steps int) {
	symbolicPositions = steps < 3
	given = nil
	vs := []listVersion{{l, m}}
	for i := 0; i < steps; i++ {
		from := vs[sym.Choose("version", len(vs))]
		l, m := treeListOp(from.l, from.m)
		vs = append(vs, listVersion{l, m})
		for _, v := range vs {
			lightSeq(v.l, v.m)
		}
	}
	notRetained()
}

// symbolicPositions: positions and keys are unknowns; otherwise they are
// taken from a few.
var symbolicPositions bool

// treeListOp is listOp at fewer positions, with in-place updates.
func treeListOp(l value.List, m []value.Value) (value.List, []value.Value) {
	op := sym.Choose("op", listOps+1)
	i := 0
	if symbolicPositions && op != opAppend {
		i = sym.Int("pos")
		sym.Assume(op != opPut || i <= len(m)+1)
	} else if op != opAppend {
		ps := []int{0, len(m) / 2, len(m) - 1, len(m), len(m) + 1}
		i = ps[sym.Choose("pos", len(ps))]
	}
	switch op {
	case opAppend:
		v := elem("v")
		return l.Append(v), append(seqCopy(m), v)
	case opPut:
		v := elem("v")
		return l.PutAt(i, v), seqPut(m, i, v)
	case opInsert:
		v := elem("v")
		return l.InsertAt(i, v), seqInsertAll(m, i, []value.Value{v})
	case opRemove:
		return l.RemoveAt(i), seqRemove(m, i)
	case opDeleteAll:
		return l.DeleteAll(i), seqRemove(m, i)
	case opInsertAll:
		vs := elems("vs", 2)
		keep := seqCopy(vs)
		l = l.InsertAll(i, vs)
		vs[0], vs[1] = marker, marker
		return l, seqInsertAll(m, i, keep)
	default:
		u := &change{to: elem("u")}
		sym.Assert(!l.UpdateAt(i, u) && u.calls == 0, "an immutable list is updated")
		for _, it := range l.Items() {
			sym.Assert(!it.Update(u), "an item of an immutable list is updated")
		}
		for _, e := range l.Entries() {
			e.Update(u)
		}
		return l, m
	}
}

// lists that grew by single appends have room behind them if they are not
// made carefully
func C10_ListTree() {
	n := []int{0, 1, 3, 5}[sym.Choose("n", 4)]
	l := value.EmptyImmutableList()
	var m []value.Value
	for i := 0; i < n; i++ {
		v := elem("e")
		l, m = l.Append(v), append(m, v)
	}
	listTree(l, m, 2)
}

func C10_ListTree3() {
	n := 1 + 2*sym.Choose("n", 1+sym.Tier())
	l := value.EmptyImmutableList()
	var m []value.Value
	for i := 0; i < n; i++ {
		v := elem("e")
		l, m = l.Append(v), append(m, v)
	}
	listTree(l, m, 3)
}

// lists that were made in other ways
func C10_ListSources() {
	n := sym.Choose("n", 4)
	m := elems("e", n)
	var l value.List
	switch sym.Choose("source", 8) {
	case 5: // with room behind it
		l = value.ImmutableList(append(seqCopy(m), marker, marker, marker)[:n])
	case 6:
		l = value.MutableList(append(seqCopy(m), marker, marker, marker)[:n])
		l = value.ImmutableList(l.Values()) // the values of it are taken over
	case 7:
		l = value.EmptySparseList()
		for i, v := range m {
			l = l.PutAt(i, v)
		}
		l = value.ImmutableList(l.Values())
	case 0:
		l = value.EmptyImmutableList().InsertAll(0, seqCopy(m))
	case 1:
		l = value.EmptyImmutableList().InsertAll(0, append(seqCopy(m), value.Zero, value.Zero)).RemoveAt(n).RemoveAt(n)
	case 2:
		l = value.EmptyImmutableList().InsertAll(0, append([]value.Value{value.Zero}, m...)).DeleteAll(0)
	case 3:
		in := refList(uint64(n))
		for _, v := range m {
			in = append(in, pack(v)...)
		}
		l = unpack(in).(value.List)
	default:
		l = value.EmptyList(true)
		for i := n - 1; i >= 0; i-- {
			l = l.InsertAt(0, m[i])
		}
	}
	listTree(l, m, 2)
}

// the values of a list belong to it; those of nil elements stay nil
func C10_ListNil() {
	m := []value.Value{nil, elem("e"), nil}
	l := value.ImmutableList(seqCopy(m))
	listTree(l, m, 1)
}

func mapTree(m value.Map, w multimap[string], steps int) {
	symbolicPositions = steps < 3
	given = nil
	vs := []mapVersion{{m, w}}
	for i := 0; i < steps; i++ {
		from := vs[sym.Choose("version", len(vs))]
		m, w := treeMapOp(from.m, from.w)
		vs = append(vs, mapVersion{m, w})
		for _, v := range vs {
			lightMap(v.m, v.w)
		}
	}
	notRetained()
}

func treeMapOp(m value.Map, w multimap[string]) (value.Map, multimap[string]) {
	k := ""
	if symbolicPositions {
		k = sym.Str("k", 1)
	} else {
		k = string([]byte{'a' + byte(sym.Choose("k", 5))})
	}
	switch sym.Choose("op", mapOps+1) {
	case mPut:
		v := elem("v")
		return m.Put(k, v), w.put(k, v)
	case mInsert:
		v := elem("v")
		return m.Insert(k, v), w.insertAll(k, []value.Value{v})
	case mRemove:
		return m.Remove(k), w.remove(k)
	case mDeleteAll:
		return m.DeleteAll(k), w.deleteAll(k)
	case mInsertAll:
		vs := elems("vs", 2)
		keep := seqCopy(vs)
		m = m.InsertAll(k, vs)
		vs[0], vs[1] = marker, marker
		return m, w.insertAll(k, keep)
	default:
		u := &change{to: elem("u")}
		sym.Assert(!m.Update(k, u) && u.calls == 0, "an immutable map is updated")
		for _, e := range m.Entries() {
			sym.Assert(!e.Update(u), "an entry of an immutable map is updated")
		}
		// the hash map belongs to the caller
		h := m.HashMap()
		h[k] = marker
		return m, w
	}
}

// keys b, d, f exist
func C10_MapTree() {
	n := []int{0, 1, 3}[sym.Choose("n", 3)]
	m := value.EmptyImmutableMap()
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := string([]byte{'b' + byte(2*i)}), elem("e")
		m, w = m.Put(k, v), w.put(k, v)
	}
	mapTree(m, w, 2)
}

// equal keys
func C10_MapTreeDuplicates() {
	m := value.EmptyImmutableMap()
	var w multimap[string]
	for i, k := range []string{"b", "b", "d", "f", "f"} {
		if i == 0 && sym.Choose("fewer", 2) == 1 {
			continue
		}
		v := elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	mapTree(m, w, 1+sym.Tier())
}

func C10_MapTree3() {
	k, v := "b", elem("e")
	m, w := value.EmptyImmutableMap().Put(k, v), multimap[string]{}.put(k, v)
	if sym.Tier() == 1 {
		v = elem("e")
		m, w = m.Put("d", v), w.put("d", v)
	}
	mapTree(m, w, 3)
}

func C10_MapSources() {
	var w multimap[string]
	src := map[string]value.Value{}
	var entries []value.MapEntry
	in := refMap(3)
	for i := 0; i < 3; i++ {
		k, v := string([]byte{'b' + byte(2*i)}), elem("e")
		src[k] = v
		entries = append(entries, value.ImmutableEntry(k, v))
		in = cat(in, refStr(1), []byte(k), pack(v))
		w = w.put(k, v)
	}
	var m value.Map
	switch sym.Choose("source", 7) {
	case 6: // with room behind it
		m = value.ImmutableMap(append(entries, value.ImmutableEntry("x", marker), value.ImmutableEntry("z", marker))[:3], true)
	case 0:
		m = value.ImmutableMapOf(src)
	case 1:
		m = value.ImmutableMap(entries, true)
	case 2:
		m = value.ImmutableMapCopyOf(value.SortedMapOf(src))
	case 3:
		m = unpack(in).(value.Map)
	case 4:
		m = value.ImmutableMapOf(src).Put("a", value.Zero).Put("z", value.Zero).Remove("a").Remove("z")
	default:
		m = value.EmptyMap(true).InsertAll("b", w.vals("b")).InsertAll("d", w.vals("d")).InsertAll("f", w.vals("f"))
	}
	mapTree(m, w, 1+sym.Tier())
	src["b"] = marker
	lightMap(m, w)
}

// copies do not see updates of what they were copied from, nor the other way
func C10_CopyOf() {
	copyOf()
}

func C10_KindsOfCopies() {
	rainbowOn()
	copyOf()
}

func copyOf() {
	n := 1 + sym.Choose("n", 3)
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1)
	if sym.Choose("custom", 2) == 1 {
		var entries []value.MapEntry
		for i := 0; i < n; i++ {
			entries = append(entries, value.MutableEntry(string([]byte{'b' + byte(2*i)}), value.Zero))
		}
		m = value.ImmutableMap(entries, true)
	}
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := string([]byte{'b' + byte(2*i)}), elem("e")
		m, w = m.Put(k, v), w.put(k, v)
	}
	c := value.ImmutableMapCopyOf(m)
	s := value.SortedMapCopyOf(m)
	k := string([]byte{'b' + byte(2*sym.Choose("k", n))})
	u := &change{to: elem("u")}
	switch sym.Choose("how", 4) {
	case 0:
		m.Update(k, u)
		lightMap(s, w)
	case 1:
		for _, e := range m.Entries() {
			e.Update(u)
		}
		lightMap(s, w)
	case 2:
		// in place operations on the mutable original
		m, _ = treeMapOp2(m, w)
		if !rainbow {
			m, _ = treeMapOp2(m, w)
		}
	default:
		sym.Assert(s.Update(k, u), "a mutable copy is not updated")
		lightMap(m, w)
	}
	lightMap(c, w)
	sym.Assert(!c.Update(k, u), "an immutable copy is updated")
	for _, e := range c.Entries() {
		sym.Assert(!e.Update(u), "an entry of an immutable copy is updated")
	}
	lightMap(c, w)
}

func treeMapOp2(m value.Map, w multimap[string]) (value.Map, multimap[string]) {
	k := string([]byte{'b' + byte(sym.Choose("k2", 3))})
	v := elem("v")
	switch sym.Choose("op2", 4) {
	case 0:
		return m.Put(k, v), w
	case 1:
		return m.Insert(k, v), w
	case 2:
		return m.Remove(k), w
	default:
		return m.DeleteAll(k), w
	}
}

// a list made from a copied slice, a list and a map of nested ones
func C10_Nested() {
	v := elem("v")
	in := value.EmptyImmutableList().Append(v)
	im := value.EmptyImmutableMap().Put("b", v)
	l := value.EmptyImmutableList().Append(in).Append(im)
	m := value.EmptyImmutableMap().Put("l", in).Put("m", im)
	before, before2 := pack(l), pack(m)
	u := elem("u")
	a := l.GetListAt(0).PutAt(0, u)
	b := l.GetMapAt(1).Put("b", u)
	c := m.GetList("l").InsertAt(0, u)
	d := m.GetMap("m").Remove("b")
	e := l.GetMapAt(0).Put("0", u)
	f := m.GetList("m").PutAt(0, u)
	l2 := l.PutAt(0, a).Append(b)
	m2 := m.Put("l", c).Put("m", d).Put("x", e).Put("y", f)
	sym.Assert(l2.Len() == 3 && m2.Len() == 4, "the length of a derived collection")
	lightSeq(in, []value.Value{v})
	lightMap(im, multimap[string]{}.put("b", v))
	sym.Assert(sym.BytesEq(pack(l), before) && sym.BytesEq(pack(m), before2), "an earlier version has changed")
}

// a slice that is copied first
func C10_SliceCopy() {
	m := elems("e", 3)
	l := value.ImmutableList(value.CopyOf(m))
	keep := seqCopy(m)
	for i := range m {
		m[i] = marker
	}
	lightSeq(l, keep)
}

// decoded ones of a length up to which memory might be set aside
func C10_LongDecoded() {
	n := []int{15, 16, 17, 20}[sym.Choose("n", 4)]
	v, u := elem("v"), elem("u")
	k := "k" + string([]byte{'a' + byte([]int{0, n / 2, n - 1, n + 1}[sym.Choose("at", 4)])})
	in, im := refList(uint64(n)), refMap(uint64(n))
	for i := 0; i < n; i++ {
		in = append(in, pack(v)...)
		im = cat(im, refStr(2), []byte{'k', 'a' + byte(i)}, pack(v))
	}
	if sym.Choose("map", 2) == 0 {
		l := unpack(in).(value.List)
		at := []int{0, n - 1, n, n + 1}[sym.Choose("pos", 4)]
		var a, b value.List
		switch sym.Choose("op", 3) {
		case 0:
			a, b = l.Append(v), l.Append(u)
		case 1:
			a, b = l.InsertAt(at, v), l.InsertAt(at, u)
		default:
			a, b = l.InsertAll(at, []value.Value{v, v}), l.InsertAll(at, []value.Value{u, u})
		}
		for _, x := range a.Values() {
			sym.Assert(sameElem(x, v), "an earlier version has changed")
		}
		sym.Assert(sym.BytesEq(pack(l), in), "an earlier version has changed")
		_ = b.RemoveAt(0).Append(u).Append(u)
		sym.Assert(sym.BytesEq(pack(l), in), "an earlier version has changed")
		return
	}
	m := unpack(im).(value.Map)
	var a, b value.Map
	switch sym.Choose("op", 3) {
	case 0:
		a, b = m.Put(k, v), m.Put(k, u)
	case 1:
		a, b = m.Insert(k, v), m.Insert(k, u)
	default:
		a, b = m.InsertAll(k, []value.Value{v, v}), m.InsertAll(k, []value.Value{u, u})
	}
	_ = b.Put("z", u)
	for _, x := range a.Values() {
		sym.Assert(sameElem(x, v), "an earlier version has changed")
	}
	sym.Assert(sym.BytesEq(pack(m), im), "an earlier version has changed")
}

// slices and maps that are made for the caller are the caller's: writing to
// them changes no version. (Values of a list and Entries of a map are views,
// as is what Object and Raw return.)
func C10_ReturnedSlices() {
	n := 1 + sym.Choose("n", 3)
	if sym.Choose("map", 2) == 0 {
		m := elems("e", n)
		var l value.List
		switch sym.Choose("source", 3) {
		case 0:
			l = value.ImmutableList(seqCopy(m))
		case 1:
			l = value.EmptyImmutableList().InsertAll(0, m)
		default:
			l = unpack(pack(value.ImmutableList(seqCopy(m)))).(value.List)
		}
		p := l.RemoveAt(n).PutAt(0, m[0])
		switch sym.Choose("of", 4) {
		case 0:
			for i := 0; i < n; i++ {
				s := l.Select(i)
				for j := range s {
					s[j] = marker
				}
				_ = append(s, marker, marker)
			}
		case 1:
			s := l.Items()
			for j := range s {
				s[j] = value.MutableItem(7, marker)
			}
			_ = append(s, s...)
		case 2:
			s := l.Entries()
			for j := range s {
				s[j] = value.MutableEntry("z", marker)
			}
			_ = append(s, s...)
		default:
			_ = append(l.Values(), marker, marker)
			lightSeq(l.Append(elem("x")).RemoveAt(n), m)
		}
		lightSeq(l, m)
		lightSeq(p, m)
		return
	}
	m := value.EmptyImmutableMap()
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := string([]byte{'b' + byte(sym.Choose("k", 2))}), elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	p := m.Put("z", marker).Remove("z")
	switch sym.Choose("of", 5) {
	case 0:
		for _, k := range []string{"b", "c", "d"} {
			s := m.Select(k)
			for j := range s {
				s[j] = marker
			}
			_ = append(s, marker, marker)
		}
	case 1:
		s := m.Keys()
		for j := range s {
			s[j] = "z"
		}
		_ = append(s, "z", "z")
	case 2:
		s := m.Values()
		for j := range s {
			s[j] = marker
		}
		_ = append(s, marker, marker)
	case 3:
		s := m.HashMap()
		for k := range s {
			s[k] = marker
		}
		s["z"] = marker
		delete(s, "b")
	default:
		_ = append(m.Entries(), value.MutableEntry("z", marker), value.MutableEntry("z", marker))
		_ = m.Put("y", marker)
	}
	lightMap(m, w)
	lightMap(p, w)
}
