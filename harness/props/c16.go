package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// updated: the updater was called once, with the current value.
func updated(ok bool, u *change, old value.Value) {
	sym.Assert(ok, "the update of an existing element returns false")
	sym.Assert(u.calls == 1, "the updater is not called exactly once")
	sym.Assert(sameElem(u.got, old), "the updater does not get the current value")
}

func notUpdated(ok bool, u *change) {
	sym.Assert(!ok, "an update without an element returns true")
	sym.Assert(u.calls == 0, "the updater is called without an element")
}

func newChange() *change { return &change{to: elemOrNil("to")} }

// stored: nil results become null.
func stored(v value.Value, u *change) {
	sym.Assert(v != nil && sameElem(v, u.to), "the result of the updater is not stored")
}

func C16_List() {
	n := sym.Choose("n", 5)
	m := elemsOrNil("e", n)
	var l value.List
	switch sym.Choose("source", 3) {
	case 0:
		l = value.MutableList(seqCopy(m))
	case 1:
		l = value.Tuple(seqCopy(m)...)
	default:
		l = value.EmptyMutableList()
		for _, v := range m {
			l = l.Append(v)
		}
	}
	i := sym.Int("pos")
	u := newChange()
	ok := l.UpdateAt(i, u)
	if i >= 0 && i < n {
		updated(ok, u, m[i])
		stored(l.GetAt(i), u)
		m = seqPut(m, i, u.to)
	} else {
		notUpdated(ok, u)
	}
	checkSeq(l, m)
}

// again, and after other operations
func C16_ListTwice() {
	m := elems("e", 3)
	l := value.EmptyMutableList().InsertAll(0, m)
	for k := 0; k < 2; k++ {
		i := sym.Int("pos")
		u := newChange()
		ok := l.UpdateAt(i, u)
		if i >= 0 && i < len(m) {
			updated(ok, u, m[i])
			m = seqPut(m, i, u.to)
		} else {
			notUpdated(ok, u)
		}
		op := sym.Choose("op", listOps)
		at := sym.Choose("at", 2)
		l, m = listOpAt(l, m, op, at)
	}
	checkSeq(l, m)
}

func C16_ImmutableList() {
	n := sym.Choose("n", 5)
	m := elemsOrNil("e", n)
	l := value.ImmutableList(seqCopy(m))
	if sym.Choose("built", 2) == 1 {
		l = value.EmptyImmutableList().InsertAll(0, seqCopy(m))
	}
	u := newChange()
	notUpdated(l.UpdateAt(sym.Int("pos"), u), u)
	for _, it := range l.Items() {
		notUpdated(it.Update(u), u)
	}
	for _, e := range l.Entries() {
		notUpdated(e.Update(u), u)
	}
	checkSeq(l, m)
}

// the first entry of a key is updated, as it is the one that is found
func C16_Map() {
	n := sym.Choose("n", 4)
	m := value.EmptyMutableMap()
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := sym.Str("k", 1), elemOrNil("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	k := sym.Str("key", sym.Choose("key.len", 3))
	u := newChange()
	ok := m.Update(k, u)
	if w.count(k) > 0 {
		updated(ok, u, w[w.lower(k)].val)
		stored(m.Get(k), u)
		w = w.put(k, u.to)
	} else {
		notUpdated(ok, u)
	}
	checkMap(m, w, k)
}

func C16_MapSources() {
	v, x := elem("v"), elem("x")
	src := map[string]value.Value{"b": v, "d": x}
	entries := []value.MapEntry{value.MutableEntry("b", v), value.MutableEntry("d", x)}
	w := multimap[string]{}.put("b", v).put("d", x)
	var m value.Map
	switch sym.Choose("source", 5) {
	case 0:
		m = value.SortedMapOf(src)
	case 1:
		m = value.SortedMap(entries, true)
	case 2:
		m = value.SortedMap(entries, false)
	case 3:
		m = value.SortedMapCopyOf(value.ImmutableMapOf(src))
	default:
		m = value.EmptyMutableMap().InsertAll("b", []value.Value{v}).InsertAll("d", []value.Value{x})
	}
	k := sym.Str("k", 1)
	u := newChange()
	ok := m.Update(k, u)
	if w.count(k) > 0 {
		updated(ok, u, w[w.lower(k)].val)
		stored(m.Get(k), u)
		w = w.put(k, u.to)
	} else {
		notUpdated(ok, u)
	}
	checkMap(m, w, k)
	sym.Assert(sameElem(src["b"], v) && sameElem(src["d"], x), "an update changes the source of the map")
	// its entries, in place
	for i, e := range m.Entries() {
		u = newChange()
		updated(e.Update(u), u, w[i].val)
		w = w.splice(i, 1, mmEntry[string]{w[i].key, u.to})
	}
	checkMap(m, w)
}

func C16_ImmutableMap() {
	n := sym.Choose("n", 4)
	m := value.EmptyImmutableMap()
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := sym.Str("k", 1), elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	if sym.Choose("copied", 2) == 1 {
		mm := value.EmptyMutableMap()
		for i := len(w) - 1; i >= 0; i-- {
			mm = mm.Insert(w[i].key, w[i].val)
		}
		m = value.ImmutableMapCopyOf(mm)
	}
	u := newChange()
	notUpdated(m.Update(sym.Str("key", 1), u), u)
	for _, e := range m.Entries() {
		notUpdated(e.Update(u), u)
	}
	checkMap(m, w)
}

// whatever its entries are
func C16_ImmutableMapOfEntries() {
	v, x := elem("v"), elem("x")
	entries := value.EmptyMutableMap().Put("b", v).Put("d", x).Entries()
	if sym.Choose("swapped", 2) == 1 {
		entries[0], entries[1] = entries[1], entries[0]
	}
	w := multimap[string]{}.put("b", v).put("d", x)
	m := value.ImmutableMap(entries, false)
	k := sym.Str("key", 1)
	switch sym.Choose("op", 4) {
	case 0:
	case 1:
		m, w = m.Put("c", v), w.put("c", v)
	case 2:
		m, w = m.Remove("b"), w.remove("b")
	default:
		m, w = m.InsertAll("e", []value.Value{x}), w.insertAll("e", []value.Value{x})
	}
	u := newChange()
	notUpdated(m.Update(k, u), u)
	checkMap(m, w, k)
}

func C16_Sparse() {
	fastAppends()
	n := sym.Choose("n", 4)
	l := value.EmptySparseList()
	var w multimap[int]
	for i := 0; i < n; i++ {
		k, v := anyIndex("k"), elemOrNil("e")
		l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	}
	k := sym.Int("key")
	u := newChange()
	ok := l.UpdateAt(k, u)
	if w.count(k) > 0 {
		updated(ok, u, w[w.lower(k)].val)
		stored(l.GetAt(k), u)
		w = w.put(k, u.to)
	} else {
		notUpdated(ok, u)
	}
	checkSparse(l, w, k)
}

// all ways to make one; the items say whether they can be updated
func C16_SparseSources() {
	fastAppends()
	v, x := elem("v"), elem("x")
	w := multimap[int]{}.put(1, v).put(3, x)
	var l value.List
	mutable := true
	switch sym.Choose("source", 6) {
	case 0:
		l = value.SparseListOf([]value.Value{nil, v, nil, x})
	case 1:
		l = value.SparseList([]value.ListItem{value.MutableItem(1, v), value.MutableItem(3, x)}, true)
	case 2:
		l = value.EmptySparseList().InsertAll(3, []value.Value{x}).InsertAll(1, []value.Value{v})
	case 3:
		l = value.EmptySparseList().PutAt(3, value.Zero).PutAt(1, v).PutAt(3, x)
	case 4:
		l = value.SparseList([]value.ListItem{value.ImmutableItem(3, x), value.ImmutableItem(1, v)}, false)
		mutable = false
	default:
		l = unpack(cat(refMap(2), []byte{1}, pack(v), []byte{3}, pack(x))).(value.List)
		mutable = false
	}
	k := sym.Int("key")
	u := newChange()
	ok := l.UpdateAt(k, u)
	if w.count(k) > 0 && mutable {
		updated(ok, u, w[w.lower(k)].val)
		w = w.put(k, u.to)
	} else {
		notUpdated(ok, u)
	}
	checkSparse(l, w)
}

func C16_Item() {
	v := elemOrNil("v")
	k := sym.Int("k")
	u := newChange()
	if sym.Choose("immutable", 2) == 1 {
		it := value.ImmutableItem(k, v)
		notUpdated(it.Update(u), u)
		sym.Assert(it.Key() == k && sameElem(it.Value(), v), "an immutable item has changed")
		return
	}
	it := value.MutableItem(k, v)
	updated(it.Update(u), u, v)
	sym.Assert(it.Key() == k, "an update changes the index")
	stored(it.Value(), u)
	w := newChange()
	updated(it.Update(w), w, u.to)
	stored(it.Value(), w)
}

func C16_Entry() {
	v := elemOrNil("v")
	k := sym.Str("k", 2)
	u := newChange()
	if sym.Choose("immutable", 2) == 1 {
		e := value.ImmutableEntry(k, v)
		notUpdated(e.Update(u), u)
		sym.Assert(e.Key() == k && sameElem(e.Value(), v), "an immutable entry has changed")
		return
	}
	e := value.MutableEntry(k, v)
	updated(e.Update(u), u, v)
	sym.Assert(e.Key() == k, "an update changes the key")
	stored(e.Value(), u)
	w := newChange()
	updated(e.Update(w), w, u.to)
	stored(e.Value(), w)
}

// giving back what one got is an update as well
func C16_Unchanged() {
	v := smallScalar("v", sym.Choose("kind", gScalars))
	if sym.Choose("collection value", 2) == 1 {
		v = value.Tuple(v)
	}
	u := &change{to: v}
	switch sym.Choose("collection", 5) {
	case 0:
		l := value.MutableList([]value.Value{value.Zero, v})
		ok := l.UpdateAt(1, u)
		unchanged(ok, u, v, l.GetAt(1))
	case 1:
		m := value.EmptyMutableMap().Put("a", value.Zero).Put("b", v)
		ok := m.Update("b", u)
		unchanged(ok, u, v, m.Get("b"))
		for _, e := range m.Entries()[1:] {
			u = &change{to: v}
			ok := e.Update(u)
			unchanged(ok, u, v, e.Value())
		}
	case 2:
		l := value.EmptySparseList().PutAt(2, value.Zero).PutAt(7, v)
		ok := l.UpdateAt(7, u)
		unchanged(ok, u, v, l.GetAt(7))
		for _, it := range l.Items()[1:] {
			u = &change{to: v}
			ok := it.Update(u)
			unchanged(ok, u, v, it.Value())
		}
	case 3:
		e := value.MutableEntry("k", v)
		ok := e.Update(u)
		unchanged(ok, u, v, e.Value())
	default:
		e := value.MutableItem(3, v)
		ok := e.Update(u)
		unchanged(ok, u, v, e.Value())
	}
}

func unchanged(ok bool, u *change, v, now value.Value) {
	sym.Assert(ok, "the update of an existing element returns false")
	sym.Assert(u.calls == 1 && sameForm(u.got, v), "the updater is not called once, with the current value")
	sym.Assert(sameForm(now, v), "the result of the updater is not stored")
}

func sameForm(a, b value.Value) bool {
	return a != nil && a.Kind() == b.Kind() && sym.BytesEq(pack(a), pack(b))
}

// the empty collections by flag: the mutable ones can be updated
func C16_Empty() {
	mutable := sym.Choose("mutable", 2) == 1
	v := elem("v")
	l := value.EmptyList(!mutable).Append(v)
	m := value.EmptyMap(!mutable).Put("k", v)
	u, w := newChange(), newChange()
	ok, okw := l.UpdateAt(0, u), m.Update("k", w)
	if !mutable {
		notUpdated(ok, u)
		notUpdated(okw, w)
		checkSeq(l, []value.Value{v})
		checkMap(m, multimap[string]{}.put("k", v))
		return
	}
	updated(ok, u, v)
	updated(okw, w, v)
	stored(l.GetAt(0), u)
	stored(m.Get("k"), w)
}
