package props

import (
	"strconv"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

func isNull(v value.Value) bool { return v == nil || v.Kind() == value.NULL }

// sameElem compares elements made by anyElem without the help of Equal.
func sameElem(a, b value.Value) bool {
	if isNull(a) || isNull(b) {
		return isNull(a) && isNull(b)
	}
	if rainbow {
		return sameKind(a, b)
	}
	x, ok := intOf(a)
	y, ok2 := intOf(b)
	return ok && ok2 && x == y
}

// anyElem is a small number, nil or null.
func anyElem(name string) value.Value {
	switch sym.Choose(name+".nil", 3) {
	case 0:
		return elem(name)
	case 1:
		return nil
	default:
		return value.Null
	}
}

// elemOrNil is a small number or nil.
func elemOrNil(name string) value.Value {
	if !rainbow && sym.Choose(name+".nil", 2) == 1 {
		return nil
	}
	return elem(name)
}

func elemsOrNil(name string, n int) []value.Value {
	out := make([]value.Value, n, n+2)
	for i := range out {
		out[i] = elemOrNil(name)
	}
	return out
}

func sameElems(a, b []value.Value, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for i := range a {
		sym.Assert(sameElem(a[i], b[i]), msg)
	}
}

// ---- sequences ----

func seqCopy(s []value.Value) []value.Value { return append([]value.Value(nil), s...) }

func seqPut(s []value.Value, i int, v value.Value) []value.Value {
	if i < 0 {
		return s
	}
	s = seqCopy(s)
	for len(s) <= i {
		s = append(s, nil)
	}
	s[i] = v
	return s
}

func seqInsertAll(s []value.Value, i int, v []value.Value) []value.Value {
	if i < 0 {
		return s
	}
	if i > len(s) {
		i = len(s)
	}
	var out []value.Value
	out = append(out, s[:i]...)
	out = append(out, v...)
	return append(out, s[i:]...)
}

func seqRemove(s []value.Value, i int) []value.Value {
	if i < 0 || i >= len(s) {
		return s
	}
	var out []value.Value
	out = append(out, s[:i]...)
	return append(out, s[i+1:]...)
}

// checkSeq: every view of the list agrees with the sequence.
func checkSeq(l value.List, want []value.Value) {
	sym.Assert(l != nil && l.Kind() == value.LIST, "a list is no list")
	sym.Assert(l.Len() == len(want), "the length differs from the model")
	sameElems(l.Values(), want, "the values differ from the model")
	items, entries := l.Items(), l.Entries()
	sym.Assert(len(items) == len(want), "the items differ from the model")
	sym.Assert(len(entries) == len(want), "the entries differ from the model")
	for i, w := range want {
		sym.Assert(sameElem(l.GetAt(i), w), "element access differs from the model")
		sym.Assert(items[i].Key() == i && sameElem(items[i].Value(), w), "the items differ from the model")
		sym.Assert(entries[i].Key() == strconv.Itoa(i) && sameElem(entries[i].Value(), w), "the entries differ from the model")
		s := l.Select(i)
		if isNull(w) {
			sym.Assert(len(s) == 0 || len(s) == 1 && isNull(s[0]), "the selection differs from the model")
		} else {
			sym.Assert(len(s) == 1 && sameElem(s[0], w), "the selection differs from the model")
		}
	}
	for _, i := range []int{-1, len(want), len(want) + 1} {
		sym.Assert(isNull(l.GetAt(i)), "an element outside of the list")
		sym.Assert(len(l.Select(i)) == 0, "an element outside of the list is selected")
	}
}

const (
	opAppend = iota
	opPut
	opInsert
	opRemove
	opInsertAll
	opDeleteAll
	listOps
)

// listOp applies an arbitrary operation to the list and to its model; bulk
// insertions must leave the given slice alone and not keep it.
func listOp(l value.List, m []value.Value) (value.List, []value.Value) {
	op := sym.Choose("op", listOps)
	n := len(m)
	i := 0
	switch op {
	case opAppend:
	case opPut:
		i = sym.Choose("pos", n+4) - 1
	case opRemove, opDeleteAll:
		i = sym.Choose("pos", n+2) - 1
	default:
		i = sym.Choose("pos", n+3) - 1
	}
	return listOpAt(l, m, op, i)
}

func listOpAt(l value.List, m []value.Value, op, i int) (value.List, []value.Value) {
	switch op {
	case opAppend:
		v := elemOrNil("v")
		return l.Append(v), append(seqCopy(m), v)
	case opPut:
		v := elemOrNil("v")
		return l.PutAt(i, v), seqPut(m, i, v)
	case opInsert:
		v := elemOrNil("v")
		return l.InsertAt(i, v), seqInsertAll(m, i, []value.Value{v})
	case opRemove:
		return l.RemoveAt(i), seqRemove(m, i)
	case opDeleteAll:
		return l.DeleteAll(i), seqRemove(m, i)
	default:
		vs := bulk("vs")
		keep := seqCopy(vs)
		l = l.InsertAll(i, vs)
		checkBulk(vs, keep)
		return l, seqInsertAll(m, i, keep)
	}
}

// bulk is a slice for bulk insertion, with room behind it.
func bulk(name string) []value.Value {
	n := sym.Choose(name+".n", 4)
	out := make([]value.Value, n, n+3)
	for i := range out {
		out[i] = elem(name)
	}
	if n == 2 {
		out[1] = nil
	}
	for i, rest := n, out[:n+3]; i < n+3; i++ {
		rest[i] = marker
	}
	return out
}

var marker = value.Value(value.Utf8("marker"))

// checkBulk: the slice is as it was, behind its end as well; then overwrites
// it.
func checkBulk(vs, keep []value.Value) {
	all := vs[:len(vs)+3]
	for i, v := range all {
		if i < len(keep) {
			sym.Assert((v == nil) == (keep[i] == nil) && sameElem(v, keep[i]), "bulk insertion modifies the slice it is given")
		} else {
			sym.Assert(v == marker, "bulk insertion writes behind the slice it is given")
		}
	}
	for i := range all {
		all[i] = marker
	}
	given = append(given, all)
}

// given are the slices that were passed to bulk insertions.
var given [][]value.Value

// notRetained: no later operation writes to a slice that was given to an
// earlier one.
func notRetained() {
	for _, g := range given {
		for _, v := range g {
			sym.Assert(v == marker, "a slice given to a bulk insertion is written to by a later operation")
		}
	}
}

// ---- sorted multimaps ----

type mmEntry[K int | string] struct {
	key K
	val value.Value
}

type multimap[K int | string] []mmEntry[K]

func (m multimap[K]) lower(k K) int {
	for i := range m {
		if m[i].key >= k {
			return i
		}
	}
	return len(m)
}

func (m multimap[K]) count(k K) int {
	n := 0
	for i := m.lower(k); i < len(m) && m[i].key == k; i++ {
		n++
	}
	return n
}

func (m multimap[K]) splice(i, del int, ins ...mmEntry[K]) multimap[K] {
	var out multimap[K]
	out = append(out, m[:i]...)
	out = append(out, ins...)
	return append(out, m[i+del:]...)
}

func (m multimap[K]) put(k K, v value.Value) multimap[K] {
	i, del := m.lower(k), 0
	if m.count(k) > 0 {
		del = 1
	}
	return m.splice(i, del, mmEntry[K]{k, v})
}

func (m multimap[K]) insertAll(k K, vs []value.Value) multimap[K] {
	var e []mmEntry[K]
	for _, v := range vs {
		e = append(e, mmEntry[K]{k, v})
	}
	return m.splice(m.lower(k), 0, e...)
}

func (m multimap[K]) remove(k K) multimap[K] {
	if m.count(k) == 0 {
		return m
	}
	return m.splice(m.lower(k), 1)
}

func (m multimap[K]) deleteAll(k K) multimap[K] {
	return m.splice(m.lower(k), m.count(k))
}

// vals are the values of a key.
func (m multimap[K]) vals(k K) []value.Value {
	var out []value.Value
	for i, n := m.lower(k), m.count(k); n > 0; n-- {
		out = append(out, m[i].val)
		i++
	}
	return out
}

// checkMap: every view of the map agrees with the multimap.
func checkMap(m value.Map, want multimap[string], probes ...string) {
	sym.Assert(m != nil && m.Kind() == value.MAP, "a map is no map")
	sym.Assert(m.Len() == len(want), "the length differs from the model")
	keys, vals, entries, hm := m.Keys(), m.Values(), m.Entries(), m.HashMap()
	sym.Assert(len(keys) == len(want), "the keys differ from the model")
	sym.Assert(len(vals) == len(want), "the values differ from the model")
	sym.Assert(len(entries) == len(want), "the entries differ from the model")
	distinct := 0
	for i, w := range want {
		sym.Assert(keys[i] == w.key, "the keys differ from the model")
		sym.Assert(sameElem(vals[i], w.val), "the values differ from the model")
		sym.Assert(entries[i].Key() == w.key && sameElem(entries[i].Value(), w.val), "the entries differ from the model")
		if i == 0 || want[i-1].key != w.key {
			distinct++
			probes = append(probes, w.key)
		}
	}
	sym.Assert(len(hm) == distinct, "the hash map differs from the model")
	for _, k := range probes {
		vs := want.vals(k)
		sameElems(m.Select(k), vs, "the selection differs from the model")
		h, ok := hm[k]
		if len(vs) == 0 {
			sym.Assert(isNull(m.Get(k)), "an absent key is found")
			sym.Assert(!ok, "the hash map differs from the model")
			continue
		}
		sym.Assert(sameElem(m.Get(k), vs[0]), "lookup differs from the model")
		sym.Assert(ok, "the hash map differs from the model")
		found := false
		for _, v := range vs {
			found = sym.Or(found, sameElem(h, v))
		}
		sym.Assert(found, "the hash map differs from the model")
	}
}

const (
	mPut = iota
	mInsert
	mRemove
	mInsertAll
	mDeleteAll
	mapOps
)

func mapOp(m value.Map, w multimap[string], k string) (value.Map, multimap[string]) {
	switch sym.Choose("op", mapOps) {
	case mPut:
		v := elemOrNil("v")
		return m.Put(k, v), w.put(k, v)
	case mInsert:
		v := elemOrNil("v")
		return m.Insert(k, v), w.insertAll(k, []value.Value{v})
	case mRemove:
		return m.Remove(k), w.remove(k)
	case mDeleteAll:
		return m.DeleteAll(k), w.deleteAll(k)
	default:
		vs := bulk("vs")
		keep := seqCopy(vs)
		m = m.InsertAll(k, vs)
		checkBulk(vs, keep)
		return m, w.insertAll(k, keep)
	}
}

// checkSparse: every view of the sparse list agrees with the multimap.
func checkSparse(l value.List, want multimap[int], probes ...int) {
	sym.Assert(l != nil && l.Kind() == value.LIST, "a list is no list")
	n := 0
	if len(want) > 0 && want[len(want)-1].key >= 0 {
		n = want[len(want)-1].key + 1
	}
	sym.Assert(l.Len() == n, "the length differs from the model")
	items := l.Items()
	sym.Assert(len(items) == len(want), "the items differ from the model")
	for i, w := range want {
		sym.Assert(items[i].Key() == w.key, "the items differ from the model")
		sym.Assert(sameElem(items[i].Value(), w.val), "the items differ from the model")
		if i == 0 || want[i-1].key != w.key {
			probes = append(probes, w.key)
		}
	}
	for _, k := range probes {
		vs := want.vals(k)
		sameElems(l.Select(k), vs, "the selection differs from the model")
		if len(vs) == 0 {
			sym.Assert(isNull(l.GetAt(k)), "an absent index is found")
		} else {
			sym.Assert(sameElem(l.GetAt(k), vs[0]), "element access differs from the model")
		}
	}
}

// checkDense: the values are those of the non-negative indexes; an index with
// several items has one of their values.
func checkDense(l value.List, want multimap[int], n int) {
	vals := l.Values()
	sym.Assert(len(vals) == n, "the number of values is not the length")
	for i, v := range vals {
		vs := want.vals(i)
		if len(vs) == 0 {
			sym.Assert(isNull(v), "a value at an absent index")
			continue
		}
		found := false
		for _, w := range vs {
			found = sym.Or(found, sameElem(v, w))
		}
		sym.Assert(found, "the values differ from the model")
	}
	checkSparseEntries(l, want)
}

func checkSparseEntries(l value.List, want multimap[int]) {
	entries := l.Entries()
	sym.Assert(len(entries) == len(want), "the entries differ from the model")
	for i, e := range entries {
		sym.Assert(e.Key() == strconv.Itoa(want[i].key), "the entries differ from the model")
		sym.Assert(sameElem(e.Value(), want[i].val), "the entries differ from the model")
	}
}

// sparseOp applies an arbitrary operation at index k.
func sparseOp(l value.List, w multimap[int], k int) (value.List, multimap[int]) {
	switch sym.Choose("op", listOps) {
	case opAppend:
		v := elemOrNil("v")
		next := 0
		if len(w) > 0 {
			next = w[len(w)-1].key + 1
		}
		return l.Append(v), w.insertLast(next, v)
	case opPut:
		v := elemOrNil("v")
		return l.PutAt(k, v), w.put(k, v)
	case opInsert:
		v := elemOrNil("v")
		return l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	case opRemove:
		return l.RemoveAt(k), w.remove(k)
	case opDeleteAll:
		return l.DeleteAll(k), w.deleteAll(k)
	default:
		vs := bulk("vs")
		keep := seqCopy(vs)
		l = l.InsertAll(k, vs)
		checkBulk(vs, keep)
		return l, w.insertAll(k, keep)
	}
}

func (m multimap[K]) insertLast(k K, v value.Value) multimap[K] {
	return m.splice(len(m), 0, mmEntry[K]{k, v})
}
