package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

func mapOpsSequence(immutable bool, max, steps int) {
	given = nil
	m := value.EmptyMap(immutable)
	var w multimap[string]
	how := sym.Choose("built", 3)
	switch how {
	case 1: // there will have been more at the end
		m = m.Put("\xff\xff", marker).Insert("\xff\xff", marker).Insert("\xff\xff\xff", marker)
	case 2: // at the start
		m = m.Put("", marker).Insert("", marker)
	}
	for i, n := 0, sym.Choose("n", max+1); i < n; i++ {
		k, v := sym.Str("k", 1), elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	switch how {
	case 1:
		m = m.DeleteAll("\xff\xff").Remove("\xff\xff\xff")
	case 2:
		m = m.Remove("").DeleteAll("")
	}
	for i := 0; i < steps; i++ {
		m, w = mapOp(m, w, sym.Str("k", 1))
		checkMap(m, w)
	}
	if steps == 1 {
		checkMap(m, w, sym.Str("probe", 1))
	}
	notRetained()
}

func C12_OneOp()    { mapOpsSequence(true, 3+sym.Tier(), 1) }
func C12_TwoOps()   { mapOpsSequence(true, 2, 2) }
func C12_ThreeOps() { mapOpsSequence(true, sym.Tier(), 3) }

// keys of any length
func C12_AnyKeys() { mapAnyKeys(true) }

func mapAnyKeys(immutable bool) {
	m := value.EmptyMap(immutable)
	var w multimap[string]
	for i := 0; i < 2; i++ {
		k, v := sym.Str("k", sym.Choose("k.len", 4)), elem("e")
		m, w = m.Put(k, v), w.put(k, v)
	}
	k := sym.Str("k", sym.Choose("k.len", 4))
	m, w = mapOp(m, w, k)
	checkMap(m, w, k, "", "a", "\xff\xff\xff\xff")
}

// given entries, sorted or not; equal keys keep their order as long as there
// are few
func mapOfEntries(immutable bool) (value.Map, multimap[string]) {
	n := sym.Choose("n", 4)
	entries := make([]value.MapEntry, n, n+2*sym.Choose("room", 2))
	var w multimap[string]
	sorted := sym.Choose("sorted", 2) == 1
	ks := make([]string, n)
	for i := range entries {
		ks[i] = sym.Str("k", 1)
		v := elem("e")
		if i > 0 && sorted {
			sym.Assume(ks[i-1] <= ks[i])
		}
		for j := 0; j < i; j++ {
			if !sorted {
				sym.Assume(ks[i] != ks[j])
			}
		}
		if mixed := sym.Choose("other entry", 2) == 1; mixed != immutable {
			entries[i] = value.ImmutableEntry(ks[i], v)
		} else {
			entries[i] = value.MutableEntry(ks[i], v)
		}
		if sorted {
			w = w.insertLast(ks[i], v)
		} else {
			w = w.put(ks[i], v)
		}
	}
	if immutable {
		return value.ImmutableMap(entries, sorted), w
	}
	return value.SortedMap(entries, sorted), w
}

func C12_Entries() { mapEntries(true) }

func mapEntries(immutable bool) {
	m, w := mapOfEntries(immutable)
	checkMap(m, w)
	m, w = mapOp(m, w, sym.Str("k", 1))
	checkMap(m, w)
}

func C12_MapOf() { mapOf(true) }

func mapOf(immutable bool) {
	sym.MapOrders(true)
	keys := distinctKeys(sym.Choose("n", 4))
	src := map[string]value.Value{}
	var w multimap[string]
	for _, k := range keys {
		v := elem("v")
		src[k] = v
		w = w.put(k, v)
	}
	if immutable {
		checkMap(value.ImmutableMapOf(src), w)
	} else {
		checkMap(value.SortedMapOf(src), w)
	}
}

func C12_CopyOf() { mapCopyOf(true) }

func mapCopyOf(immutable bool) {
	m, w := mapOfEntries(sym.Choose("source", 2) == 1)
	c := value.ImmutableMapCopyOf(m)
	if !immutable {
		c = value.SortedMapCopyOf(m)
	}
	checkMap(c, w)
	c, u := mapOp(c, w, sym.Str("k", 1))
	checkMap(c, u)
	checkMap(m, w)
}

// decoded maps
func C12_Decoded() { mapDecoded(true) }

func mapDecoded(immutable bool) {
	n := 1 + sym.Choose("n", 3)
	in := refMap(uint64(n))
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, e := sym.Str("k", 1), sym.U8("e")&0x7f
		for j := range w {
			sym.Assume(w[j].key != k)
		}
		in = cat(in, refStr(1), []byte(k), []byte{e})
		w = w.put(k, value.Long(int64(e)))
	}
	m := unpack(in).(value.Map)
	if !immutable {
		m = value.SortedMapCopyOf(m)
	}
	checkMap(m, w)
	m, w = mapOp(m, w, sym.Str("k", 1))
	checkMap(m, w)
}

// many entries
func C12_Long() { mapLong(true) }

func mapLong(immutable bool) {
	n := []int{15, 16, 17, 33}[sym.Choose("n", 4)]
	m := value.EmptyMap(immutable)
	var w multimap[string]
	for i := 0; i < n; i++ {
		k, v := string([]byte{'k', byte(2*(i*7%n) + 10)}), elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	checkMap(m, w)
	k := "k" + sym.Str("k", 1)
	m, w = mapOp(m, w, k)
	checkMap(m, w, k)
}

func C12_Nil() { mapNil(true) }

func mapNil(immutable bool) {
	m := value.EmptyMap(immutable).Put("b", elem("a")).Put("d", elem("b"))
	k := string([]byte{'a' + byte(sym.Choose("k", 5))})
	var v value.Value
	if sym.Choose("null", 2) == 1 {
		v = value.Null
	}
	switch sym.Choose("op", 3) {
	case 0:
		m = m.Put(k, v)
	case 1:
		m = m.Insert(k, v)
	default:
		m = m.InsertAll(k, []value.Value{v})
	}
	sym.Assert(m.Get(k) == value.Value(value.Null), "nil does not become null")
	sym.Assert(len(m.Select(k)) > 0 && m.Select(k)[0] == value.Value(value.Null), "nil does not become null")
}
