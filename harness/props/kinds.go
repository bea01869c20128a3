package props

import (
	"math"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// With rainbow on, elements are of one kind after the other instead of small
// numbers.
var (
	rainbow      bool
	rainbowPlain bool // with known contents
	rainbowAt    int
)

func rainbowOn() {
	rainbow = true
	rainbowAt = sym.Choose("first kind", rainbowKinds)
}

const rainbowKinds = 14

func nextKind() value.Value {
	k := rainbowAt % rainbowKinds
	rainbowAt++
	x := byte(5)
	if !rainbowPlain {
		x = sym.U8("x") & 0x7f
	}
	switch k {
	case 0:
		return value.Null
	case 1:
		return value.Boolean(x&1 == 0)
	case 2:
		return nil
	case 3:
		return value.Utf8(string([]byte{x}))
	case 4:
		return value.Long(int64(x) - 64)
	case 5:
		return value.Raw([]byte{x}, false)
	case 6:
		return value.EmptyImmutableList()
	case 7:
		return value.Double(math.NaN())
	case 8:
		return value.EmptyMutableMap()
	case 9:
		return value.Unknown([]byte{x | 0x80, x})
	case 10:
		return value.EmptySparseList().PutAt(int(x), value.Null)
	case 11:
		return value.BigInt(bigOf(int64(x)))
	case 12:
		return value.Tuple(nil, value.Long(int64(x)))
	default:
		return value.Utf8("")
	}
}

// sameKind compares elements of any kind.
func sameKind(a, b value.Value) bool {
	return a.Kind() == b.Kind() && sym.BytesEq(pack(a), pack(b))
}

func C10_KindsOfLists() {
	rainbowOn()
	m := elems("e", 1+sym.Choose("n", 3))
	l := value.ImmutableList(seqCopy(m))
	if sym.Choose("built", 2) == 1 {
		l = value.EmptyImmutableList()
		for _, v := range m {
			l = l.Append(v)
		}
	}
	listTree(l, m, 1+sym.Tier())
}

func C10_KindsOfMaps() {
	rainbowOn()
	m, w := value.EmptyImmutableMap(), multimap[string]{}
	for i, n := 0, 1+sym.Choose("n", 3); i < n; i++ {
		k, v := string([]byte{'b' + byte(2*i)}), elem("e")
		m, w = m.Put(k, v), w.put(k, v)
	}
	mapTree(m, w, 1+sym.Tier())
}

func C11_Kinds() { listKinds(true) }
func C13_Kinds() { listKinds(false) }

func listKinds(immutable bool) {
	rainbowOn()
	listOpsSequence(immutable, 3, 1)
}

func C12_Kinds() { mapKinds(true) }
func C14_Kinds() { mapKinds(false) }

func mapKinds(immutable bool) {
	rainbowOn()
	m, w := value.EmptyMap(immutable), multimap[string]{}
	for i, n := 0, sym.Choose("n", 4); i < n; i++ {
		k, v := string([]byte{'b' + byte(2*i)}), elem("e")
		m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
	}
	m, w = mapOp(m, w, string([]byte{'a' + byte(sym.Choose("k", 7))}))
	checkMap(m, w)
}

func C15_Kinds() {
	rainbowOn()
	fastAppends()
	l, w := value.EmptySparseList(), multimap[int]{}
	for i, n := 0, sym.Choose("n", 4); i < n; i++ {
		v := elem("e")
		l, w = l.InsertAt(2*i, v), w.insertAll(2*i, []value.Value{v})
	}
	l, w = sparseOp(l, w, sym.Choose("k", 7)-1)
	checkSparse(l, w)
	checkDense(l, w, l.Len())
}

// updates of elements of all kinds to others
func C16_Kinds() {
	rainbowOn()
	fastAppends()
	m := elems("e", 3)
	for i, v := range m {
		if v == nil {
			m[i] = value.Null
		}
	}
	i := sym.Choose("i", 4)
	u := &change{to: elem("to")}
	switch sym.Choose("collection", 7) {
	case 0:
		l := value.Tuple(seqCopy(m)...)
		updatedAt(l.UpdateAt(i, u), u, i, m, func(i int) value.Value { return l.GetAt(i) })
	case 1:
		l := value.EmptyMutableList().InsertAll(0, seqCopy(m))
		updatedAt(l.UpdateAt(i, u), u, i, m, func(i int) value.Value { return l.GetAt(i) })
	case 2:
		l := value.SparseListOf(seqCopy(m))
		updatedAt(l.UpdateAt(i, u), u, i, m, func(i int) value.Value { return l.GetAt(i) })
	case 3:
		l := value.EmptySparseList().PutAt(0, m[0]).InsertAt(1, m[1]).Append(m[2])
		updatedAt(l.UpdateAt(i, u), u, i, m, func(i int) value.Value { return l.GetAt(i) })
	case 4:
		l := value.EmptyMutableMap().Put("a", m[0]).Insert("b", m[1]).InsertAll("c", m[2:])
		updatedAt(l.Update("abcd"[i:i+1], u), u, i, m, func(i int) value.Value { return l.Get("abcd"[i : i+1]) })
	case 5:
		l := value.SortedMapOf(map[string]value.Value{"a": m[0], "b": m[1], "c": m[2]})
		updatedAt(l.Update("abcd"[i:i+1], u), u, i, m, func(i int) value.Value { return l.Get("abcd"[i : i+1]) })
	default:
		l := value.SortedMapCopyOf(value.EmptyImmutableMap().Put("a", m[0]).Put("b", m[1]).Put("c", m[2]))
		updatedAt(l.Update("abcd"[i:i+1], u), u, i, m, func(i int) value.Value { return l.Get("abcd"[i : i+1]) })
	}
}

func updatedAt(ok bool, u *change, i int, m []value.Value, get func(int) value.Value) {
	if i == len(m) {
		notUpdated(ok, u)
	} else {
		updated(ok, u, m[i])
	}
	for j, v := range m {
		if j == i {
			v = u.to
		}
		sym.Assert(sameElem(get(j), v), "the result of the updater is not stored")
	}
}

// nil and null in lists and maps
func C17_NilElements() {
	n := 1 + sym.Choose("n", 2)
	x, y := make([]value.Value, n), make([]value.Value, n)
	want := true
	for i := range x {
		x[i], y[i] = anyElem("x"), anyElem("y")
		want = sym.And(want, sameElem(x[i], y[i]))
	}
	mk := func(name string, e []value.Value) value.Value {
		switch sym.Choose(name, 3) {
		case 0:
			return value.ImmutableList(e)
		case 1:
			return value.MutableList(e)
		default:
			return value.EmptyList(sym.Choose(name+".immutable", 2) == 1).InsertAll(0, e)
		}
	}
	if sym.Choose("map", 2) == 1 {
		mk = func(name string, e []value.Value) value.Value {
			m := value.EmptyMap(sym.Choose(name, 2) == 1)
			for i, v := range e {
				m = m.Put(string([]byte{'a' + byte(i)}), v)
			}
			return m
		}
	}
	sym.Assert(eq(mk("a", x), mk("b", y)) == want, "nil or null elements are compared wrongly")
}
