package props

import (
	"math"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// fastAppends: both settings.
func fastAppends() { value.AllowFastAppends = sym.Choose("fast appends", 2) == 1 }

func anyIndex(name string) int { return int(int8(sym.U8(name))) }

func wideIndex(name string) int {
	k := sym.Int(name)
	sym.Assume(k < math.MaxInt-8)
	return k
}

func sparseOpsSequence(max, steps int) {
	fastAppends()
	given = nil
	l := value.EmptySparseList()
	var w multimap[int]
	how := sym.Choose("built", 3)
	switch how {
	case 1: // there will have been more at the end
		l = l.PutAt(300, marker).InsertAt(300, marker).Append(marker).Append(marker)
	case 2: // at the start
		l = l.PutAt(-300, marker).InsertAt(-300, marker)
	}
	for i, n := 0, sym.Choose("n", max+1); i < n; i++ {
		k, v := anyIndex("k"), elem("e")
		l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	}
	switch how {
	case 1:
		l = l.DeleteAll(300).RemoveAt(302).RemoveAt(301)
	case 2:
		l = l.RemoveAt(-300).DeleteAll(-300)
	}
	for i := 0; i < steps; i++ {
		l, w = sparseOp(l, w, anyIndex("k"))
		checkSparse(l, w)
	}
	if steps == 1 {
		checkSparse(l, w, sym.Int("probe"))
	}
	notRetained()
}

func C15_OneOp()    { sparseOpsSequence(2+sym.Tier(), 1) }
func C15_TwoOps()   { sparseOpsSequence(1+sym.Tier(), 2) }
func C15_ThreeOps() { sparseOpsSequence(0, 3) }

// indexes of any size
func C15_Wide() {
	fastAppends()
	l := value.EmptySparseList()
	var w multimap[int]
	for i, n := 0, sym.Choose("n", 2+sym.Tier()); i < n; i++ {
		k, v := wideIndex("k"), elem("e")
		l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	}
	l, w = sparseOp(l, w, wideIndex("k"))
	checkSparse(l, w)
}

// small indexes, so that the dense form can be made
func C15_Dense() {
	fastAppends()
	l := value.EmptySparseList()
	var w multimap[int]
	for i := 0; i < 2; i++ {
		k, v := sym.Choose("k", 6)-2, elem("e")
		l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	}
	for i := 0; i < 1+sym.Tier(); i++ {
		l, w = sparseOp(l, w, sym.Choose("k", 6)-2)
	}
	checkSparse(l, w, -3, -2, -1, 0, 1, 2, 3, 4, 5)
	n := 0
	if len(w) > 0 && w[len(w)-1].key >= 0 {
		n = w[len(w)-1].key + 1
	}
	checkDense(l, w, n)
}

// negative indexes only
func C15_Negative() {
	fastAppends()
	l := value.EmptySparseList()
	var w multimap[int]
	for i, n := 0, 1+sym.Choose("n", 2); i < n; i++ {
		k, v := -1-int(sym.U8("k")), elem("e")
		if n == 1 {
			k = sym.Int("wide")
			sym.Assume(k < 0)
		}
		l, w = l.PutAt(k, v), w.put(k, v)
	}
	checkSparse(l, w, -1, 0, 1)
	checkDense(l, w, 0)
	v := elem("v")
	next := w[len(w)-1].key + 1
	l, w = l.Append(v), w.insertLast(next, v)
	checkSparse(l, w, next)
}

// the keys of entries are decimal
func C15_Entries() {
	k := wideIndex("k")
	v, u := elem("v"), elem("u")
	l := value.EmptySparseList().PutAt(k, v).PutAt(3, u)
	checkSparseEntries(l, multimap[int]{}.put(k, v).put(3, u))
}

// given items
func C15_Items() {
	fastAppends()
	n := sym.Choose("n", 4)
	items := make([]value.ListItem, n, n+2*sym.Choose("room", 2))
	sorted := sym.Choose("sorted", 2) == 1
	var w multimap[int]
	ks := make([]int, n)
	for i := range items {
		ks[i] = anyIndex("k")
		v := elem("e")
		if i > 0 && sorted {
			sym.Assume(ks[i-1] <= ks[i])
		}
		for j := 0; j < i; j++ {
			if !sorted {
				sym.Assume(ks[i] != ks[j])
			}
		}
		if sym.Choose("mutable", 2) == 1 {
			items[i] = value.MutableItem(ks[i], v)
		} else {
			items[i] = value.ImmutableItem(ks[i], v)
		}
		if sorted {
			w = w.insertLast(ks[i], v)
		} else {
			w = w.put(ks[i], v)
		}
	}
	l := value.SparseList(items, sorted)
	checkSparse(l, w)
	if n < 3 {
		l, w = sparseOp(l, w, anyIndex("k"))
		checkSparse(l, w)
	}
}

func C15_Of() {
	fastAppends()
	vs := elemsOrNil("v", sym.Choose("n", 5))
	var w multimap[int]
	for i, v := range vs {
		if v != nil {
			w = w.insertLast(i, v)
		}
	}
	l := value.SparseListOf(vs)
	checkSparse(l, w)
	n := 0
	if len(w) > 0 {
		n = w[len(w)-1].key + 1
	}
	checkDense(l, w, n)
	checkSparse(value.EmptySparseList(), nil, sym.Int("probe"))
}

// decoded ones
func C15_Decoded() {
	fastAppends()
	n := 1 + sym.Choose("n", 3)
	in := refMap(uint64(n))
	var w multimap[int]
	for i := 0; i < n; i++ {
		k, e := sym.U8("k"), sym.U8("e")&0x7f
		ki := int(int8(k))
		for j := range w {
			sym.Assume(w[j].key != ki)
		}
		in = cat(in, []byte{0xd0, k}, []byte{e})
		w = w.put(ki, value.Long(int64(e)))
	}
	l := unpack(in).(value.List)
	checkSparse(l, w)
	l, w = sparseOp(l, w, anyIndex("k"))
	checkSparse(l, w)
}

// many items
func C15_Long() {
	fastAppends()
	n := []int{15, 16, 17, 33}[sym.Choose("n", 4)]
	l := value.EmptySparseList()
	var w multimap[int]
	for i := 0; i < n; i++ {
		k, v := 2*(i*7%n)-6, elem("e")
		l, w = l.InsertAt(k, v), w.insertAll(k, []value.Value{v})
	}
	checkSparse(l, w)
	k := int(int8(sym.U8("k")))
	l, w = sparseOp(l, w, k)
	checkSparse(l, w, k)
}

func C15_Nil() {
	fastAppends()
	l := value.EmptySparseList().PutAt(1, elem("a")).PutAt(3, elem("b"))
	k := sym.Choose("k", 5)
	var v value.Value
	if sym.Choose("null", 2) == 1 {
		v = value.Null
	}
	switch sym.Choose("op", 4) {
	case 0:
		l = l.PutAt(k, v)
	case 1:
		l = l.InsertAt(k, v)
	case 2:
		l = l.Append(v)
		k = 4
	default:
		l = l.InsertAll(k, []value.Value{v})
	}
	sym.Assert(l.GetAt(k) == value.Value(value.Null), "nil does not become null")
	sym.Assert(len(l.Select(k)) > 0 && l.Select(k)[0] == value.Value(value.Null), "nil does not become null")
}

// far apart: the dense view has a place for every index
func C15_Far() {
	fastAppends()
	far := []int{255, 256, 300, 1000, 4095, 4096, 5000, 65536, 70000}[sym.Choose("far", 9)]
	if sym.Tier() == 0 {
		sym.Assume(far < 65000)
	}
	v, x := elem("v"), elem("x")
	near := sym.Choose("near", 3) - 1
	l := value.EmptySparseList().PutAt(far, v).PutAt(near, x)
	sym.Assert(l.Len() == far+1, "the length is not that of the highest index and one")
	d := l.Values()
	sym.Assert(len(d) == far+1, "the dense view has another length")
	sym.Assert(sameElem(d[far], v), "the dense view lacks an element")
	for i, e := range d[:far] {
		if i == near {
			sym.Assert(sameElem(e, x), "the dense view lacks an element")
		} else {
			sym.Assert(isNull(e), "the dense view has an element in a gap")
		}
	}
	sym.Assert(sameElem(l.GetAt(far), v) && isNull(l.GetAt(far-1)) && isNull(l.GetAt(far+1)), "an element far away is not found")
	sym.Assert(len(l.Items()) == 2 && l.Items()[1].Key() == far, "an item far away")
}
