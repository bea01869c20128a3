package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// a list of n elements with its model, built in one of several ways
func builtList(immutable bool, n int) (value.List, []value.Value) {
	how := sym.Choose("built", 7)
	l := value.EmptyList(immutable)
	var m []value.Value
	switch how {
	case 0: // given as a whole
		m = elems("e", n)
		if immutable {
			l = value.ImmutableList(seqCopy(m))
		} else {
			l = value.MutableList(seqCopy(m))
		}
	case 1:
		for i := 0; i < n; i++ {
			v := elem("e")
			l, m = l.Append(v), append(m, v)
		}
	case 2:
		m = elems("e", n)
		l = l.InsertAll(0, seqCopy(m))
	case 3:
		for i := 0; i < n; i++ {
			v := elem("e")
			l, m = l.InsertAt(0, v), seqInsertAll(m, 0, []value.Value{v})
		}
	case 4: // given with room behind it
		m = elems("e", n)
		s := append(seqCopy(m), marker, marker, marker)[:n]
		if immutable {
			l = value.ImmutableList(s)
		} else {
			l = value.MutableList(s)
		}
	case 5: // there was more at the end
		m = elems("e", n)
		l = l.InsertAll(0, seqCopy(m)).Append(marker).Append(marker).Append(marker)
		l = l.RemoveAt(n + 2).DeleteAll(n + 1).RemoveAt(n)
	default: // there was more at the start
		l = l.Append(marker).Append(marker)
		for i := 0; i < n; i++ {
			v := elem("e")
			l, m = l.Append(v), append(m, v)
		}
		l = l.RemoveAt(0).DeleteAll(0)
	}
	return l, m
}

func listOpsSequence(immutable bool, max, steps int) {
	given = nil
	l, m := builtList(immutable, sym.Choose("n", max+1))
	checkSeq(l, m)
	for i := 0; i < steps; i++ {
		l, m = listOp(l, m)
		checkSeq(l, m)
	}
	notRetained()
}

func C11_OneOp()    { listOpsSequence(true, 6, 1) }
func C11_TwoOps()   { listOpsSequence(true, 2, 2) }
func C11_ThreeOps() { listOpsSequence(true, sym.Tier(), 3) }

// positions of any size
func C11_AnyPosition() { listAnyPosition(true) }

func listAnyPosition(immutable bool) {
	n := sym.Choose("n", 5)
	m := elems("e", n)
	l := value.ImmutableList(seqCopy(m))
	if !immutable {
		l = value.MutableList(seqCopy(m))
	}
	i := sym.Int("pos")
	switch sym.Choose("op", listOps) {
	case opPut:
		sym.Assume(i < n+20)
		v := elem("v")
		l, m = l.PutAt(i, v), seqPut(m, i, v)
	case opInsert:
		v := elem("v")
		l, m = l.InsertAt(i, v), seqInsertAll(m, i, []value.Value{v})
	case opRemove:
		l, m = l.RemoveAt(i), seqRemove(m, i)
	case opDeleteAll:
		l, m = l.DeleteAll(i), seqRemove(m, i)
	case opInsertAll:
		vs := elems("v", 2)
		l, m = l.InsertAll(i, seqCopy(vs)), seqInsertAll(m, i, vs)
	default:
		v := l.GetAt(i)
		s := l.Select(i)
		if i < 0 || i >= n {
			sym.Assert(isNull(v) && len(s) == 0, "an element outside of the list")
		} else {
			sym.Assert(sameElem(v, m[i]) && len(s) == 1 && sameElem(s[0], m[i]), "element access differs from the model")
		}
	}
	checkSeq(l, m)
}

// positions far beyond the end
func C11_Far() { listFar(true) }

func listFar(immutable bool) {
	n := sym.Choose("n", 3)
	m := elems("e", n)
	l := value.ImmutableList(seqCopy(m))
	if !immutable {
		l = value.MutableList(seqCopy(m))
	}
	i := n + []int{15, 63, 99, 255, 1000, 1024, 2000, 4096, 65536, 70000}[sym.Choose("far", 10)]
	v := elem("v")
	switch sym.Choose("op", 5) {
	case 0:
		l, m = l.PutAt(i, v), seqPut(m, i, v)
	case 1:
		l, m = l.InsertAt(i, v), seqInsertAll(m, i, []value.Value{v})
	case 2:
		l, m = l.RemoveAt(i), seqRemove(m, i)
	case 3:
		vs := elems("v", 2)
		l, m = l.InsertAll(i, seqCopy(vs)), seqInsertAll(m, i, vs)
	default:
		u := &change{to: v}
		notUpdated(l.UpdateAt(i, u), u)
	}
	sym.Assert(l.Len() == len(m) && len(l.Values()) == len(m), "the length differs from the model")
	for _, k := range []int{0, 1, n - 1, n, n + 1, len(m) / 2, len(m) - 2, len(m) - 1, len(m), i, i + 1} {
		if k >= 0 && k < len(m) {
			sym.Assert(sameElem(l.GetAt(k), m[k]), "element access differs from the model")
		} else {
			sym.Assert(isNull(l.GetAt(k)), "an element outside of the list")
		}
	}
}

// two operations, both anywhere
func C11_AnyPositions() { listAnyPositions(true) }

func listAnyPositions(immutable bool) {
	given = nil
	n := sym.Choose("n", 3)
	m := elems("e", n)
	l := value.ImmutableList(seqCopy(m))
	if !immutable {
		l = value.MutableList(seqCopy(m))
	}
	for k := 0; k < 2; k++ {
		op, i := sym.Choose("op", listOps), 0
		if op != opAppend {
			i = sym.Int("pos")
			if op == opPut {
				sym.Assume(i < 6)
			}
		}
		l, m = listOpAt(l, m, op, i)
	}
	checkSeq(l, m)
	notRetained()
}

// many elements, a single operation anywhere
func C11_Long() { listLong(true) }

func listLong(immutable bool) {
	n := []int{15, 16, 17, 33}[sym.Choose("n", 4)]
	m := elems("e", n)
	l := value.EmptyList(immutable)
	for _, v := range m {
		l = l.Append(v)
	}
	l, m = listOp(l, m)
	checkSeq(l, m)
	l, m = l.Append(value.Zero), append(seqCopy(m), value.Zero)
	checkSeq(l, m)
}

// other constructors
func C11_Constructors() {
	n := sym.Choose("n", 4)
	m := elemsOrNil("e", n)
	checkSeq(value.ImmutableList(m), m)
	checkSeq(value.EmptyImmutableList(), nil)
	checkSeq(value.EmptyList(true), nil)
	sym.Assert(!value.EmptyList(true).UpdateAt(0, keep{}), "an empty list is updated")
}

// nil and null are the same everywhere
func C11_Nil() { listNil(true) }

func listNil(immutable bool) {
	l := value.EmptyList(immutable).Append(elem("a")).Append(elem("b"))
	var v value.Value
	if sym.Choose("null", 2) == 1 {
		v = value.Null
	}
	at := sym.Choose("pos", 4)
	switch sym.Choose("op", 4) {
	case 0:
		l = l.Append(v)
		at = 2
	case 1:
		l = l.PutAt(at, v)
	case 2:
		l = l.InsertAt(at, v)
	default:
		l = l.InsertAll(at, []value.Value{v})
	}
	if at >= l.Len() {
		at = l.Len() - 1
	}
	sym.Assert(l.GetAt(at) == value.Value(value.Null), "nil does not become null")
	sym.Assert(l.Values()[at] == value.Value(value.Null), "nil does not become null")
}
