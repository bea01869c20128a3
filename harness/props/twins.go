package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// twins are values that are equal, yet not the same.
func twins() (value.Value, value.Value) {
	one := value.Long(1)
	var a, b value.Value
	switch sym.Choose("twins", 8) {
	case 0:
		a, b = one, value.Double(1)
	case 1:
		a, b = value.Double(1), value.Double(1.0000001)
	case 2:
		a, b = one, value.BigInt(bigOf(1))
	case 3:
		a, b = value.Utf8("a"), value.Raw([]byte("a"), false)
	case 4:
		a, b = value.ImmutableList([]value.Value{one}), value.MutableList([]value.Value{one})
	case 5:
		a, b = value.EmptyImmutableMap().Put("a", one), value.EmptyMutableMap().Put("a", one)
	case 6:
		a, b = value.SparseListOf([]value.Value{one}), value.MutableList([]value.Value{one})
	default:
		a, b = value.SparseListOf([]value.Value{one}), value.ImmutableList([]value.Value{one})
	}
	if sym.Choose("swapped", 2) == 1 {
		a, b = b, a
	}
	return a, b
}

// isIt: got is v itself: of its type, with its bytes, and with its later
// changes.
func isIt(got, v value.Value, msg string) {
	sym.Assert(got != nil && got.Kind() == v.Kind(), msg)
	switch x := v.(type) {
	case value.Number:
		sym.Assert(got.(value.Number).Type() == x.Type(), msg)
	case value.String:
		sym.Assert(got.(value.String).Type() == x.Type(), msg)
	}
	sym.Assert(sym.BytesEq(pack(got), pack(v)), msg)
	u := &change{to: value.Utf8("changed")}
	switch x := v.(type) {
	case value.List:
		sym.Assert(x.UpdateAt(0, u) == got.(value.List).UpdateAt(0, u), msg)
	case value.Map:
		sym.Assert(x.Update("a", u) == got.(value.Map).Update("a", u), msg)
	}
	sym.Assert(sym.BytesEq(pack(got), pack(v)), msg)
}

const notStored = "an equal value is stored instead of the given one"

func listTwins(l value.List) {
	a, b := twins()
	x := elem("x")
	at := sym.Choose("at", 3)
	for i := 0; i < 3; i++ {
		if i == at {
			l = l.Append(a)
		} else {
			l = l.Append(x)
		}
	}
	want := []value.Value{x, x, x}
	want[at] = a
	switch sym.Choose("op", 5) {
	case 0:
		l = l.PutAt(at, b)
		want[at] = b
	case 1:
		l = l.InsertAt(at, b)
		want = seqInsertAll(want, at, []value.Value{b})
	case 2:
		l = l.InsertAll(at, []value.Value{b, x, b})
		want = seqInsertAll(want, at, []value.Value{b, x, b})
	case 3:
		l = l.Append(b)
		want = append(want, b)
	default:
		l = l.RemoveAt(at).InsertAt(at, b)
		want[at] = b
	}
	l = l.Append(x)
	want = append(want, x)
	sym.Assert(l.Len() == len(want), "the length differs from the model")
	i := sym.Choose("i", len(want))
	switch sym.Choose("view", 3) {
	case 0:
		isIt(l.GetAt(i), want[i], notStored)
	case 1:
		isIt(l.Values()[i], want[i], notStored)
	default:
		isIt(l.Items()[i].Value(), want[i], notStored)
	}
}

func C11_Twins() { listTwins(value.EmptyImmutableList()) }
func C13_Twins() { listTwins(value.EmptyMutableList()) }

func mapTwins(m value.Map) {
	a, b := twins()
	x := elem("x")
	at := sym.Choose("at", 3)
	ks := []string{"b", "d", "f"}
	for i := 0; i < 3; i++ {
		if i == at {
			m = m.Put(ks[i], a)
		} else {
			m = m.Put(ks[i], x)
		}
	}
	k, n := ks[at], 1
	switch sym.Choose("op", 5) {
	case 0:
		m = m.Put(k, b)
	case 1:
		m = m.Insert(k, b)
		n = 2
	case 2:
		m = m.InsertAll(k, []value.Value{b, b})
		n = 3
	case 3:
		m = m.Remove(k).Put(k, b)
	default:
		m = m.DeleteAll(k).Insert(k, b)
	}
	sym.Assert(m.Len() == n+2 && len(m.Select(k)) == n, "the length differs from the model")
	if n > 1 {
		// what was there is after what is inserted
		isIt(m.Select(k)[n-1], a, notStored)
	}
	switch sym.Choose("view", 4) {
	case 0:
		isIt(m.Get(k), b, notStored)
	case 1:
		isIt(m.Values()[at], b, notStored)
	case 2:
		isIt(m.Entries()[at].Value(), b, notStored)
	default:
		isIt(m.Select(k)[0], b, notStored)
	}
}

func C12_Twins() { mapTwins(value.EmptyImmutableMap()) }
func C14_Twins() { mapTwins(value.EmptyMutableMap()) }

func C15_Twins() {
	fastAppends()
	a, b := twins()
	x := elem("x")
	l := value.EmptySparseList()
	at := sym.Choose("at", 3)
	for i := 0; i < 3; i++ {
		if i == at {
			l = l.PutAt(2*i, a)
		} else {
			l = l.PutAt(2*i, x)
		}
	}
	k, n := 2*at, 1
	switch sym.Choose("op", 5) {
	case 0:
		l = l.PutAt(k, b)
	case 1:
		l = l.InsertAt(k, b)
		n = 2
	case 2:
		l = l.InsertAll(k, []value.Value{b, b})
		n = 3
	case 3:
		l = l.RemoveAt(k).PutAt(k, b)
	default:
		l = l.DeleteAll(k).InsertAt(k, b)
	}
	sym.Assert(len(l.Items()) == n+2 && len(l.Select(k)) == n, "the length differs from the model")
	if n > 1 {
		isIt(l.Select(k)[n-1], a, notStored)
	}
	switch sym.Choose("view", 3) {
	case 0:
		isIt(l.GetAt(k), b, notStored)
	case 1:
		isIt(l.Items()[at].Value(), b, notStored)
	default:
		isIt(l.Select(k)[0], b, notStored)
	}
}

// an update with an equal value stores the new one
func C16_Twins() {
	fastAppends()
	a, b := twins()
	u := &change{to: b}
	x := elem("x")
	switch sym.Choose("collection", 5) {
	case 0:
		l := value.EmptyMutableList().Append(x).Append(a)
		updated2(l.UpdateAt(1, u), u)
		isIt(l.GetAt(1), b, notStored)
	case 1:
		m := value.EmptyMutableMap().Put("a", a).Put("b", x)
		updated2(m.Update("a", u), u)
		isIt(m.Get("a"), b, notStored)
	case 2:
		l := value.EmptySparseList().PutAt(3, a).PutAt(5, x)
		updated2(l.UpdateAt(3, u), u)
		isIt(l.GetAt(3), b, notStored)
	case 3:
		e := value.MutableEntry("k", a)
		updated2(e.Update(u), u)
		isIt(e.Value(), b, notStored)
	default:
		e := value.MutableItem(7, a)
		updated2(e.Update(u), u)
		isIt(e.Value(), b, notStored)
	}
	isIt(u.got, a, "the updater does not get the current value")
}

func updated2(ok bool, u *change) {
	sym.Assert(ok && u.calls == 1, "the update of an existing element returns false")
}
