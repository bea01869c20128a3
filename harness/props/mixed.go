package props

import (
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// keys of mixed lengths, in order
var mixedKeys = []string{"", "\x00", "a", "a\x00", "aa", "aab", "ab", "b", "ba", "c", "cccc", "d", "dd", "e", "\xc3\xa9", "\xff"}

// mapMixed: one operation at any key of up to three bytes on a map of keys of
// mixed lengths.
func mapMixed(immutable bool) {
	window := [][2]int{{0, 4}, {2, 7}, {0, 15}, {1, 16}, {8, 13}, {3, 6}}[sym.Choose("keys", 4+2*sym.Tier())]
	var m value.Map = value.EmptyMap(immutable)
	var w multimap[string]
	dup := sym.Choose("twice", 2) == 1
	for i, k := range mixedKeys[window[0]:window[1]] {
		v := value.Long(int64(1000 + i))
		m, w = m.Put(k, v), w.put(k, v)
		if dup && i%3 == 1 {
			v = value.Long(int64(2000 + i))
			m, w = m.Insert(k, v), w.insertAll(k, []value.Value{v})
		}
	}
	k := sym.Str("k", sym.Choose("len", 4))
	old, oldW := m, w
	m, w = mapOp(m, w, k)
	checkMap(m, w, k)
	if immutable {
		checkMap(old, oldW, k)
	}
}

func C12_Mixed() { mapMixed(true) }
func C14_Mixed() { mapMixed(false) }

// a text or key with any byte in it, deep inside of a long document
func C19_Context() {
	n := []int{0, 33, 65, 129, 300, 5000, 1, 15, 31, 40, 63, 100, 257, 1025}[sym.Choose("before", 6+8*sym.Tier())]
	pad := value.Utf8(strings.Repeat("x", n))
	s := sym.Str("s", 1)
	if sym.Choose("around", 2) == 1 {
		s = "a" + s + "b"
	}
	one, t := value.Long(1), value.Utf8(s)
	var in value.Value
	switch sym.Choose("what", 9) {
	case 0:
		in = value.EmptyMutableMap().Put(s, t)
	case 1:
		in = value.EmptyImmutableMap().Put(s, t)
	case 2:
		in = value.EmptyMutableMap().Put("", one).Put(s, one)
	case 3:
		in = value.EmptyImmutableMap().Put("", one).Put(s, one)
	case 4:
		in = value.Tuple(t)
	case 5:
		in = value.ImmutableList([]value.Value{one, t, t})
	case 6:
		in = value.EmptySparseList().PutAt(0, t).PutAt(9, t)
	case 7:
		in = value.EmptyMutableMap().Put("k", one).Put("l", t)
	default:
		in = t
	}
	depth := sym.Choose("depth", 3)
	if n > 300 {
		sym.Assume(depth == 1)
	}
	for i := 0; i < depth; i++ {
		switch (i + depth) % 3 {
		case 0:
			in = value.Tuple(one, in)
		case 1:
			in = value.EmptyMutableMap().Put("k", in)
		default:
			in = value.EmptySparseList().PutAt(3, in)
		}
	}
	var v value.Value
	switch sym.Choose("behind", 4) {
	case 0:
		v = value.ImmutableList([]value.Value{pad, in})
	case 1:
		v = value.EmptyMutableMap().Put("a", pad).Put("b", in)
	case 2:
		v = value.EmptyImmutableMap().Put("a"+pad.Utf8(), in)
	default:
		v = value.EmptySparseList().PutAt(0, pad).PutAt(1, in)
	}
	jsonIs(jsonOf(v), v)
}

// streams of values of all kinds
func C22_Mixed() {
	n := []int{14, 33, 100, 129, 257, 1000}[sym.Choose("n", 6)]
	kinds := []value.Value{value.Null, value.True, nil, value.Utf8("t"), value.Long(-5), elem("x"), value.Raw([]byte{1}, false), value.EmptyImmutableList(), value.Double(2.5),
		value.EmptyMutableMap(), value.Unknown([]byte{0x81, 3}), value.EmptySparseList().PutAt(4, value.Null), value.BigInt(bigOf(7)), value.Tuple(nil, value.False), value.Utf8(""),
		value.EmptyImmutableMap().Put("k", value.One)}
	shift := sym.Choose("shift", 3) * 5
	vals := make([]value.Value, n)
	for i := range vals {
		vals[i] = kinds[(i+shift)%len(kinds)]
	}
	data := written(vals)
	var want []byte
	for _, v := range vals {
		want = append(want, pack(v)...)
	}
	sym.Assert(sym.BytesEq(data, want), "a stream is not the packed values one after another")
	got, err := readAll(&chunks{data: data, step: 7}, n)
	delivered(got, vals)
	sym.Assert(err != nil && err.Error() == "EOF", "a stream does not end with the end of input")
}

// large collections that differ in nothing, or in one place
func C17_Large() {
	n := []int{4, 17, 33, 65, 257, 1025}[sym.Choose("n", 6)]
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	x, y := elem("x"), elem("y")
	kind := sym.Choose("kind", 8)
	other := sym.Choose("difference", 4) // none but x and y, a key, one more, two swapped
	build := func(first bool) value.Value {
		keys, vals := make([]int, n), make([]value.Value, n)
		for i := range keys {
			keys[i], vals[i] = 3*i, value.Long(int64(1000+i))
		}
		vals[at] = x
		if !first {
			vals[at] = y
			switch other {
			case 1:
				keys[at]++
			case 2:
				keys, vals = append(keys, 3*n), append(vals, value.Null)
			case 3:
				vals[0], vals[n-1] = vals[n-1], vals[0]
			}
		}
		// 0, 1: lists; 2, 3: maps; 5: sparse lists; 4, 6, 7: sides of two kinds
		switch {
		case kind == 0 || kind == 4 && first:
			return value.ImmutableList(vals)
		case kind == 1 || kind == 4:
			return value.MutableList(vals)
		case kind == 2 || kind == 3 || kind == 6:
			entries := make([]value.MapEntry, len(keys))
			for i, k := range keys {
				entries[i] = value.ImmutableEntry(largeKey(k), vals[i])
			}
			if kind == 2 || kind == 6 && first {
				return value.ImmutableMap(entries, true)
			}
			return value.SortedMap(entries, true)
		default:
			items := make([]value.ListItem, len(keys))
			for i, k := range keys {
				items[i] = value.MutableItem(k, vals[i])
				if kind == 7 && first {
					items[i] = value.ImmutableItem(k, vals[i])
				}
			}
			return value.SparseList(items, true)
		}
	}
	a, b := build(true), build(false)
	keyed := kind != 0 && kind != 1 && kind != 4
	same := other == 0 || other == 1 && !keyed
	got := value.Equal(a, b)
	sym.Assert(got == value.Equal(b, a), "comparison is not symmetric")
	switch {
	case other == 3:
		// at is one of the swapped ones, or the elements at both ends differ
		if at != 0 && at != n-1 {
			sym.Assert(!got, "different collections are equal")
		} else {
			far := value.Long(1000)
			if at == 0 {
				far = value.Long(int64(1000 + n - 1))
			}
			sym.Assert(got == sym.And(value.Equal(x, far), value.Equal(y, far)), "swapped elements are not noticed")
		}
	case !same:
		sym.Assert(!got, "different collections are equal")
	default:
		sym.Assert(got == value.Equal(x, y), "collections that differ in one element compare otherwise than the element")
	}
	sym.Assert(value.Equal(a, a) && value.Equal(b, b), "a collection is not equal to itself")
}

// collections of many elements
func C19_Large() {
	n := []int{4, 9, 16, 17, 33, 65, 129, 300}[sym.Choose("n", 8)]
	vals := make([]value.Value, n)
	for i := range vals {
		vals[i] = []value.Value{value.Long(int64(i)), value.Null, value.Utf8("a\"b"), value.True, nil, value.Tuple(), value.Double(1.5), value.Raw([]byte{byte(i)}, false), value.EmptyMutableMap(), value.Double(math.Inf(1))}[i%10]
	}
	vals[n/2] = elem("middle")
	vals[n-1] = value.Utf8(sym.Str("last", 1))
	var v value.Value
	kind := sym.Choose("kind", 7)
	switch kind {
	case 0:
		v = value.ImmutableList(vals)
	case 1:
		v = value.MutableList(vals)
	case 2, 3:
		m := value.EmptyMap(kind == 2)
		for i, e := range vals {
			m = m.Put("key\t"+strconv.Itoa(i), e)
		}
		v = m
	case 4, 5:
		l := value.EmptySparseList()
		for i, e := range vals {
			l = l.PutAt(i*(kind-3)-3, e)
		}
		v = l
	default:
		m := value.EmptyImmutableMap()
		for _, e := range vals {
			m = m.Insert("k", e)
		}
		v = m
	}
	jsonIs(jsonOf(v), v)
}

// collections of many elements are read, and changed versions made, without a race
func C25_Large() {
	n := []int{9, 17, 33, 65, 129, 300}[sym.Choose("n", 6)]
	var v value.Value
	vals := make([]value.Value, n)
	var m multimap[string]
	for i := range vals {
		vals[i] = value.Long(int64(i))
		m = append(m, mmEntry[string]{largeKey(i), vals[i]})
	}
	vals[n-1] = value.Long(int64(sym.U8("e") & 7))
	kind := sym.Choose("kind", 6)
	switch kind {
	case 0:
		v = value.ImmutableList(vals)
	case 1:
		v = value.MutableList(vals)
	case 2, 3:
		w := value.EmptyMap(kind == 2)
		for i, e := range vals {
			w = w.Put(largeKey(i), e)
		}
		v = w
	case 4:
		l := value.EmptySparseList()
		for i, e := range vals {
			l = l.PutAt(2*i, e)
		}
		v = l
	default:
		var entries []value.MapEntry
		for i := n - 1; i >= 0; i-- {
			entries = append(entries, value.MutableEntry(largeKey(i), vals[i]))
		}
		v = value.ImmutableMap(entries, false)
	}
	at := []int{0, n / 2, n - 1, n, n + 5}[sym.Choose("at", 5)]
	sym.ReadOnly(func() {
		readOps(v)
		switch x := v.(type) {
		case value.List:
			touchAt(x, at)
			if kind == 0 {
				x.PutAt(at, value.True)
				x.InsertAt(at, value.True)
				x.RemoveAt(at)
				x.Append(value.True).Append(value.False)
				x.InsertAll(at, []value.Value{value.True, value.False})
				x.DeleteAll(at)
			}
		case value.Map:
			k := largeKey(at)
			x.Get(k)
			if kind == 2 || kind == 5 {
				x.Put(k, value.True)
				x.Insert(k, value.True)
				x.Remove(k)
				x.InsertAll(k, []value.Value{value.True, value.False})
				x.DeleteAll(k)
			}
		}
	})
}

// kindsCollection has elements of one kind, or of all kinds.
func kindsCollection() value.Value {
	rainbowOn()
	rainbowPlain = true
	n := []int{1, 4, 6, 2, 3}[sym.Choose("n", 2+3*sym.Tier())]
	one := sym.Choose("one kind", 2) == 1
	first := rainbowAt
	vals := make([]value.Value, n)
	for i := range vals {
		if one {
			rainbowAt = first
		}
		vals[i] = nextKind()
	}
	switch sym.Choose("collection", 5) {
	case 0:
		return value.ImmutableList(vals)
	case 1:
		m := value.EmptyMutableMap()
		for i, e := range vals {
			m = m.Put(string([]byte{'a' + byte(i)}), e)
		}
		return m
	case 2:
		l := value.EmptySparseList()
		for i, e := range vals {
			l = l.PutAt(i, e)
		}
		return l
	case 3:
		return value.Tuple(value.Null, value.ImmutableList(vals), value.Null)
	}
	return value.EmptyImmutableMap().Put("a", value.ImmutableList(vals)).Put("b", value.Null)
}

// cut off anywhere
func C05_Kinds() {
	b := pack(kindsCollection())
	k := sym.Choose("cut", len(b))
	rejected(b[:k:k])
}

// read in pieces of any size
func C06_Elements() {
	b := pack(kindsCollection())
	s := cat(b, []byte{0xc3, 7}, b)
	w, werr := value.Unpack(b, true)
	var r io.Reader
	c := chunks{data: s, step: 1 + sym.Choose("step", 5), withEOF: sym.Choose("end with data", 2) == 1}
	if sym.Choose("byte reader", 2) == 1 {
		r = &byteChunks{c}
	} else {
		r = &c
	}
	v, err := value.Read(r)
	sameResult(v, err, w, werr)
	v, err = value.Read(r)
	sym.Assert(err == nil && v == value.True, "another value follows")
	v, err = value.Read(r)
	sym.Assert(err == nil && v.Kind() == value.NUMBER, "another value follows")
	v, err = value.Read(r)
	sameResult(v, err, w, werr)
	_, err = value.Read(r)
	sym.Assert(err == io.EOF, "a stream does not end")
}

// a writer that fails at any byte
func C09_Elements() {
	v := kindsCollection()
	b := pack(v)
	w := &brokenWriter{room: sym.Choose("room", len(b)+1), partial: sym.Choose("partial", 2) == 1, err: io.ErrClosedPipe}
	err := value.Write(w, v)
	if w.failed {
		sym.Assert(err == io.ErrClosedPipe, "the error of the writer is lost")
	} else {
		sym.Assert(err == nil && len(w.data) == len(b), "something is not written")
	}
	sym.Assert(len(w.data) <= len(b) && sym.BytesEq(w.data, b[:len(w.data)]), "something else is written")
}

// streams of them, cut off anywhere
func C22_CutElements() {
	v := kindsCollection()
	b := pack(v)
	vals := []value.Value{value.One, v, value.Null, v}
	s := written(vals)
	k := sym.Choose("cut", len(s))
	whole := 0
	for at := 0; whole < len(vals); whole++ {
		at += len(pack(vals[whole]))
		if at > k {
			break
		}
	}
	regular := k == 0 || k == 1 || k == 1+len(b) || k == 2+len(b)
	var r io.Reader = &chunks{data: s[:k], step: 3}
	if sym.Choose("byte reader", 2) == 1 {
		r = &byteChunks{chunks{data: s[:k]}}
	}
	got, err := readAll(r, len(vals))
	delivered(got, vals[:whole])
	if regular {
		sym.Assert(err == io.EOF, "a stream does not end with the end of input")
	} else {
		sym.Assert(err != nil && err != io.EOF, "a stream that is cut off ends like a whole one")
	}
}
