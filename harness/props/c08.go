package props

import (
	"encoding/hex"
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

func sameBytes(a, b value.Value) {
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "equal content packs to different bytes")
	sym.Assert(value.Jsonify(a) == value.Jsonify(b), "equal content has different JSON forms")
	sym.Assert(value.Equal(a, b) && value.Equal(b, a), "equal content is not equal")
}

func ascending(m value.Map) {
	k := m.Keys()
	for i := 1; i < len(k); i++ {
		sym.Assert(k[i-1] <= k[i], "keys are not in ascending order")
	}
	for i, e := range m.Entries() {
		sym.Assert(e.Key() == k[i], "entries and keys are not in the same order")
	}
}

// distinctKeys are n different keys of up to two bytes.
func distinctKeys(n int) []string {
	keys := make([]string, n)
	long := -1
	if n > 2 && sym.Tier() == 0 {
		long = sym.Choose("long", n+1)
	}
	for i := range keys {
		if long < 0 {
			keys[i] = sym.Str("key", sym.Choose("key.len", 3))
		} else if long == i {
			keys[i] = sym.Str("key", 2)
		} else {
			keys[i] = sym.Str("key", sym.Choose("key.len", 2))
		}
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
	}
	return keys
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// from Go maps, whatever their iteration order
func C08_MapOf() {
	sym.MapOrders(true)
	n := sym.Choose("n", 4)
	keys := distinctKeys(n)
	src := map[string]value.Value{}
	ref := value.EmptyImmutableMap()
	for _, k := range keys {
		v := elem("v")
		src[k] = v
		ref = ref.Put(k, v)
	}
	var m value.Map
	if sym.Choose("mutable", 2) == 1 {
		m = value.SortedMapOf(src)
	} else {
		m = value.ImmutableMapOf(src)
	}
	ascending(m)
	sym.Assert(m.Len() == n, "a map has another number of entries than its source")
	sym.Assert(sym.BytesEq(pack(m), pack(ref)), "equal content packs to different bytes")
}

// the same map twice
func C08_MapOfTwice() {
	sym.MapOrders(true)
	src := map[string]value.Value{"a": elem("v"), sym.Str("key", 1): elem("v"), "bb": value.True}
	a, b := value.ImmutableMapOf(src), value.SortedMapOf(src)
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "equal content packs to different bytes")
	sym.Assert(value.Jsonify(a) == value.Jsonify(b), "equal content has different JSON forms")
}

func putAll(m value.Map, keys []string, vals []value.Value, perm []int, insert bool) value.Map {
	for _, i := range perm {
		if insert {
			m = m.Insert(keys[i], vals[i])
		} else {
			m = m.Put(keys[i], vals[i])
		}
	}
	return m
}

func C08_InsertionOrder() {
	keys := distinctKeys(3)
	vals := elems("v", 3)
	perm := perms3[sym.Choose("perm", len(perms3))]
	m := putAll(value.EmptyMap(sym.Choose("immutable", 2) == 1), keys, vals, perm, sym.Choose("insert", 2) == 1)
	ref := putAll(value.EmptyImmutableMap(), keys, vals, perms3[0], false)
	ascending(m)
	samePacked(m, ref)
}

func samePacked(a, b value.Value) {
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "equal content packs to different bytes")
	sym.Assert(value.Equal(a, b) && value.Equal(b, a), "equal content is not equal")
}

func C08_EntryOrder() {
	keys := distinctKeys(3)
	vals := elems("v", 3)
	perm := perms3[sym.Choose("perm", len(perms3))]
	entries := make([]value.MapEntry, 3)
	kind := sym.Choose("kind", 4)
	for i, k := range perm {
		if kind%2 == 0 {
			entries[i] = value.ImmutableEntry(keys[k], vals[k])
		} else {
			entries[i] = value.MutableEntry(keys[k], vals[k])
		}
	}
	var m value.Map
	if kind < 2 {
		m = value.ImmutableMap(entries, false)
	} else {
		m = value.SortedMap(entries, false)
	}
	ascending(m)
	samePacked(m, putAll(value.EmptyImmutableMap(), keys, vals, perms3[0], false))
}

// longer ones are sorted in another way
func C08_ManyEntries() {
	sym.MapOrders(false)
	n := []int{12, 13, 20, 60}[sym.Choose("n", 4)]
	step := []int{1, 7, 11, -1}[sym.Choose("order", 4)]
	key := func(i int) string { return string([]byte{'k', byte('0' + i/10), byte('0' + i%10)}) }
	entries := make([]value.MapEntry, n)
	items := make([]value.ListItem, n)
	src := map[string]value.Value{}
	ref := value.EmptyMutableMap()
	sref := value.EmptySparseList()
	x := elem("x")
	for i := 0; i < n; i++ {
		k := ((i*step)%n + n) % n
		v := value.Value(value.Long(int64(k)))
		if k == 3 {
			v = x
		}
		entries[i] = value.ImmutableEntry(key(k), v)
		items[i] = value.ImmutableItem(k, v)
	}
	sym.Assume(n%7 != 0 && n%11 != 0)
	for i := 0; i < n; i++ {
		v := value.Value(value.Long(int64(i)))
		if i == 3 {
			v = x
		}
		src[key(i)] = v
		ref = ref.Put(key(i), v)
		sref = sref.PutAt(i, v)
	}
	var m value.Value
	switch sym.Choose("kind", 5) {
	case 0:
		m = value.ImmutableMap(entries, false)
	case 1:
		m = value.SortedMap(entries, false)
	case 2:
		m = value.ImmutableMapOf(src)
	case 3:
		m = value.SortedMapOf(src)
	default:
		sameBytes(value.SparseList(items, false), sref)
		return
	}
	ascending(m.(value.Map))
	sameBytes(m, ref)
}

func C08_SparseOrder() {
	var keys [3]int
	for i := range keys {
		keys[i] = int(int8(sym.U8("key")))
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
	}
	vals := elems("v", 3)
	build := func(perm []int, how int) value.Value {
		if how == 2 {
			var items []value.ListItem
			for _, i := range perm {
				items = append(items, value.MutableItem(keys[i], vals[i]))
			}
			return value.SparseList(items, false)
		}
		l := value.EmptySparseList()
		for _, i := range perm {
			if how == 0 {
				l = l.PutAt(keys[i], vals[i])
			} else {
				l = l.InsertAt(keys[i], vals[i])
			}
		}
		return l
	}
	a := build(perms3[sym.Choose("perm", len(perms3))], sym.Choose("how", 3))
	b := build(perms3[0], 0)
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "equal content packs to different bytes")
	sym.Assert(value.Equal(a, b), "equal content is not equal")
	it := a.(value.List).Items()
	for i := 1; i < len(it); i++ {
		sym.Assert(it[i-1].Key() < it[i].Key(), "indexes are not in ascending order")
	}
}

// mutability
func C08_Mutability() {
	n := sym.Choose("n", 4)
	items := make([]value.Value, n)
	im, mm := value.EmptyImmutableMap(), value.EmptyMutableMap()
	for i := range items {
		items[i] = shortElem("e")
		k := sym.Str("k", 1)
		im, mm = im.Insert(k, items[i]), mm.Insert(k, items[i])
	}
	a, b := value.ImmutableList(items), value.MutableList(items)
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "mutability changes the packed form")
	sym.Assert(sym.BytesEq(pack(im), pack(mm)), "mutability changes the packed form")
	for _, v := range []value.Value{value.Tuple(items...), value.ImmutableMapCopyOf(mm), value.SortedMapCopyOf(im)} {
		if v.Kind() == value.LIST {
			sym.Assert(sym.BytesEq(pack(v), pack(a)), "equal content packs to different bytes")
		} else {
			sym.Assert(sym.BytesEq(pack(v), pack(im)), "equal content packs to different bytes")
		}
	}
	sym.Assert(value.ImmutableItem(3, nil).Equal(value.MutableItem(3, nil)), "mutability matters to items")
}

func C08_MutabilityJSON() {
	v, w := shortElem("v"), value.Str("x")
	k := sym.Str("k", 1)
	sym.Assume(k != "a")
	sameBytes(value.ImmutableList([]value.Value{v, w}), value.MutableList([]value.Value{v, w}))
	sameBytes(value.EmptyImmutableMap().Put(k, v).Put("a", w), value.EmptyMutableMap().Put("a", w).Put(k, v))
}

// all ways to serialize, repeated
func C08_AllForms() {
	registerHash()
	v := anyValue("v")
	p := append([]byte(nil), pack(v)...)
	for i := 0; i < 2; i++ {
		sym.Assert(sym.BytesEq(pack(v), p), "packing again gives other bytes")
		b, err := v.MarshalBinary()
		sym.Assert(err == nil && sym.BytesEq(b, p), "marshalling gives other bytes than packing")
		w := &sliceWriter{}
		sym.Assert(value.Write(w, v) == nil && sym.BytesEq(w.data, p), "writing gives other bytes than packing")
		sym.Assert(value.Hex(v) == hex.EncodeToString(p), "the hexadecimal form is not that of the packed bytes")
		d, h, err := value.Hash(v, testHash)
		sym.Assert(err == nil && sym.BytesEq(d, p), "hashing gives other data than packing")
		ref := &sumHash{}
		ref.Write(p)
		sym.Assert(sym.BytesEq(h, ref.Sum(nil)), "the hash is not that of the packed bytes")
		w = &sliceWriter{}
		pk := value.MessagePacker(w)
		v.Pack(pk)
		sym.Assert(pk.Error() == nil && sym.BytesEq(w.data, p), "the packer gives other bytes")
	}
}

func C08_NilForms() {
	registerHash()
	p := []byte{0xc0}
	w := &sliceWriter{}
	sym.Assert(value.Write(w, nil) == nil && sym.BytesEq(w.data, p), "nil is not written as nil")
	sym.Assert(sym.BytesEq(pack(nil), p) && value.Hex(nil) == "c0" && value.Jsonify(nil) == "null", "nil is not packed as nil")
	d, _, err := value.Hash(nil, testHash)
	sym.Assert(err == nil && sym.BytesEq(d, p), "nil is not hashed as nil")
	sym.Assert(value.Equal(nil, value.Boolean(sym.Bool("b"))) == false, "nil equals a boolean")
}

// big numbers that were computed in different ways
func C08_Numbers() {
	x, y := anyBig("x"), anyBig("y")
	a := value.BigInt(x).Add(value.BigInt(y))
	b := value.BigInt(y).Add(value.BigInt(x))
	sameBytesOnly(a, b)
	sameBytesOnly(value.BigInt(x), a.Subtract(value.BigInt(y)))
}

func sameBytesOnly(a, b value.Value) {
	sym.Assert(sym.BytesEq(pack(a), pack(b)), "equal content packs to different bytes")
	sym.Assert(a.String() == b.String(), "equal content has different text forms")
}

// the hash of a long value is that of all its bytes
func C08_HashOfLong() {
	registerHash()
	size := []int{0, 1, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 5000}[sym.Choose("size", 19)]
	v := value.Raw([]byte(strings.Repeat("x", size)+sym.Str("end", 1)), false)
	if sym.Choose("in a list", 2) == 1 {
		l := value.Value(value.Tuple(v, elem("e")))
		hashOf(l)
		return
	}
	hashOf(v)
}

func hashOf(v value.Value) {
	data, sum, err := value.Hash(v, testHash)
	sym.Assert(err == nil, "a value is not hashed")
	want := pack(v)
	sym.Assert(sym.BytesEq(data, want), "other bytes are hashed than those of the value")
	h := new(sumHash)
	h.Write(want)
	sym.Assert(sym.BytesEq(sum, h.Sum(nil)), "the hash is not that of the bytes of the value")
}

// several entries of one key keep their order, wherever the others stand
func C08_EqualKeys() {
	n := []int{3, 12, 13, 20, 33, 50}[sym.Choose("n", 6)]
	every := []int{2, 3, 5}[sym.Choose("every", 3)]
	kind := sym.Choose("kind", 3)
	const dup = 25
	x := elem("x")
	var others []int
	for i := 0; i < n; i++ {
		if i%every != 0 {
			others = append(others, i+sym.IteInt(i >= dup, 1, 0))
		}
	}
	var want []value.Value
	var made [2]value.Value
	for down := range made {
		var entries []value.MapEntry
		var items []value.ListItem
		want = nil
		for i, o := 0, 0; i < n; i++ {
			k, v := dup, value.Value(value.Long(int64(i)))
			if i == 0 {
				v = x
			}
			if i%every == 0 {
				want = append(want, v)
			} else {
				k = others[o]
				if down == 1 {
					k = others[len(others)-1-o]
				}
				o++
				v = value.Long(int64(k))
			}
			entries = append(entries, value.MutableEntry(string([]byte{'a' + byte(k/10), '0' + byte(k%10)}), v))
			items = append(items, value.MutableItem(k, v))
		}
		var got []value.Value
		switch kind {
		case 0:
			m := value.ImmutableMap(entries, false)
			got, made[down] = m.Select("c5"), m
		case 1:
			m := value.SortedMap(entries, false)
			got, made[down] = m.Select("c5"), m
		default:
			l := value.SparseList(items, false)
			got, made[down] = l.Select(dup), l
		}
		sameElems(got, want, "the entries of a key are in another order than supplied")
	}
	sameBytes(made[0], made[1])
}
