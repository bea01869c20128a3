package props

import (
	"bytes"
	"io"
	"strconv"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// Collections far larger than the other harnesses use: the elements in the
// middle of nowhere are known, those at the ends and around the place of an
// operation are arbitrary. The sizes are those around which an implementation
// would do something else.

func largeSize(name string) int {
	sizes := []int{33, 65, 100, 129, 257, 513, 600, 1025, 2049}
	return sizes[sym.Choose(name, len(sizes)-2+2*sym.Tier())]
}

func largeElems(n int) []value.Value {
	s := make([]value.Value, n)
	for i := range s {
		s[i] = value.Long(int64(1000 + i))
	}
	s[0], s[n/2], s[n-1] = elem("first"), elem("middle"), elem("last")
	return s
}

func listLarge(immutable bool) {
	n := largeSize("n")
	m := largeElems(n)
	var l value.List
	if immutable {
		l = value.ImmutableList(seqCopy(m))
	} else {
		l = value.MutableList(seqCopy(m))
	}
	at := []int{0, 1, 5, n / 2, n - 2, n - 1, n, n + 1, -1}[sym.Choose("at", 9)]
	old, oldM := l, m
	l, m = listOpAt(l, m, sym.Choose("op", listOps), at)
	checkSeq(l, m)
	if immutable {
		lightSeq(old, oldM)
	}
}

func C11_Large() { listLarge(true) }
func C13_Large() { listLarge(false) }

func largeKey(i int) string { return "k" + strconv.Itoa(10000+i) }

// checkLargeMap is checkMap for many distinct keys.
func checkLargeMap(m value.Map, w multimap[string], probes ...string) {
	sym.Assert(m.Len() == len(w), "the length differs from the model")
	keys, vals, entries, hm := m.Keys(), m.Values(), m.Entries(), m.HashMap()
	sym.Assert(len(keys) == len(w) && len(vals) == len(w) && len(entries) == len(w), "a view differs from the model")
	distinct := 0
	for i, e := range w {
		sym.Assert(keys[i] == e.key && entries[i].Key() == e.key, "the keys differ from the model")
		sym.Assert(sameElem(vals[i], e.val) && sameElem(entries[i].Value(), e.val), "the values differ from the model")
		first := i == 0 || w[i-1].key != e.key
		if !first {
			continue
		}
		distinct++
		sym.Assert(sameElem(m.Get(e.key), e.val), "lookup differs from the model")
		if i+1 == len(w) || w[i+1].key != e.key {
			s := m.Select(e.key)
			sym.Assert(len(s) == 1 && sameElem(s[0], e.val), "the selection differs from the model")
			sym.Assert(sameElem(hm[e.key], e.val), "the hash map differs from the model")
		} else {
			sameElems(m.Select(e.key), w.vals(e.key), "the selection differs from the model")
		}
	}
	sym.Assert(len(hm) == distinct, "the hash map differs from the model")
	for _, k := range probes {
		sameElems(m.Select(k), w.vals(k), "the selection differs from the model")
	}
}

func largeMap(immutable bool, n int) (value.Map, multimap[string]) {
	var w multimap[string]
	entries := make([]value.MapEntry, n)
	for i, v := range largeElems(n) {
		k := largeKey(2 * i)
		w = append(w, mmEntry[string]{k, v})
		if immutable {
			entries[i] = value.ImmutableEntry(k, v)
		} else {
			entries[i] = value.MutableEntry(k, v)
		}
	}
	if immutable {
		return value.ImmutableMap(entries, true), w
	}
	return value.SortedMap(entries, true), w
}

func mapLarge(immutable bool) {
	n := largeSize("n")
	m, w := largeMap(immutable, n)
	at := []int{0, 1, 5, n / 2, n - 2, n - 1, n}[sym.Choose("at", 7)]
	k := largeKey(2*at - sym.Choose("between", 2))
	old, oldW := m, w
	m, w = mapOp(m, w, k)
	checkLargeMap(m, w, k)
	if immutable {
		lightMap(old, oldW)
	}
}

func C12_Large() { mapLarge(true) }
func C14_Large() { mapLarge(false) }

func C15_Large() {
	fastAppends()
	n := largeSize("n")
	w := multimap[int]{}
	var items []value.ListItem
	for i, v := range largeElems(n) {
		w = append(w, mmEntry[int]{2*i - 10, v})
		items = append(items, value.MutableItem(2*i-10, v))
	}
	l := value.SparseList(items, true)
	at := []int{0, 1, 5, n / 2, n - 2, n - 1, n}[sym.Choose("at", 7)]
	k := 2*at - 10 - sym.Choose("between", 2)
	l, w = sparseOp(l, w, k)
	got := l.Items()
	sym.Assert(len(got) == len(w), "the items differ from the model")
	sym.Assert(l.Len() == w[len(w)-1].key+1, "the length differs from the model")
	dense := l.Values()
	sym.Assert(len(dense) == l.Len(), "the number of values is not the length")
	for i, e := range w {
		sym.Assert(got[i].Key() == e.key && sameElem(got[i].Value(), e.val), "the items differ from the model")
		if i > 0 && w[i-1].key == e.key {
			continue
		}
		sym.Assert(sameElem(l.GetAt(e.key), e.val), "element access differs from the model")
		if i+1 == len(w) || w[i+1].key != e.key {
			s := l.Select(e.key)
			sym.Assert(len(s) == 1 && sameElem(s[0], e.val), "the selection differs from the model")
			if e.key >= 0 {
				sym.Assert(sameElem(dense[e.key], e.val), "the values differ from the model")
			}
		} else {
			sameElems(l.Select(e.key), w.vals(e.key), "the selection differs from the model")
		}
	}
	sameElems(l.Select(k), w.vals(k), "the selection differs from the model")
}

// an update in place, in large collections
func C16_Large() {
	n := largeSize("n")
	m := largeElems(n)
	at := []int{0, 1, n / 2, n - 1, n, -1}[sym.Choose("at", 6)]
	c := &change{to: elem("new")}
	var done bool
	var vals []value.Value
	switch sym.Choose("kind", 3) {
	case 0:
		l := value.MutableList(seqCopy(m))
		done = l.UpdateAt(at, c)
		vals = l.Values()
	case 1:
		l, _ := largeMap(false, n)
		m = l.Values()
		done = l.Update(largeKey(2*at), c)
		vals = l.Values()
	default:
		l := value.SparseListOf(m)
		done = l.UpdateAt(at, c)
		vals = l.Values()
	}
	in := at >= 0 && at < n
	sym.Assert(done == in, "an update reports something else than whether the element is there")
	sym.Assert(c.calls == map[bool]int{false: 0, true: 1}[in], "the updater is called another number of times")
	want := seqCopy(m)
	if in {
		sym.Assert(sameElem(c.got, m[at]), "the updater is given another value")
		want[at] = c.to
	}
	sameElems(vals, want, "an update changes something else")
}

// maps that are out of order in one place only
func C03_LargeOrder() {
	n := largeSize("n")
	ints := sym.Choose("ints", 2) == 1
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	switch sym.Choose("disorder", 6) {
	case 0: // none
	case 1:
		order[0], order[1] = 1, 0
	case 2:
		order[n-2], order[n-1] = n-1, n-2
	case 3:
		order[n/2], order[n/2-1] = n/2-1, n/2
	case 4: // the first one last
		copy(order, order[1:])
		order[n-1] = 0
	default:
		for i := range order {
			order[i] = n - 1 - i
		}
	}
	x := sym.U8("x") & 0x7f
	b := hdr(0xdf, uint64(n), 4)
	for _, i := range order {
		if ints {
			b = append(b, refLong(int64(i))...)
		} else {
			k := largeKey(i)
			b = append(append(b, refStr(uint64(len(k)))...), k...)
		}
		if i == 0 || i == n-1 {
			b = append(b, x)
		} else {
			b = append(b, refLong(int64(1000+i))...)
		}
	}
	v := decodeOK(b)
	value0 := func(i int) int64 {
		if i == 0 || i == n-1 {
			return int64(x)
		}
		return int64(1000 + i)
	}
	if ints {
		sym.Assert(v.Kind() == value.LIST, "integer keys do not give a list")
		items := v.(value.List).Items()
		sym.Assert(len(items) == n, "entries are lost")
		for i, it := range items {
			sym.Assert(it.Key() == i, "items are out of order")
			isLong(it.Value(), value0(i))
			isLong(v.(value.List).GetAt(i), value0(i))
		}
		return
	}
	sym.Assert(v.Kind() == value.MAP, "text keys do not give a map")
	entries := v.(value.Map).Entries()
	sym.Assert(len(entries) == n, "entries are lost")
	for i, e := range entries {
		sym.Assert(e.Key() == largeKey(i), "entries are out of order")
		isLong(e.Value(), value0(i))
		isLong(v.(value.Map).Get(e.Key()), value0(i))
	}
}

// however a large map is built, it is the same
func C08_Large() {
	n := largeSize("n")
	x := elem("x")
	mul := []int{1, 7, 101}[sym.Choose("scramble", 3)]
	for n%mul == 0 && mul > 1 {
		mul += 2
	}
	src := map[string]value.Value{}
	im, mu := make([]value.MapEntry, n), make([]value.MapEntry, n)
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1)
	for i := 0; i < n; i++ {
		j := n - 1 - i*mul%n
		v := value.Value(value.Long(int64(1000 + j)))
		if j == 0 || j == n/2 || j == n-1 {
			v = x
		}
		k := largeKey(j)
		src[k] = v
		im[i], mu[i] = value.ImmutableEntry(k, v), value.MutableEntry(k, v)
		if n <= 257 {
			m = m.Put(k, v)
		}
	}
	a := value.ImmutableMapOf(src)
	ascending(a)
	samePacked(a, value.SortedMapOf(src))
	samePacked(a, value.ImmutableMap(im, false))
	samePacked(a, value.SortedMap(mu, false))
	if n <= 257 {
		samePacked(a, m)
	}
}

// large collections that end too early
func C05_Large() {
	n := []int{129, 600, 1025, 257, 2049}[sym.Choose("n", 3+2*sym.Tier())]
	items := largeElems(n)
	var v value.Value
	per := 3
	switch sym.Choose("kind", 3) {
	case 0:
		v = value.ImmutableList(items)
	case 1:
		v, _ = largeMap(true, n)
		per = 10
	default:
		v = value.SparseListOf(items)
		per = 6
	}
	b := pack(v)
	var k int
	switch sym.Choose("where", 4) {
	case 0:
		k = len(b) - 1 - sym.Choose("cut", 2*per)
	case 1:
		k = 1 + sym.Choose("cut", 2*per)
	case 2:
		k = len(b)/2 + sym.Choose("cut", 2*per)
	default:
		k = len(b)*9/10 + sym.Choose("cut", 2*per)
	}
	rejected(b[:k:k])
}

// large values in streams, whole and cut off
func C22_Large() {
	n := []int{1000, 4096, 4097, 65535, 65536, 70000}[sym.Choose("n", 6)]
	data := make([]byte, n)
	data[0], data[n/2], data[n-1] = sym.U8("x"), sym.U8("y"), sym.U8("z")
	var v value.Value
	switch sym.Choose("kind", 4) {
	case 0:
		v = value.Raw(data, false)
	case 1:
		v = value.Utf8(string(data))
	case 2:
		v = value.Unknown(append([]byte{0x44}, data...))
	default:
		v = value.EmptyImmutableMap().Put("a", value.Raw(data, false))
	}
	vals := []value.Value{elem("before"), v, elem("after")}
	s := cat(pack(vals[0]), pack(v), pack(vals[2]))
	whole, cut := 3, len(s)
	if k := sym.Choose("cut", 6); k > 0 {
		whole = 1
		cut = 1 + []int{0, 1, 5, 100, n / 2, len(pack(v)) - 1}[k]
	}
	var fail error
	if sym.Choose("fail", 2) == 1 {
		fail = failure("failure")
	}
	c := chunks{data: s[:cut], fail: fail, step: []int{0, 999}[sym.Choose("step", 2)]}
	var r io.Reader = &c
	if sym.Choose("byte reader", 2) == 1 {
		r = &byteChunks{c}
	}
	got, err := readAll(r, len(vals))
	delivered(got, vals[:whole])
	if whole == 3 && fail == nil {
		sym.Assert(err == io.EOF, "a stream does not end with the end of input")
	} else {
		sym.Assert(err != nil && err != io.EOF, "an error inside a value is reported as the end of input")
	}
}

// rich is a reader that can do all that readers can do.
type rich struct {
	chunks
	noMore bool
}

func (r *rich) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 || off > int64(len(r.data)) {
		return 0, errReader
	}
	r.pos = int(off)
	return off, nil
}

func (r *rich) ReadAt(p []byte, off int64) (int, error) {
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (r *rich) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(r.data[r.pos:])
	r.pos += n
	return int64(n), err
}

func (r *rich) Len() int      { return len(r.data) - r.pos }
func (r *rich) Size() int64   { return int64(len(r.data)) }
func (r *rich) Buffered() int { return len(r.data) - r.pos }
func (r *rich) Bytes() []byte { return r.data[r.pos:] }
func (r *rich) Close() error  { r.pos = len(r.data); return nil }

func (r *rich) Peek(n int) ([]byte, error) {
	if n > r.Len() {
		return r.Bytes(), io.EOF
	}
	return r.data[r.pos : r.pos+n], nil
}

func (r *rich) Discard(n int) (int, error) {
	if n > r.Len() {
		n = r.Len()
	}
	r.pos += n
	return n, nil
}

func (r *rich) Next(n int) []byte {
	b, _ := r.Peek(n)
	r.pos += len(b)
	return b
}

// richBytes can read single bytes, and put them back, as well.
type richBytes struct{ rich }

func (r *richBytes) ReadByte() (byte, error) {
	if r.Len() == 0 {
		return 0, io.EOF
	}
	r.pos++
	return r.data[r.pos-1], nil
}

func (r *richBytes) UnreadByte() error { r.pos--; return nil }

func (r *richBytes) ReadRune() (rune, int, error) {
	b, err := r.ReadByte()
	return rune(b), 1, err
}

// readers of other kinds: exactly the message is taken from each of them
func C06_Kinds() {
	b := anyMessage("m")
	rest := []byte{0xc3, 7, 0xa1, 'x', 0xc0}
	s := cat(b, rest)
	var r io.Reader
	switch sym.Choose("reader", 9) {
	case 0:
		r = &rich{chunks: chunks{data: s}}
	case 1:
		r = &richBytes{rich{chunks: chunks{data: s}}}
	case 2:
		r = bytes.NewBuffer(s)
	case 3:
		r = bytes.NewReader(s)
	case 4:
		r = struct {
			io.Reader
			io.Seeker
		}{bytes.NewReader(s), nil}
	case 5:
		r = &io.LimitedReader{R: &chunks{data: s, step: 2}, N: int64(len(s))}
	case 6:
		r = io.NewSectionReader(bytes.NewReader(s), 0, int64(len(s)))
	case 7:
		var t bytes.Buffer
		r = io.TeeReader(&chunks{data: s}, &t)
	default:
		k := sym.Choose("at", 3)
		r = io.MultiReader(bytes.NewReader(s[:k]), bytes.NewReader(s[k:]))
	}
	w, werr := value.Unpack(b, true)
	v, err := value.Read(r)
	sameResult(v, err, w, werr)
	left, err := io.ReadAll(r)
	sym.Assert(err == nil && sym.BytesEq(left, rest), "reading does not consume exactly the message")
}

// the parser takes the size of any header as it is
func C27_AnyHeader() {
	kind := sym.Choose("kind", 4)
	width := []int{1, 2, 4}[sym.Choose("width", 3)]
	n := sym.U64("n")
	switch width {
	case 1:
		n &= 0xff
	case 2:
		n &= 0xffff
	default:
		n &= 0xffffffff
	}
	code := map[int][3]byte{0: {0xd9, 0xda, 0xdb}, 1: {0xc4, 0xc5, 0xc6}, 2: {0, 0xdc, 0xdd}, 3: {0, 0xde, 0xdf}}[kind][width/2]
	sym.Assume(code != 0)
	h := hdr(code, n, width)
	p := value.MessageParser()
	var got int
	switch kind {
	case 0:
		got = p.ParseStr(h)
	case 1:
		got = p.ParseBin(h)
	case 2:
		got = p.ParseList(h)
	default:
		got = p.ParseMap(h)
	}
	sym.Assert(p.Error() == nil && got == int(n), "a header is read as one of another size")
}

func C27_AnyExtHeader() {
	width := []int{1, 2, 4}[sym.Choose("width", 3)]
	n := sym.U64("n")
	switch width {
	case 1:
		n &= 0xff
	case 2:
		n &= 0xffff
	default:
		n &= 0xffffffff
	}
	h := append(hdr([3]byte{0xc7, 0xc8, 0xc9}[width/2], n, width), 9)
	p := value.MessageParser()
	got, _ := p.ParseExt(h)
	sym.Assert(p.Error() == nil && got == int(n), "a header is read as one of another size")
}

// numbers of many bytes parse back
func C20_Wide() {
	z := wideBig("z", wideSizes[sym.Choose("size", len(wideSizes))])
	exp := []int32{0, 1, -1, -0x1000000, 0x50000000}[sym.Choose("exp", 5)]
	v := value.BigInt(z)
	if exp != 0 {
		v = value.Decimal(decBig(z, exp))
	}
	r := parsesBack(v)
	d := r.Decimal()
	sym.Assert(d.Exponent() == exp && d.Coefficient().Cmp(z) == 0, "the text form of a number parses back to another one")
	sym.Assert(r.String() == v.String(), "printing what was parsed gives another text")
}

// messages far longer than a block of the cipher
func C24_Large() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	n := []int{1021, 4093, 4094, 8189, 16384, 65535, 65536}[sym.Choose("n", 7)]
	b := make([]byte, n)
	b[0], b[n/2], b[n-1] = sym.U8("b"), sym.U8("b"), sym.U8("b")
	v := value.Raw(b, false)
	enc := seal(v, bPub, aPriv)
	opens(enc, aPub, bPriv, v)
	at := []int{0, 23, 24, 40, n / 2, len(enc) - 1}[sym.Choose("at", 6)]
	d := sym.U8("d")
	sym.Assume(d != 0)
	enc[at] ^= d
	closed(enc, aPub, bPriv)
	enc[at] ^= d
	closed(enc[:len(enc)-1-sym.Choose("cut", 3)], aPub, bPriv)
}
