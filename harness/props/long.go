package props

import (
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// Texts far longer than the other harnesses use: one byte of unknown value at
// the start, in the middle or at the end of a run of equal ones. Code that
// treats long texts in another way (a fast path, a fixed buffer, a word at a
// time) has the sizes around which it would do so.

var longSizes = []int{15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 5000}

// longText has a length of longSizes and n unknown bytes.
func longText(name string, n int) string {
	size := longSizes[sym.Choose(name+".size", len(longSizes))]
	s := sym.Str(name, n)
	var at int
	switch sym.Choose(name+".at", 4) {
	case 0:
		at = 0
	case 1:
		at = size / 2
	case 2:
		at = size - n
	default:
		at = size - n - 8 // ends with a whole word behind the unknown bytes
		if at < 0 {
			at = 1
		}
	}
	return strings.Repeat("x", at) + s + strings.Repeat("x", size-at-n)
}

func C19_LongText() {
	v := value.Utf8(longText("s", 1+sym.Tier()))
	jsonIs(jsonOf(v), v)
}

func C19_LongKey() {
	v := value.EmptyImmutableMap().Put(longText("k", 1), value.True)
	jsonIs(jsonOf(v), v)
}

func C19_LongRaw() {
	v := value.Raw([]byte(longText("b", 1)), false)
	jsonIs(jsonOf(v), v)
}

func C19_LongUnknown() {
	v := value.Unknown([]byte("\x07" + longText("b", 1)))
	jsonIs(jsonOf(v), v)
}

// equality of long texts is that of their bytes
func C17_LongText() {
	a := longText("a", 1)
	at := strings.IndexByte(a, 'x')
	b := []byte(a)
	switch sym.Choose("differ", 4) {
	case 0:
		at = 0
	case 1:
		at = len(b) / 2
	case 2:
		at = len(b) - 1
	default:
		at = len(b) - 9
		if at < 0 {
			at = 1
		}
	}
	b[at] = sym.U8("other")
	same := sym.StrEq(a, string(b))
	sym.Assert(eq(value.Utf8(a), value.Utf8(string(b))) == same, "long texts compare wrongly")
	sym.Assert(eq(value.Raw([]byte(a), false), value.Raw(b, false)) == same, "long bytes compare wrongly")
	sym.Assert(eq(value.Utf8(a), value.Raw(b, false)) == same, "a long text compares wrongly to bytes")
	sym.Assert(eq(value.Unknown([]byte("\x07"+a)), value.Unknown([]byte("\x07"+string(b)))) == same, "long extensions compare wrongly")
	m := func(k string) value.Value { return value.EmptyImmutableMap().Put(k, value.True) }
	sym.Assert(eq(m(a), m(string(b))) == same, "maps of long keys compare wrongly")
	// one a prefix of the other
	c := a + "x"
	sym.Assert(!eq(value.Utf8(a), value.Utf8(c)) && !eq(m(a), m(c)), "a text equals a longer one")
	sym.Assert(!eq(value.Raw([]byte(a), false), value.Raw([]byte(c), false)), "bytes equal longer ones")
}

// what is read from a collection is the text put there
func C18_LongText() {
	s := longText("s", 1)
	v := value.Value(value.Utf8(s))
	if sym.Choose("raw", 2) == 1 {
		v = value.Raw([]byte(s), true)
	}
	g := holding(v)
	got := g.str()
	sym.Assert(got != nil && sym.StrEq(got.Utf8(), s), "the text got is another")
	sym.Assert(sym.BytesEq(got.Raw(), []byte(s)), "the bytes got are others")
	sym.Assert(got.Len() == len(s), "the length of the text got is another")
	sym.Assert(sym.StrEq(got.String(), v.String()), "the text form is another")
}

// the text form of long bytes parses back
func C20_LongRaw() {
	b := []byte(longText("b", 1))
	v := value.Raw(b, sym.Choose("copy", 2) == 1)
	r := value.ParseString(v.String())
	sym.Assert(r.Type() == value.RAW, "the text form of bytes parses back to a string of another type")
	sym.Assert(sym.BytesEq(r.Raw(), b), "the text form of bytes parses back to other bytes")
	s := string(b)
	t := value.ParseString(s)
	sym.Assert(t.Type() == value.UTF8 && sym.StrEq(t.Utf8(), s), "a long text parses as something else")
}

// long texts survive the round trip, as values and as keys, and are packed in
// the shortest form
func C01_LongText() {
	s := longText("s", 1)
	switch sym.Choose("as", 3) {
	case 0:
		v := value.Utf8(s)
		r := roundTrip(v)
		sym.Assert(r.Kind() == value.STRING && sym.StrEq(r.(value.String).Utf8(), s), "a text changes in the round trip")
	case 1:
		v := value.Raw([]byte(s), false)
		r := roundTrip(v)
		sym.Assert(r.Kind() == value.STRING && sym.BytesEq(r.(value.String).Raw(), []byte(s)), "bytes change in the round trip")
	default:
		v := value.EmptyImmutableMap().Put(s, value.True).Put("a", value.Null).Put("z"+s, value.False)
		r := roundTrip(v)
		sym.Assert(r.Kind() == value.MAP, "a map changes its kind in the round trip")
		want, got := v.Entries(), r.(value.Map).Entries()
		sym.Assert(len(got) == 3, "a map has another number of entries after the round trip")
		for i := range want {
			sym.Assert(sym.StrEq(got[i].Key(), want[i].Key()), "a key changes in the round trip")
			sym.Assert(same(got[i].Value(), want[i].Value()), "a value changes in the round trip")
		}
	}
}

// keys with a long common start
func longKeys() (string, string) {
	size := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 300}[sym.Choose("common", 15)]
	p := strings.Repeat("k", size)
	a, b := p+sym.Str("a", 1), p+sym.Str("b", 1)
	sym.Assume(!sym.StrEq(a, b))
	return a, b
}

func C08_LongKeys() {
	a, b := longKeys()
	c := a[:len(a)-1] // before both
	x, y, z := elem("x"), elem("y"), elem("z")
	m := value.EmptyImmutableMap().Put(a, x).Put(b, y).Put(c, z)
	n := value.EmptyMutableMap().Put(c, z).Put(b, y).Put(a, x)
	o := value.ImmutableMapOf(map[string]value.Value{a: x, c: z, b: y})
	p := value.SortedMap([]value.MapEntry{value.ImmutableEntry(b, y), value.ImmutableEntry(a, x), value.ImmutableEntry(c, z)}, false)
	ascending(m)
	ascending(n)
	ascending(o)
	ascending(p)
	samePacked(m, n)
	samePacked(m, o)
	samePacked(m, p)
}

func longMap(m value.Map) {
	a, b := longKeys()
	c := a[:len(a)-1]
	w := multimap[string]{}
	for _, k := range []string{a, c, b} {
		v := elem("v")
		m, w = m.Put(k, v), w.put(k, v)
	}
	k := []string{a, b, c, c + c}[sym.Choose("key", 4)]
	m, w = mapOp(m, w, k)
	checkMap(m, w, a, b, c)
}

func C12_LongKeys() { longMap(value.EmptyImmutableMap()) }
func C14_LongKeys() { longMap(value.EmptyMutableMap()) }
