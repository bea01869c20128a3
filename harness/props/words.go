package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// texts that mean something somewhere
var words = []string{
	"", "null", "nil", "true", "false", "True", "NaN", "nan", "Infinity", "-Infinity", "Inf", "0", "-0", "1", "-1", "007", "10", "9", "1.5", "1e5",
	"0x", "0x10", "-0xff", "0x1x2", "base64,", "base64,AQ", "base64,AQ==", "unknown,", "data:", "base64,$$", "[]", "{}", "[", "]", "{", "}", ",", ":", ": ", "\"\"", "\"null\"", "{\"a\": 1}",
	"__proto__", "length", "key", "value", "\\u0000", "\\n", "\\", "//", "/", "<!--", "</script>", "&amp;", "%s", "%d", "%!", "%", "\xef\xbb\xbf", "\xef\xbf\xbd", "\u2028", "\u2029", "\x00", "\x7f", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\t", "\r\n", " ", "  x  ", "A", "a", "é", "É", "ß", "ı",
	"e\u0301", "\U0001F600", "EOF", "undefined", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
}

// anyWord is one of them, alone or with any byte before or behind it
func anyWord(name string) string {
	w := words[sym.Choose(name, len(words))]
	switch sym.Choose(name+".more", 3) {
	case 1:
		return w + sym.Str(name+".behind", 1)
	case 2:
		return sym.Str(name+".before", 1) + w
	}
	return w
}

// any value, with a word as a text, as bytes or as a key
func wordValue(name string, w string) value.Value {
	switch sym.Choose(name+".as", 6) {
	case 0:
		return value.Utf8(w)
	case 1:
		return value.Raw([]byte(w), false)
	case 2:
		return value.Tuple(value.Utf8(w), value.Raw([]byte(w), true))
	case 3:
		return value.EmptyImmutableMap().Put(w, value.Utf8(w))
	case 4:
		return value.EmptyMutableMap().Put(w, value.One).Put(w+"x", value.Null).Insert("x"+w, value.Utf8(w))
	default:
		return value.EmptySparseList().PutAt(3, value.Utf8(w)).PutAt(1, value.EmptyMutableMap().Put(w, value.Tuple()))
	}
}

func C01_Words() {
	w := anyWord("w")
	v := wordValue("v", w)
	r := roundTrip(v)
	equalBoth(v, r)
	if v.Kind() == value.STRING {
		sym.Assert(r.(value.String).Utf8() == w, "another text came back")
	}
	consumed(pack(v))
}

func C02_Words() {
	w := anyWord("w")
	n := uint64(len(w))
	sym.Assert(sym.BytesEq(pack(value.Utf8(w)), cat(refStr(n), []byte(w))), "a text is written otherwise")
	sym.Assert(sym.BytesEq(pack(value.Raw([]byte(w), false)), cat(refBin(n), []byte(w))), "bytes are written otherwise")
	m := value.EmptyMutableMap().Put(w, value.True)
	sym.Assert(sym.BytesEq(pack(m), cat(refMap(1), refStr(n), []byte(w), []byte{0xc3})), "a map is written otherwise")
}

func C03_Words() {
	w := anyWord("w")
	n := uint64(len(w))
	for _, h := range [][]byte{refStr(n), hdr(0xd9, n, 1), hdr(0xda, n, 2), hdr(0xdb, n, 4)} {
		s, ok := unpack(cat(h, []byte(w))).(value.String)
		sym.Assert(ok && s.Type() == value.UTF8 && s.Utf8() == w, "a text is read as another value")
		m, ok := unpack(cat([]byte{0x82}, h, []byte(w), []byte{5}, h, []byte(w), []byte{0xc0})).(value.Map)
		sym.Assert(ok && m.Len() == 2 && m.Keys()[0] == w && m.Keys()[1] == w && m.Entries()[1].Value().Kind() == value.NULL, "a key is read as another one")
	}
	s, ok := unpack(cat(hdr(0xc5, n, 2), []byte(w))).(value.String)
	sym.Assert(ok && s.Type() == value.RAW && string(s.Raw()) == w, "bytes are read as another value")
}

func C08_Words() {
	w := anyWord("w")
	sym.Assume(w != "m")
	e := []value.MapEntry{value.ImmutableEntry(w, value.One), value.ImmutableEntry("m", value.Zero)}
	f := []value.MapEntry{e[1], e[0]}
	b := pack(value.ImmutableMap(e, false))
	for _, m := range []value.Value{value.ImmutableMap(f, false), value.SortedMap(e, false), value.SortedMap(f, false),
		value.ImmutableMapOf(map[string]value.Value{w: value.One, "m": value.Zero}), value.EmptyMutableMap().Put("m", value.Zero).Put(w, value.One)} {
		sym.Assert(sym.BytesEq(pack(m), b) && value.Jsonify(m) == value.Jsonify(value.ImmutableMap(e, false)), "equal maps serialize differently")
	}
}

// two words as keys, and a third one looked for
func wordsMap(immutable bool) {
	m, w := value.EmptyMap(immutable), multimap[string]{}
	a := sym.Choose("a", len(words))
	for i, k := range []string{words[a], words[(a+7)%len(words)], words[(a*5+3)%len(words)], words[(a+41)%len(words)]} {
		v := value.Long(int64(i))
		m, w = m.Put(k, v), w.put(k, v)
	}
	checkMap(m, w)
	k := words[(a+[]int{0, 7, 41, 1, 20}[sym.Choose("k", 5)])%len(words)]
	if sym.Choose("more", 2) == 1 {
		k += sym.Str("byte", 1)
	}
	m, w = mapOp(m, w, k)
	checkMap(m, w, k, k+"x")
}

func C12_Words() { wordsMap(true) }
func C14_Words() { wordsMap(false) }

func C16_Words() {
	w := anyWord("w")
	sym.Assume(w != "m")
	m := value.EmptyMutableMap().Put(w, value.One).Put("m", value.Utf8(w))
	u := &change{to: value.Utf8("changed")}
	sym.Assert(m.Update(w, u) && u.calls == 1 && m.Get(w).String() == "changed" && m.Len() == 2, "a key is not updated")
	if w != "m" {
		sym.Assert(m.Update("m", u) && m.Get("m").String() == "changed", "a key is not updated")
	}
	im := value.EmptyImmutableMap().Put(w, value.One)
	sym.Assert(!im.Update(w, u) && im.Get(w) == value.One && u.calls <= 2, "an immutable map is updated")
}

// words are equal to the same word only, and to no value of another kind
func C17_Words() {
	i, j := sym.Choose("i", len(words)), sym.Choose("j", len(words))
	a, b := value.Value(value.Utf8(words[i])), value.Value(value.Utf8(words[j]))
	switch sym.Choose("as", 4) {
	case 1:
		b = value.Raw([]byte(words[j]), false)
	case 2:
		a, b = value.Tuple(a), value.Tuple(b)
	case 3:
		a, b = value.EmptyImmutableMap().Put(words[i], value.One), value.EmptyMutableMap().Put(words[j], value.One)
	}
	sym.Assert(eq(a, b) == (i == j), "different texts are equal, or equal ones are not")
	if i == j {
		t := value.Utf8(words[i])
		for _, o := range []value.Value{nil, value.Null, value.True, value.False, value.Zero, value.One, value.Nan, value.Double(1.5), value.BigInt(bigOf(0)), value.ParseNumber(words[i]), value.ParseBoolean(words[i]),
			value.EmptyImmutableList(), value.EmptyMutableMap(), value.EmptySparseList(), value.Tuple(t), value.Unknown([]byte(words[i] + "x"))} {
			sym.Assert(!eq(t, o) && !eq(o, t), "values of different kinds are equal")
		}
	}
}

func C18_Words() {
	w := anyWord("w")
	v := value.Value(value.Utf8(w))
	if sym.Choose("raw", 2) == 1 {
		v = value.Raw([]byte(w), false)
	}
	convert(holding(v), v)
	// absent, although it is a word
	m := value.EmptyMutableMap().Put("some", v)
	sym.Assert(w == "some" || isNull(m.Get(w)) && m.GetString(w).Len() == 0 && !m.GetBool(w).Boolean() && m.GetNumber(w).Long() == 0 && m.GetList(w).Len() == 0 && m.GetMap(w).Len() == 0, "an absent key is found")
}

func C19_Words() {
	v := wordValue("v", anyWord("w"))
	jsonIs(jsonOf(v), v)
}

func C20_Words() {
	w := anyWord("w")
	parseAll(w)
	parseAll(w + "0")
	parseAll("-" + w)
	r := value.ParseString(value.Raw([]byte(w), false).String())
	sym.Assert(r.Type() == value.RAW && string(r.Raw()) == w, "the text form of bytes parses back to other bytes")
}

func C28_Words() {
	w := anyWord("w")
	s := &innerS{A: wordValue("a", w)}
	s.B = value.Long(7)
	b := packStruct(s)
	v, ok := unpack(b).(value.List)
	sym.Assert(ok && len(v.Items()) == 2 && sameKind(v.GetAt(3), s.A), "a field is another value")
	r := &innerS{}
	unpackStruct(pack(v), r)
	sameInner(s, r)
}

func C29_Words() {
	w := anyWord("w")
	v := wordValue("v", w)
	goView(v)
	goView(unpack(pack(v)))
	x, y := value.Utf8(w), value.Raw([]byte(w), false)
	sym.Assert(x.Type() == value.UTF8 && x.Kind() == value.STRING && x.Utf8() == w && string(x.Raw()) == w && x.Len() == len(w) && x.String() == w, "a text is another one")
	sym.Assert(y.Type() == value.RAW && y.Kind() == value.STRING && y.Utf8() == w && string(y.Raw()) == w && y.Len() == len(w), "bytes are others")
}

func C27_Words() {
	w := anyWord("w")
	var want []byte
	for _, k := range []int{4, 5, 6} {
		want = append(want, payloadToken(k, w, 9).bytes...)
	}
	u, p := tokenSource(want), value.MessageParser()
	sym.Assert(p.ParseStr(next(u, value.StrHeader)) == len(w), "a text has another size")
	s, err := u.Read(len(w))
	sym.Assert(err == nil && string(s) == w, "a text is another one")
}

// a collection into which its own values are inserted
func selfList(kind int) {
	n := 1 + sym.Choose("n", 4)
	m := elems("e", n)
	room := sym.Choose("room", 3) * 4
	s := append(make([]value.Value, 0, n+room), m...)
	var l value.List
	if kind == 0 {
		l = value.ImmutableList(s)
	} else {
		l = value.MutableList(s)
	}
	i := sym.Choose("at", n+2)
	own := l.Values()
	if sym.Choose("part", 2) == 1 {
		k := sym.Choose("from", n)
		own, m = own[k:], seqCopy(m)
		checkSeq(l.InsertAll(i, own), seqInsertAll(m, i, seqCopy(m[k:])))
		return
	}
	checkSeq(l.InsertAll(i, own), seqInsertAll(m, i, seqCopy(m)))
}

func C11_Self() { selfList(0) }
func C13_Self() { selfList(1) }
