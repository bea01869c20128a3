package props

import (
	"encoding/base64"
	"encoding/hex"
	"math"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// jsonOf is the JSON of a value, all forms of which agree.
func jsonOf(v value.Value) jnode {
	s := value.Jsonify(v)
	var out strings.Builder
	v.PrintJSON(&out)
	sym.Assert(out.String() == s, "printing and Jsonify disagree")
	m, err := v.MarshalJSON()
	sym.Assert(err == nil && string(m) == s, "printing and marshalling disagree")
	if k := v.Kind(); k == value.LIST || k == value.MAP {
		sym.Assert(v.String() == s, "printing and the text form of a collection disagree")
	}
	n, ok := parseJSON(s)
	sym.Assert(ok, "the JSON form is malformed")
	return n
}

// jsonIs: the document has the content of the value.
func jsonIs(n jnode, v value.Value) {
	if isNull(v) {
		sym.Assert(n.kind == 'n', "null does not print as null")
		return
	}
	switch v.Kind() {
	case value.BOOL:
		want := byte('f')
		if v.(value.Bool).Boolean() {
			want = 't'
		}
		sym.Assert(n.kind == want, "a boolean prints wrongly")
	case value.NUMBER:
		jsonNumber(n, v.(value.Number))
	case value.STRING:
		s := v.(value.String)
		sym.Assert(n.kind == 's', "a string prints as something else")
		if s.Type() == value.UTF8 {
			sym.Assert(n.text == validText(s.Utf8()), "the text of a string is not what it prints")
		} else {
			rest, ok := strings.CutPrefix(n.text, value.Base64Prefix)
			sym.Assert(ok, "bytes do not print as base64")
			b, err := base64.RawStdEncoding.DecodeString(rest)
			sym.Assert(err == nil && sym.BytesEq(b, s.Raw()), "other bytes are printed")
		}
	case value.UNKNOWN:
		sym.Assert(n.kind == 's', "an extension prints as something else")
		rest, ok := strings.CutPrefix(n.text, value.UnknownPrefix+value.Base64Prefix)
		sym.Assert(ok, "an extension does not print as base64")
		b, err := base64.RawStdEncoding.DecodeString(rest)
		sym.Assert(err == nil && sym.BytesEq(b, v.(value.Extension).Native()), "another extension is printed")
	case value.LIST:
		items := v.(value.List).Items()
		if n.kind == '[' {
			sym.Assert(len(n.items) == len(items), "a list prints another number of elements")
			for i, it := range items {
				sym.Assert(it.Key() == i, "a sparse list prints as a dense one")
				jsonIs(n.items[i], it.Value())
			}
			return
		}
		sym.Assert(n.kind == '{' && len(n.items) == len(items), "a sparse list prints another number of items")
		for i, it := range items {
			sym.Assert(n.keys[i] == strconv.Itoa(it.Key()), "a sparse list prints other indexes")
			jsonIs(n.items[i], it.Value())
		}
	case value.MAP:
		entries := v.(value.Map).Entries()
		sym.Assert(n.kind == '{' && len(n.items) == len(entries), "a map prints another number of entries")
		for i, e := range entries {
			sym.Assert(n.keys[i] == validText(e.Key()), "a map prints other keys")
			jsonIs(n.items[i], e.Value())
		}
	default:
		sym.Fail("a value of no kind")
	}
}

func jsonNumber(n jnode, v value.Number) {
	switch v.Type() {
	case value.LONG:
		sym.Assert(n.kind == '0' && n.text == strconv.FormatInt(v.Long(), 10), "a long prints as another number")
	case value.DOUBLE:
		d := v.Double()
		if math.IsNaN(d) || math.IsInf(d, 0) {
			sym.Assert(n.kind == 'n', "NaN or an infinity does not print as null")
		} else {
			sym.Assert(n.kind == '0' && n.text == strconv.FormatFloat(d, 'f', -1, 64), "a double prints as another number")
		}
	default:
		sym.Assert(n.kind == 's', "a big number does not print as a string")
		sym.Assert(n.text == v.String(), "a big number prints as another")
	}
}

func C19_String() {
	n := sym.Choose("len", 4+sym.Tier())
	v := value.Utf8(sym.Str("s", n))
	jsonIs(jsonOf(v), v)
}

// a byte of any value after others
func C19_Positions() {
	s := []string{"", "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xf0\x9f", "\xed\xa0\x80", "\\", "\"", "\u2028", "\x7f", "\x00"}
	x, y := s[sym.Choose("before", len(s))], s[sym.Choose("after", len(s))]
	v := value.Utf8(x + sym.Str("c", 1) + y)
	jsonIs(jsonOf(v), v)
}

func C19_Key() {
	k := sym.Str("k", sym.Choose("len", 3+sym.Tier()))
	e := elem("e")
	for _, m := range []value.Map{value.EmptyImmutableMap().Put(k, e), value.EmptyMutableMap().Put(k, e)} {
		jsonIs(jsonOf(m), m)
	}
}

// any runes
func C19_Rune() {
	r := rune(sym.U32("r"))
	sym.Assume(sym.And(r >= 0, r <= 0x10ffff))
	v := value.Utf8(string(r))
	if sym.Choose("key", 2) == 1 {
		m := value.EmptyMutableMap().Put(string(r), v)
		jsonIs(jsonOf(m), m)
		return
	}
	jsonIs(jsonOf(v), v)
}

func C19_Raw() {
	v := value.Raw(sym.Bytes("b", sym.Choose("len", 6)), false)
	jsonIs(jsonOf(v), v)
	x := value.Unknown(append([]byte{8}, v.Raw()...))
	jsonIs(jsonOf(x), x)
}

func C19_Number() {
	var v value.Value
	switch sym.Choose("type", 3) {
	case 0:
		v = value.Long(sym.I64("n"))
	case 1:
		v = value.BigInt(bigOf(int64(int32(sym.U32("n")))))
	default:
		v = value.Decimal(decOf(int64(int16(sym.U16("n"))), int32(int8(sym.U8("exp")))))
	}
	jsonIs(jsonOf(v), v)
}

func C19_Double() {
	d := sym.F64("d")
	v := value.Double(d)
	jsonIs(jsonOf(v), v)
	sym.Assert(value.Jsonify(value.Double(math.NaN())) == "null", "NaN does not print as null")
	sym.Assert(value.Jsonify(value.Double(math.Inf(1))) == "null", "an infinity does not print as null")
	sym.Assert(value.Jsonify(value.Double(math.Inf(-1))) == "null", "an infinity does not print as null")
	sym.Assert(value.Jsonify(nil) == "null", "nil does not print as null")
}

// big integers by their digits
func C19_BigText() {
	z := anyBig("z")
	n := jsonOf(value.BigInt(z))
	s, neg := strings.CutPrefix(n.text, "-")
	s, ok := strings.CutPrefix(s, "0x")
	sym.Assert(ok, "a big integer does not print in hexadecimal")
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, err := hex.DecodeString(s)
	sym.Assert(err == nil && len(b) <= 8, "a big integer does not print in hexadecimal")
	var u uint64
	for _, c := range b {
		u = u<<8 | uint64(c)
	}
	g := bigOf(0).SetUint64(u)
	if neg {
		g.Neg(g)
	}
	sym.Assert(g.Cmp(z) == 0, "another big integer is printed")
}

// collections of all kinds of elements
func C19_Collection() {
	k := sym.Choose("kind", gScalars+1)
	var e value.Value
	if k < gScalars {
		e = jsonScalar("e", k)
	}
	f := value.Value(value.Long(7))
	var v value.Value
	switch sym.Choose("collection", 6) {
	case 0:
		v = value.ImmutableList([]value.Value{e, f})
	case 1:
		v = value.MutableList([]value.Value{f, e})
	case 2:
		v = value.EmptyImmutableMap().Put("a\"", f).Put("b", e)
	case 3:
		v = value.EmptyMutableMap().Put("\n", e).Put("b", f)
	case 4:
		v = value.SparseList([]value.ListItem{value.ImmutableItem(-3, e), value.MutableItem(int(sym.U8("i")), f)}, true)
	default:
		v = value.Tuple(value.Tuple(e), value.EmptyImmutableMap().Put("x", value.Tuple(f, e)), value.EmptyImmutableList(), value.EmptyMutableMap(), value.EmptySparseList())
	}
	jsonIs(jsonOf(v), v)
}

func jsonScalar(name string, k int) value.Value {
	if k == gDouble {
		return value.Double([]float64{0, -1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e21, 5e-324}[sym.Choose(name, 7)])
	}
	return smallScalar(name, k)
}

// sizes
func C19_Sizes() {
	n := sym.Choose("n", 4)
	items := make([]value.Value, n)
	m := value.EmptyMap(sym.Choose("immutable", 2) == 1)
	for i := range items {
		items[i] = jsonScalar("e", sym.Choose("kind", 2))
		m = m.Insert(string([]byte{'a' + byte(sym.Choose("k", 2))}), items[i])
	}
	jsonIs(jsonOf(m), m)
	for _, l := range []value.Value{value.ImmutableList(items), value.MutableList(items), value.SparseListOf(items)} {
		jsonIs(jsonOf(l), l)
	}
}

// any decoded message prints well
func C19_Decoded() {
	n := sym.Choose("len", 3)
	v, err := value.Unpack(sym.Bytes("b", n+1), true)
	if err != nil {
		return
	}
	jsonIs(jsonOf(v), v)
}

// nothing, next to something and next to nothing
func C19_Nil() {
	n := 1 + sym.Choose("n", 3)
	var items []value.Value
	var entries []value.MapEntry
	var sparse []value.ListItem
	src := map[string]value.Value{}
	mutable := sym.Choose("mutable", 2) == 1
	for i := 0; i < n; i++ {
		var e value.Value
		switch sym.Choose("e", 3) {
		case 0:
		case 1:
			e = value.Null
		default:
			e = elem("e")
		}
		k := string([]byte{'a' + byte(i)})
		items = append(items, e)
		src[k] = e
		if mutable {
			entries = append(entries, value.MutableEntry(k, e))
			sparse = append(sparse, value.MutableItem(i, e))
		} else {
			entries = append(entries, value.ImmutableEntry(k, e))
			sparse = append(sparse, value.ImmutableItem(i, e))
		}
	}
	var v value.Value
	switch sym.Choose("collection", 9) {
	case 0:
		v = value.ImmutableList(items)
	case 1:
		v = value.MutableList(items)
	case 2:
		v = value.Tuple(items...)
	case 3:
		v = value.SparseList(sparse, true)
	case 4:
		v = value.SparseListOf(items)
		gaps := items
		items = nil
		for _, e := range gaps {
			if e != nil {
				items = append(items, e)
			}
		}
	case 5:
		v = value.ImmutableMap(entries, true)
	case 6:
		v = value.SortedMap(entries, true)
	case 7:
		v = value.ImmutableMapOf(src)
	default:
		v = value.SortedMapOf(src)
	}
	j := jsonOf(v)
	jsonIs(j, v)
	sym.Assert(len(j.items) == len(items), "another number of elements is printed")
	for i, e := range items {
		if isNull(e) {
			sym.Assert(j.items[i].kind == 'n', "nothing does not print as null")
		} else {
			jsonIs(j.items[i], e)
		}
	}
}
