package props

import (
	"math"
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

type keep struct{}

func (keep) Update(old value.Value) value.Value { return old }

// touch calls every accessor of a value; none of them may panic, and the
// ones that have to agree do.
func touch(v value.Value) {
	s := v.String()
	v.Class()
	v.Object()
	value.Equal(v, value.Null)
	value.Equal(nil, v)
	v.Equal(nil)
	j := value.Jsonify(v)
	var out strings.Builder
	v.PrintJSON(&out)
	sym.Assert(out.String() == j, "two JSON forms of a value")
	mj, err := v.MarshalJSON()
	sym.Assert(err == nil && string(mj) == j, "two JSON forms of a value")
	mb, err := v.MarshalBinary()
	p := pack(v)
	sym.Assert(err == nil && sym.BytesEq(mb, p), "two packed forms of a value")
	value.Hex(v)
	switch v.Kind() {
	case value.NULL:
	case value.BOOL:
		v.(value.Bool).Boolean()
	case value.NUMBER:
		touchNumber(v.(value.Number))
	case value.STRING:
		t := v.(value.String)
		t.Type()
		sym.Assert(t.Len() == len(t.Raw()), "the length of a string")
		t.Utf8()
	case value.LIST:
		sym.Assert(s == j, "two text forms of a list")
		touchList(v.(value.List))
	case value.MAP:
		sym.Assert(s == j, "two text forms of a map")
		touchMap(v.(value.Map))
	case value.UNKNOWN:
		v.(value.Extension).Native()
	default:
		sym.Fail("a value of no kind")
	}
}

func touchNumber(n value.Number) {
	n.IsNaN()
	n.Long()
	d := 0.0
	if n.Type() != value.DECIMAL || n.Decimal().Exponent() == 0 {
		d = n.Double()
	}
	switch n.Type() {
	case value.LONG, value.BIGINT:
		n.BigInt()
		n.Decimal()
		n.Add(value.One)
		n.Subtract(value.One)
	case value.DOUBLE:
		n.Add(value.One)
		n.Subtract(value.One)
		if math.IsNaN(d) || math.IsInf(d, 0) {
			n.BigInt()
			n.Decimal()
		}
	case value.DECIMAL:
		n.BigInt()
		n.Decimal()
		n.Add(value.One)
		n.Subtract(value.One)
	default:
		sym.Fail("a number of no type")
	}
}

// sparse lists with huge indexes have huge dense forms
const denseMax = 64

func touchList(l value.List) {
	n := l.Len()
	sym.Assert(n >= 0, "a list of negative length")
	l.Entries()
	for _, it := range l.Items() {
		v := it.Value()
		i := it.Key()
		sym.Assert(len(l.Select(i)) >= 1 || v == nil || v.Kind() == value.NULL, "an element is not selected")
		it.Equal(it)
		it.Update(keep{})
	}
	if n <= denseMax {
		sym.Assert(len(l.Values()) == n, "the number of values is not the length")
	}
	for _, i := range []int{-1, 0, 1, math.MaxInt} {
		touchAt(l, i)
	}
	l.Append(value.True)
	l.UpdateAt(0, keep{})
	l.DeleteAll(0)
	l.RemoveAt(0)
}

func touchAt(l value.List, i int) {
	l.GetAt(i)
	l.GetBoolAt(i).Boolean()
	l.GetNumberAt(i).Type()
	l.GetStringAt(i).Len()
	l.GetListAt(i).Len()
	l.GetMapAt(i).Len()
	l.Select(i)
}

func touchMap(m value.Map) {
	n := m.Len()
	sym.Assert(len(m.Keys()) == n && len(m.Values()) == n && len(m.Entries()) == n, "the length of a map")
	m.HashMap()
	for _, e := range m.Entries() {
		k := e.Key()
		e.Equal(e)
		e.Update(keep{})
		m.Get(k)
		sym.Assert(len(m.Select(k)) >= 1, "an entry is not selected")
		m.GetBool(k).Boolean()
		m.GetNumber(k).Type()
		m.GetString(k).Len()
		m.GetList(k).Len()
		m.GetMap(k).Len()
		m.Update(k, keep{})
		m.Remove(k)
		m.DeleteAll(k)
	}
	m.Get("none")
	m.GetBool("none")
	m.GetNumber("none")
	m.GetString("none")
	m.GetList("none")
	m.GetMap("none")
	m.Put("none", value.True)
}

// hasNaN: no equality can be expected.
func hasNaN(v value.Value) bool {
	switch v.Kind() {
	case value.NUMBER:
		return v.(value.Number).IsNaN()
	case value.LIST:
		for _, it := range v.(value.List).Items() {
			if it.Value() != nil && hasNaN(it.Value()) {
				return true
			}
		}
	case value.MAP:
		for _, it := range v.(value.Map).Entries() {
			if it.Value() != nil && hasNaN(it.Value()) {
				return true
			}
		}
	}
	return false
}
