package props

import (
	"math"
	"strings"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// parsesBack: the text form of a number denotes an equal number of the same type.
func parsesBack(v value.Number) value.Number {
	r := value.ParseNumber(v.String())
	sym.Assert(r.Type() == v.Type(), "the text form parses back to a number of another type")
	sym.Assert(!r.IsNaN(), "the text form of a number parses to NaN")
	return r
}

func C20_Long() {
	n := sym.I64("n")
	r := parsesBack(value.Long(n))
	sym.Assert(r.Long() == n, "the text form of a long parses back to another one")
}

func C20_LongEqual() {
	v := value.Long(int64(int16(sym.U16("n"))))
	r := parsesBack(v)
	sym.Assert(value.Equal(v, r) && value.Equal(r, v), "a number parsed from its text form is not equal")
	sym.Assert(r.String() == v.String(), "printing what was parsed gives another text")
}

// sizedBig has a given number of arbitrary bytes.
func sizedBig(name string, n int) value.Number {
	z := bigOf(0)
	z.SetBytes(sym.Bytes(name, n))
	if sym.Bool(name + ".neg") {
		z.Neg(z)
	}
	return value.BigInt(z)
}

func C20_BigInt() {
	n := sym.Choose("size", 18)
	v := sizedBig("z", n)
	r := parsesBack(v)
	sym.Assert(r.BigInt().Cmp(v.BigInt()) == 0, "the text form of a big integer parses back to another one")
	sym.Assert(value.Equal(v, r) && value.Equal(r, v), "a number parsed from its text form is not equal")
	sym.Assert(r.String() == v.String(), "printing what was parsed gives another text")
}

func C20_BigIntWide() {
	n := []int{31, 32, 33, 64, 100}[sym.Choose("size", 5)]
	v := sizedBig("z", n)
	r := parsesBack(v)
	sym.Assert(r.BigInt().Cmp(v.BigInt()) == 0, "the text form of a big integer parses back to another one")
}

// any exponent
func C20_Decimal() {
	n := sym.Choose("size", 8+9*sym.Tier())
	z := sizedBig("z", n).BigInt()
	exp := int32(sym.U32("exp"))
	v := value.Decimal(decBig(z, exp))
	if exp == 0 {
		// printed without an exponent: an equal big integer
		r := value.ParseNumber(v.String())
		sym.Assert(r.Type() == value.BIGINT || r.Type() == value.DECIMAL, "the text form of a decimal parses back to something else")
		sym.Assert(r.BigInt().Cmp(z) == 0, "the text form of a decimal parses back to another number")
		sym.Assert(value.Equal(v, r) && value.Equal(r, v), "a number parsed from its text form is not equal")
		return
	}
	r := parsesBack(v)
	d := r.Decimal()
	sym.Assert(d.Exponent() == exp, "the text form of a decimal parses back to another exponent")
	sym.Assert(d.Coefficient().Cmp(z) == 0, "the text form of a decimal parses back to another coefficient")
	sym.Assert(r.String() == v.String(), "printing what was parsed gives another text")
	if exp > -4 && exp < 4 {
		sym.Assert(value.Equal(v, r) && value.Equal(r, v), "a number parsed from its text form is not equal")
	}
}

func C20_Bool() {
	b := sym.Bool("b")
	v := value.Boolean(b)
	sym.Assert(value.ParseBoolean(v.String()).Boolean() == b, "the text form of a boolean parses back to the other one")
}

func C20_Raw() {
	n := sym.Choose("size", 9+8*sym.Tier())
	b := sym.Bytes("b", n)
	v := value.Raw(b, sym.Bool("copy"))
	r := value.ParseString(v.String())
	sym.Assert(r.Type() == value.RAW, "the text form of bytes parses back to a string of another type")
	sym.Assert(sym.BytesEq(r.Raw(), b), "the text form of bytes parses back to other bytes")
	sym.Assert(value.Equal(v, r) && value.Equal(r, v), "bytes parsed from their text form are not equal")
}

// parseAll: a result of the right kind, that can be printed.
func parseAll(s string) value.Number {
	n := value.ParseNumber(s)
	sym.Assert(n != nil && n.Kind() == value.NUMBER, "parsing a number gives no number")
	b := value.ParseBoolean(s)
	sym.Assert(b.Kind() == value.BOOL, "parsing a boolean gives no boolean")
	t := value.ParseString(s)
	sym.Assert(t != nil && t.Kind() == value.STRING, "parsing a string gives no string")
	if !strings.HasPrefix(s, value.Base64Prefix) {
		sym.Assert(t.Type() == value.UTF8 && t.Utf8() == s, "parsing a string gives another one")
	}
	z := value.ParseNull(s)
	sym.Assert(z != nil, "parsing a null gives nothing")
	if s == "null" {
		sym.Assert(z.Kind() == value.NULL, "the text of null parses to another value")
	} else {
		sym.Assert(z.Kind() == value.STRING && z.String() == s, "a text that is not that of null parses to another value")
	}
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		sym.Assert(b.Boolean(), "a true text parses to false")
	default:
		sym.Assert(!b.Boolean(), "another text parses to true")
	}
	return n
}

// isDigits: all bytes are decimal digits.
func isDigits(s string) bool {
	r := len(s) > 0
	for i := 0; i < len(s); i++ {
		r = sym.And(r, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return r
}

// any short text
func C20_AnyText() {
	n := sym.Choose("len", 4+sym.Tier())
	s := sym.Str("s", n)
	v := parseAll(s)
	if n == 0 {
		sym.Assert(v.Type() == value.LONG && v.Long() == 0, "the empty text is not zero")
		return
	}
	t := s
	if t[0] == '-' || t[0] == '+' {
		t = t[1:]
	}
	if isDigits(t) {
		// an integer of decimal digits
		m := int64(0)
		for i := 0; i < len(t); i++ {
			m = m*10 + int64(t[i]-'0')
		}
		if s[0] == '-' {
			m = -m
		}
		sym.Assert(v.Type() == value.LONG && v.Long() == m, "decimal digits do not parse to their number")
		return
	}
	// a number has a digit, unless it is one of the words
	has := false
	for i := 0; i < n; i++ {
		has = sym.Or(has, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	if !has {
		switch strings.ToLower(t) {
		case "inf", "nan", "infinity", "null":
		default:
			sym.Assert(v.IsNaN(), "text without a digit is a number")
		}
	}
}

// longer texts of the characters numbers are made of
func C20_NumberText() {
	const letters = "0x.-+eE19afpP_"
	n := 4 + sym.Choose("len", 1+sym.Tier())
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[sym.Choose("c", len(letters))]
	}
	parseAll(string(b))
}

// hexadecimal integers with any digits
func C20_Hex() {
	n := 1 + sym.Choose("digits", 5)
	s := sym.Str("s", n)
	ok := true
	m := int64(0)
	for i := 0; i < n; i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			m = m<<4 | int64(c-'0')
		case c >= 'a' && c <= 'f':
			m = m<<4 | int64(c-'a'+10)
		case c >= 'A' && c <= 'F':
			m = m<<4 | int64(c-'A'+10)
		default:
			ok = false
		}
	}
	if !ok {
		return
	}
	pre := []string{"0x", "0X", "-0x", "-0X"}[sym.Choose("prefix", 4)]
	if pre[0] == '-' {
		m = -m
	}
	v := value.ParseNumber(pre + s)
	sym.Assert(v.Type() == value.BIGINT, "hexadecimal digits are no big integer")
	sym.Assert(v.BigInt().Cmp(bigOf(m)) == 0, "hexadecimal digits parse to another number")
}

// an exponent of any digits after a mantissa of any digits
func C20_HexExp() {
	n := sym.Choose("digits", 3)
	neg := sym.Choose("neg", 2) == 1
	exp := sym.Bytes("exp", 1+n/2)
	m := sym.U8("m")
	const hexd = "0123456789abcdef"
	t := "0x" + string([]byte{hexd[m>>4], hexd[m&15]}) + "x"
	e := int32(0)
	if neg {
		t += "-"
	}
	for _, b := range exp {
		e = e<<8 | int32(b)
		t += string([]byte{hexd[b>>4], hexd[b&15]})
	}
	if neg {
		e = -e
	}
	v := value.ParseNumber(t)
	if e == 0 {
		sym.Assert(v.BigInt().Cmp(bigOf(int64(m))) == 0, "a number without an exponent parses to another one")
		return
	}
	sym.Assert(v.Type() == value.DECIMAL, "a number with an exponent is no decimal")
	d := v.Decimal()
	sym.Assert(d.Exponent() == e, "another exponent is parsed")
	sym.Assert(d.Coefficient().Cmp(bigOf(int64(m))) == 0, "another mantissa is parsed")
}

// an exponent wider than 32 bits is no number
func C20_HugeExp() {
	n := 9 + sym.Choose("digits", 9)
	b := make([]byte, n)
	b[0] = "1f"[sym.Choose("c", 2)]
	for i := 1; i < n; i++ {
		b[i] = '0' + sym.U8("d")&7
	}
	pre := []string{"0x1x", "-0x1x", "0x1x-", "0xx"}[sym.Choose("prefix", 4)]
	sym.Assert(value.ParseNumber(pre+string(b)).IsNaN(), "an exponent beyond 32 bits is accepted")
}

// longs at the edges and beyond
func C20_Edges() {
	type one struct {
		text string
		want int64
	}
	ok := []one{{"9223372036854775807", math.MaxInt64}, {"-9223372036854775808", math.MinInt64}, {"+9223372036854775807", math.MaxInt64}, {"0", 0}, {"-0", 0}, {"+0", 0}, {"00", 0}, {"007", 7}, {"1000000000000000000", 1000000000000000000}, {"", 0}, {"null", 0}}
	bad := []string{"nan", "NaN", " ", "1 ", " 1", "1,5", "--1", "+-1", "-", "+", ".", "-.", "..", "1.2.3", "1.x", "0xg", "0x0.g", "e5", "1e", "1e+", "x", "1x", "1x2", "0x1x2x3", "0x1x--2", "0x1x2-", "0x-1", "true", "zero", "١", "\xff", "\x00", "1\x00", "0x\x00", "0x1xzz", "base64,AQ", "0b1", "0o7", "--0x1"}
	dbl := []one{{"1e3", 1000}, {"12.0", 12}, {"-12.0", -12}, {"1.5e1", 15}, {".0", 0}, {"7.", 7}, {"1E2", 100}}
	i := sym.Choose("text", len(ok)+len(bad)+len(dbl))
	switch {
	case i < len(ok):
		v := parseAll(ok[i].text)
		sym.Assert(v.Type() == value.LONG && v.Long() == ok[i].want, "a long parses to another number")
	case i < len(ok)+len(bad):
		sym.Assert(parseAll(bad[i-len(ok)]).IsNaN(), "text that is no number is not NaN")
	default:
		c := dbl[i-len(ok)-len(bad)]
		v := parseAll(c.text)
		sym.Assert(v.Type() == value.DOUBLE && v.Double() == float64(c.want), "a double parses to another number")
	}
	// one more digit than fits: no long
	d := sym.U8("d")
	sym.Assume(d <= 9)
	v := value.ParseNumber("922337203685477580" + string([]byte{'0' + d}))
	if d <= 7 {
		sym.Assert(v.Type() == value.LONG && v.Long() == 9223372036854775800+int64(d), "the largest longs do not parse")
	} else {
		sym.Assert(v.Type() == value.DOUBLE && v.Double() == 9223372036854775808, "a number beyond the longs does not parse to a double")
	}
}

// base64 texts
func C20_Base64() {
	n := sym.Choose("len", 5+sym.Tier())
	s := sym.Str("s", n)
	v := value.ParseString(value.Base64Prefix + s)
	valid := n%4 != 1
	for i := 0; i < n; i++ {
		c := s[i]
		al := sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(c == '+', c == '/')))
		if c == '\n' || c == '\r' {
			return // ignored by the decoder
		}
		valid = sym.And(valid, al)
	}
	if !valid {
		sym.Assert(v.Type() == value.UTF8 && v.Utf8() == value.Base64Prefix+s, "text that is no base64 does not stay text")
		return
	}
	sym.Assert(v.Type() == value.RAW && v.Len() == n*3/4, "base64 text does not parse to bytes")
	if n%4 == 0 {
		sym.Assert(v.String() == value.Base64Prefix+s, "base64 text parses to other bytes")
	}
}
