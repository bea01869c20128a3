package props

import (
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

func C21_Long() {
	n := sym.I64("n")
	v := value.Long(n)
	sym.Assert(v.Long() == n, "a long is another long")
	sym.Assert(v.Double() == float64(n), "a long converts to another double")
	sym.Assert(v.BigInt().Cmp(bigOf(n)) == 0, "a long converts to another big integer")
	d := v.Decimal()
	sym.Assert(d.Exponent() == 0 && d.Coefficient().Cmp(bigOf(n)) == 0, "a long converts to another decimal")
	sym.Assert(!v.IsNaN() && v.Type() == value.LONG, "a long is something else")
}

func C21_BigInt() {
	hi, lo := sym.U64("hi"), sym.U64("lo")
	neg := sym.Choose("neg", 2) == 1
	z := big128(hi, lo, neg)
	v := value.BigInt(z)
	sym.Assert(v.BigInt().Cmp(z) == 0, "a big integer is another one")
	d := v.Decimal()
	sym.Assert(d.Exponent() == 0 && d.Coefficient().Cmp(z) == 0, "a big integer converts to another decimal")
	if hi == 0 && (lo < 1<<63 || neg && lo == 1<<63) {
		n := int64(lo)
		if neg {
			n = -n
		}
		sym.Assert(v.Long() == n, "a big integer converts to another long")
	}
	sym.Assert(!v.IsNaN() && v.Type() == value.BIGINT, "a big integer is something else")
}

// exact doubles
func C21_BigDouble() {
	n := int64(sym.U64("n"))
	sym.Assume(sym.And(n > -1<<53, n < 1<<53))
	if sym.Choose("decimal", 2) == 1 {
		n = int64(int16(n))
		sym.Assert(value.Decimal(decOf(n, 0)).Double() == float64(n), "a decimal converts to another double")
		return
	}
	sym.Assert(value.BigInt(bigOf(n)).Double() == float64(n), "a big integer converts to another double")
}

// floorScaled is the greatest integer below n*10^exp.
func floorScaled(n int64, exp int) int64 {
	for ; exp > 0; exp-- {
		n *= 10
	}
	m := int64(1)
	for ; exp < 0; exp++ {
		m *= 10
	}
	if m == 1 {
		return n
	}
	q := n / m
	if n%m != 0 && n < 0 {
		q--
	}
	return q
}

func C21_Decimal() {
	n := int64(int16(sym.U16("n"))) >> (6 - 6*sym.Tier())
	exp := sym.Choose("exp", 12) - 6
	v := value.Decimal(decOf(n, int32(exp)))
	f := floorScaled(n, exp)
	z := v.BigInt()
	sym.Assert(z.IsInt64() && z.Int64() == f, "a decimal does not round downwards to a big integer")
	d := v.Decimal()
	sym.Assert(int(d.Exponent()) == exp && d.Coefficient().Cmp(bigOf(n)) == 0, "a decimal is another one")
	// integers are exact
	if exp >= 0 || floorScaled(f, -exp) == n {
		sym.Assert(v.Long() == f, "a decimal converts to another long")
	}
	sym.Assert(!v.IsNaN() && v.Type() == value.DECIMAL, "a decimal is something else")
}

// all the longs and beyond
func C21_DecimalWide() {
	lo := sym.U64("lo")
	neg := sym.Choose("neg", 2) == 1
	z := big128(0, lo, neg)
	if sym.Choose("wide", 4) == 1 {
		lo = []uint64{0, 1, 1 << 63, math.MaxUint64}[sym.Choose("low", 4)]
		z = big128(1, lo, neg)
	}
	v := value.Decimal(decBig(z, 0))
	sym.Assert(v.BigInt().Cmp(z) == 0, "an integral decimal converts to another big integer")
	if z.IsInt64() {
		sym.Assert(v.Long() == z.Int64(), "an integral decimal converts to another long")
	}
}

func C21_DoubleLong() {
	d := sym.F64("d")
	v := value.Double(d)
	sym.Assert(v.Type() == value.DOUBLE && v.IsNaN() == math.IsNaN(d), "a double is something else")
	if math.IsNaN(d) {
		sym.Assert(v.Long() == 0, "NaN is another long than zero")
		return
	}
	sym.Assert(math.Float64bits(v.Double()) == math.Float64bits(d), "a double is another one")
	if d > -9.2e18 && d < 9.2e18 {
		sym.Assert(v.Long() == int64(d), "a double does not convert by truncation")
	}
}

// small doubles: truncation spelled out
func C21_Truncation() {
	n := int64(int8(sym.U8("n"))) >> (3 - 3*sym.Tier())
	q := float64(sym.Choose("quarters", 4)) / 4
	d := float64(n) + q
	if n < 0 {
		d = float64(n) - q
	}
	v := value.Double(d)
	sym.Assert(v.Long() == n, "a double does not convert by truncation")
	z := v.BigInt()
	sym.Assert(z.IsInt64() && z.Int64() == n, "a double does not convert to a big integer by truncation")
}

// doubles of any mantissa around the interesting exponents
func C21_DoubleBig() {
	exps := []int{0, 1, 1000, 1022, 1023, 1024, 1030, 1074, 1075, 1076, 1084, 1085, 1086, 1087, 1100, 1140, 1149}
	e := exps[sym.Choose("exp", len(exps))]
	frac := sym.U64("frac") & (1<<52 - 1)
	neg := sym.Choose("neg", 2) == 1
	b := uint64(e)<<52 | frac
	if neg {
		b |= 1 << 63
	}
	v := value.Double(math.Float64frombits(b))
	z := v.BigInt()
	want := new(big.Int)
	if e >= 1023 {
		m := frac | 1<<52
		if s := e - 1075; s >= 0 {
			want.SetUint64(m)
			want.Lsh(want, uint(s))
		} else {
			want.SetUint64(m >> uint(-s))
		}
	}
	if neg {
		want.Neg(want)
	}
	sym.Assert(z.Cmp(want) == 0, "a double does not convert to a big integer by truncation")
}

func C21_NoNumber() {
	b := sym.U64("bits")
	d := math.Float64frombits(b)
	sym.Assume(sym.Or(math.IsNaN(d), math.IsInf(d, 0)))
	v := value.Double(d)
	sym.Assert(v.BigInt().Sign() == 0, "NaN or an infinity is another big integer than zero")
	sym.Assert(v.Decimal().IsZero(), "NaN or an infinity is another decimal than zero")
	if math.IsNaN(d) {
		sym.Assert(v.Long() == 0, "NaN is another long than zero")
	}
}

func C21_DoubleDecimal() {
	ds := []float64{0, 1, -1, 0.5, -2.25, 1e10, 123456789.125, 1e-5, -1e22}
	ws := []string{"0", "1", "-1", "0.5", "-2.25", "10000000000", "123456789.125", "0.00001", "-10000000000000000000000"}
	i := sym.Choose("d", len(ds))
	sym.Assert(value.Double(ds[i]).Decimal().String() == ws[i], "a double converts to another decimal")
}

// right is a number of any type with a small value n.
func right(name string) (value.Number, int64) {
	n := int64(int8(sym.U8(name)))
	switch sym.Choose(name+".type", 4) {
	case 0:
		return value.Long(n), n
	case 1:
		return value.Double(float64(n)), n
	case 2:
		return value.BigInt(bigOf(n)), n
	default:
		return value.Decimal(decOf(n, 0)), n
	}
}

// untouched: an operand is what it was.
func untouched(v value.Number, before []byte) {
	sym.Assert(sym.BytesEq(pack(v), before), "an operand is changed by arithmetic")
}

func C21_AddLong() {
	a := sym.I64("a")
	v := value.Long(a)
	var r value.Number
	var b int64
	if sym.Choose("wide", 2) == 1 {
		b = sym.I64("b")
		r = value.Long(b)
	} else {
		r, b = right("b")
	}
	p, q := pack(v), pack(r)
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Type() == value.LONG && d.Type() == value.LONG, "the result has not the type of the left operand")
	sym.Assert(s.Long() == a+b, "a sum of longs is wrong")
	sym.Assert(d.Long() == a-b, "a difference of longs is wrong")
	sym.Assert(s.Subtract(r).Long() == a && d.Add(r).Long() == a, "subtracting what was added does not give back the original")
	untouched(v, p)
	untouched(r, q)
}

// longs and wide big integers
func C21_AddLongBig() {
	a := sym.I64("a")
	z := sym.I64("z")
	v := value.Long(a)
	r := value.BigInt(bigOf(z))
	if sym.Choose("decimal", 2) == 1 {
		r = value.Decimal(decOf(z, 0))
	}
	sym.Assert(v.Add(r).Long() == a+z, "a sum of longs is wrong")
	sym.Assert(v.Subtract(r).Long() == a-z, "a difference of longs is wrong")
}

func C21_AddBig() {
	var x, y *big.Int
	var r value.Number
	if sym.Choose("wide", 2) == 1 {
		// two words, of any signs
		hx, hy := sym.U64("hi"), sym.U64("hi")
		sym.Assume(sym.And(hx != 0, hy != 0))
		x = big128(hx, sym.U64("lo"), sym.Choose("neg", 2) == 1)
		y = big128(hy, sym.U64("lo"), sym.Choose("neg", 2) == 1)
		r = value.BigInt(y)
	} else {
		var n int64
		x = big128(0, sym.U64("lo"), sym.Choose("neg", 2) == 1)
		r, n = right("b")
		y = bigOf(n)
	}
	v := value.BigInt(x)
	p, q := new(big.Int).Set(x), new(big.Int).Set(r.BigInt())
	untouched := func(v value.Number, p *big.Int) {
		sym.Assert(v.BigInt().Cmp(p) == 0, "an operand is changed by arithmetic")
	}
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Type() == value.BIGINT && d.Type() == value.BIGINT, "the result has not the type of the left operand")
	sym.Assert(s.BigInt().Cmp(new(big.Int).Add(x, y)) == 0, "a sum of big integers is wrong")
	sym.Assert(d.BigInt().Cmp(new(big.Int).Sub(x, y)) == 0, "a difference of big integers is wrong")
	sym.Assert(s.Subtract(r).BigInt().Cmp(x) == 0 && d.Add(r).BigInt().Cmp(x) == 0, "subtracting what was added does not give back the original")
	untouched(v, p)
	untouched(r, q)
	// results do not share memory with the operands
	s.BigInt().SetInt64(77)
	d.BigInt().SetInt64(78)
	untouched(v, p)
	untouched(r, q)
}

func C21_AddDecimal() {
	x, y := int64(int8(sym.U8("x"))), int64(int8(sym.U8("y")))
	ex, ey := sym.Choose("ex", 3)-1, sym.Choose("ey", 3)-1
	v := value.Decimal(decOf(x, int32(ex)))
	var r value.Number
	switch sym.Choose("right", 4) {
	case 0:
		r = value.Decimal(decOf(y, int32(ey)))
	case 1:
		r, ey = value.Long(y), 0
	case 2:
		r, ey = value.BigInt(bigOf(y)), 0
	default:
		y = []int64{0, 1, -3, 100}[sym.Choose("d", 4)]
		r, ey = value.Double(float64(y)), 0
	}
	p, q := pack(v), pack(r)
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Type() == value.DECIMAL && d.Type() == value.DECIMAL, "the result has not the type of the left operand")
	e := ex
	if ey < e {
		e = ey
	}
	a, b := floorScaled(x, ex-e), floorScaled(y, ey-e)
	sym.Assert(s.Decimal().Equal(decOf(a+b, int32(e))), "a sum of decimals is wrong")
	sym.Assert(d.Decimal().Equal(decOf(a-b, int32(e))), "a difference of decimals is wrong")
	sym.Assert(s.Subtract(r).Decimal().Equal(v.Decimal()), "subtracting what was added does not give back the original")
	untouched(v, p)
	untouched(r, q)
}

func C21_AddDouble() {
	x := sym.F64("x")
	v := value.Double(x)
	var r value.Number
	var y float64
	if sym.Choose("wide", 2) == 1 {
		y = sym.F64("y")
		r = value.Double(y)
	} else if k := sym.Choose("right", 3); k == 0 {
		n := int64(int16(sym.U16("y")))
		r, y = value.Long(n), float64(n)
	} else {
		n := []int64{0, 1, -7, 1000, 1 << 40}[sym.Choose("y", 5)]
		r, y = value.BigInt(bigOf(n)), float64(n)
		if k == 1 {
			r = value.Decimal(decOf(n, 0))
		}
	}
	p, q := pack(v), pack(r)
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Type() == value.DOUBLE && d.Type() == value.DOUBLE, "the result has not the type of the left operand")
	if math.IsNaN(x) || math.IsNaN(y) {
		sym.Assert(s.IsNaN() && d.IsNaN(), "NaN does not absorb")
	} else {
		sameDouble(s.Double(), x+y, "a sum of doubles is wrong")
		sameDouble(d.Double(), x-y, "a difference of doubles is wrong")
	}
	untouched(v, p)
	untouched(r, q)
}

func sameDouble(a, b float64, msg string) {
	if math.IsNaN(b) {
		sym.Assert(math.IsNaN(a), msg)
	} else {
		sym.Assert(math.Float64bits(a) == math.Float64bits(b), msg)
	}
}

// longs next to every power of two and of ten
func C21_LongEdges() {
	n := int64(1) << sym.Choose("power", 64)
	if sym.Choose("ten", 2) == 1 {
		n = 1
		for i := sym.Choose("power", 19); i > 0; i-- {
			n *= 10
		}
	}
	n += int64(sym.Choose("off", 5)) - 2
	if sym.Choose("neg", 2) == 1 {
		n = -n
	}
	v := value.Long(n)
	d := v.Decimal()
	z := bigOf(n)
	sym.Assert(d.Exponent() == 0 && d.Coefficient().Cmp(z) == 0, "a long converts to another decimal")
	sym.Assert(v.BigInt().Cmp(z) == 0 && v.Long() == n && v.Double() == float64(n), "a long converts to another number")
	for _, w := range []value.Number{value.BigInt(z), value.Decimal(decOf(n, 0))} {
		sym.Assert(w.Long() == n && w.BigInt().Cmp(z) == 0 && w.Decimal().Cmp(d) == 0, "a big number converts to another number")
		sym.Assert(w.Double() == float64(n), "a big number converts to another double")
		// back and forth between types, in sums too
		x := value.Long(3)
		sym.Assert(w.Add(x).Subtract(x).BigInt().Cmp(z) == 0, "subtracting what was added gives another number")
		sym.Assert(x.Add(w).Long() == 3+n, "a long sum is another one")
		sym.Assert(x.Subtract(w).Long() == 3-n, "a long difference is another one")
	}
}

// decimals of large exponents round downwards too
func C21_Floor() {
	exps := []int{1, 2, 8, 15, 17, 18, 19, 20, 21, 30, 40, 100}
	e := exps[sym.Choose("exp", len(exps))]
	qs := []*big.Int{bigOf(0), bigOf(1), bigOf(-1), bigOf(-1000), bigOf(1 << 62), big128(1<<50, 77, true), big128(1<<50, 77, false), pow10(30)}
	q := qs[sym.Choose("q", len(qs))]
	p := pow10(e)
	r := new(big.Int)
	switch sym.Choose("rest", 4) {
	case 1:
		r.SetInt64(1)
	case 2:
		r.Sub(p, bigOf(1))
	case 3:
		r.Rsh(p, 1)
	}
	c := new(big.Int).Mul(q, p)
	c.Add(c, r)
	v := value.Decimal(decBig(c, int32(-e)))
	sym.Assert(v.BigInt().Cmp(q) == 0, "a decimal does not round downwards to a big integer")
	if r.Sign() == 0 {
		if q.IsInt64() {
			sym.Assert(v.Long() == q.Int64(), "a decimal converts to another long")
		}
		w := value.Decimal(decBig(q, int32(e)))
		sym.Assert(w.BigInt().Cmp(c) == 0, "a decimal does not convert to its big integer")
	}
}

// sums over exponents that are far apart
func C21_AddFar() {
	exps := []int{-40, -20, -9, 0, 1, 17, 30}
	ex, ey := exps[sym.Choose("ex", len(exps))], exps[sym.Choose("ey", len(exps))]
	x, y := bigOf(int64(int8(sym.U8("x")))), []*big.Int{bigOf(3), bigOf(-1 << 63), big128(1<<63, 5, true)}[sym.Choose("y", 3)]
	v, r := value.Decimal(decBig(x, int32(ex))), value.Decimal(decBig(y, int32(ey)))
	e := ex
	if ey < e {
		e = ey
	}
	a, b := new(big.Int).Mul(x, pow10(ex-e)), new(big.Int).Mul(y, pow10(ey-e))
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Decimal().Cmp(decBig(new(big.Int).Add(a, b), int32(e))) == 0, "a sum of decimals is wrong")
	sym.Assert(d.Decimal().Cmp(decBig(new(big.Int).Sub(a, b), int32(e))) == 0, "a difference of decimals is wrong")
	sym.Assert(s.Subtract(r).Decimal().Cmp(v.Decimal()) == 0, "subtracting what was added does not give back the original")
	if ey >= 0 {
		w := value.BigInt(x)
		i := new(big.Int).Mul(y, pow10(ey))
		sym.Assert(w.Add(r).BigInt().Cmp(new(big.Int).Add(x, i)) == 0, "a sum of big integers is wrong")
		sym.Assert(w.Subtract(r).BigInt().Cmp(new(big.Int).Sub(x, i)) == 0, "a difference of big integers is wrong")
	}
}

// big integers of many bytes
func C21_WideBig() {
	n := wideSizes[sym.Choose("size", len(wideSizes))]
	z := wideBig("z", n)
	v := value.BigInt(z)
	d := v.Decimal()
	sym.Assert(d.Exponent() == 0 && d.Coefficient().Cmp(z) == 0, "a big integer converts to another decimal")
	w := value.Decimal(decBig(z, 0))
	k := []int64{0, 1, -1, 255, 1 << 62, math.MinInt64}[sym.Choose("k", 6)]
	for _, r := range []value.Number{value.Long(k), value.BigInt(bigOf(k)), value.Decimal(decOf(k, 0))} {
		s, d := v.Add(r), v.Subtract(r)
		x, y := new(big.Int).Add(z, bigOf(k)), new(big.Int).Sub(z, bigOf(k))
		sym.Assert(s.BigInt().Cmp(x) == 0, "a sum of big integers is wrong")
		sym.Assert(d.BigInt().Cmp(y) == 0, "a difference of big integers is wrong")
		sym.Assert(d.Add(r).BigInt().Cmp(z) == 0, "subtracting what was added does not give back the original")
		sym.Assert(w.Add(r).Decimal().Cmp(decBig(x, 0)) == 0, "a sum of decimals is wrong")
		sym.Assert(w.Subtract(r).Decimal().Cmp(decBig(y, 0)) == 0, "a difference of decimals is wrong")
	}
}

func C21_WideDecimal() {
	n := wideSizes[sym.Choose("size", len(wideSizes)-2)]
	z := new(big.Int).Lsh(bigOf([]int64{1, -1, 12345}[sym.Choose("z", 3)]), uint(8*n))
	z.Add(z, bigOf(int64(sym.Choose("off", 3))-1))
	w := value.Decimal(decBig(z, 0))
	sym.Assert(w.BigInt().Cmp(z) == 0, "a decimal converts to another big integer")
	sym.Assert(value.BigInt(new(big.Int)).Add(w).BigInt().Cmp(z) == 0, "a sum of big integers is wrong")
}

// a number and itself, and results that go on being used
func C21_Same() {
	var n value.Number
	var z *big.Int
	exp, long := int32(0), int64(0)
	kind := sym.Choose("kind", 4)
	switch kind {
	case 0:
		a := sym.I64("a")
		z, n = bigOf(0), value.Long(a)
		long = a
	case 1:
		z = big128(uint64(sym.U8("hi")), sym.U64("lo"), sym.Choose("neg", 2) == 1)
		n = value.BigInt(z)
	case 2:
		exp = int32(sym.Choose("exp", 5) - 2)
		z = bigOf(int64(int8(sym.U8("z"))))
		n = value.Decimal(decBig(z, exp))
	default:
		z = bigOf([]int64{0, 1, -3, 100, 1 << 50, -255, 1 << 40}[sym.Choose("z", 7)])
		n = value.Double(float64(z.Int64()))
	}
	z = new(big.Int).Set(z)
	is := func(v value.Number, k int64, what string) {
		w := new(big.Int)
		for i := int64(0); i < k; i++ {
			w.Add(w, z)
		}
		sym.Assert(v.Type() == n.Type(), what)
		switch kind {
		case 0:
			l := int64(0)
			for i := int64(0); i < k; i++ {
				l += long
			}
			sym.Assert(v.Long() == l, what)
		case 1:
			sym.Assert(v.BigInt().Cmp(w) == 0, what)
		case 2:
			sym.Assert(v.Decimal().Equal(decBig(w, exp)), what)
		default:
			sym.Assert(v.Double() == float64(w.Int64()), what)
		}
	}
	two, none := n.Add(n), n.Subtract(n)
	four := two.Add(two)
	three := four.Subtract(n)
	again, zero := three.Add(n), three.Subtract(three)
	six := three.Add(two).Add(n)
	is(n, 1, "an operand is changed by arithmetic")
	is(two, 2, "a sum of a number and itself is wrong")
	is(none, 0, "a number less itself is not zero")
	is(four, 4, "a sum of a number and itself is wrong")
	is(three, 3, "a difference is wrong, or changed later")
	is(again, 4, "a sum is wrong, or changed later")
	is(zero, 0, "a number less itself is not zero")
	is(six, 6, "a sum of sums is wrong")
	is(n, 1, "an operand is changed by arithmetic")
}

// wide big integers and any long
func C21_BigAndLong() {
	hi := uint64(sym.Choose("hi", 2))
	if sym.Tier() > 0 {
		hi = sym.U64("hi")
	}
	x := big128(hi, sym.U64("lo"), sym.Choose("neg", 2) == 1)
	n := sym.I64("n")
	y := bigOf(n)
	r := value.Long(n)
	v := value.BigInt(new(big.Int).Set(x))
	s, d := v.Add(r), v.Subtract(r)
	sym.Assert(s.Type() == value.BIGINT && d.Type() == value.BIGINT, "the result has not the type of the left operand")
	sym.Assert(s.BigInt().Cmp(new(big.Int).Add(x, y)) == 0, "a sum of big integers is wrong")
	sym.Assert(d.BigInt().Cmp(new(big.Int).Sub(x, y)) == 0, "a difference of big integers is wrong")
	sym.Assert(v.BigInt().Cmp(x) == 0 && r.BigInt().Cmp(y) == 0, "an operand is changed by arithmetic")
}
