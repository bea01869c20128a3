package main

// Hash-consed SMT terms: booleans (w == 0) and bit-vectors of width 1..64.
// Floating-point values are carried as their IEEE-754 bit patterns; the fp
// operations convert at the boundary.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // hi, lo
	OpZext
	OpSext
	OpUMulH
	OpFLt
	OpFLe
	OpFEq
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFSqrt
	OpFFromS // signed bv64 -> float (w)
	OpFFromU
	OpFToS // float -> bv64 truncation, in-range only (guarded by callers)
	OpFToU
	OpFToF // float precision change
	OpFRti // round to integral; hi = mode (0 floor, 1 ceil, 2 trunc, 3 even)
)

type Term struct {
	op     Op
	w      int // 0 = Bool
	a      [3]*Term
	n      int
	val    uint64 // const; upper bound of a bounded variable
	hi, lo int
	name   string
	id     int
	evTag  int
	evVal  uint64
	defTag int // solver generation in which it has been defined
	defN   int
	vars   int   // 0 unknown
	leaf   *Term // the only unknown of at most 8 bits in it; noLeaf if there are others
}

func (t *Term) isConst() bool  { return t.op == OpConst }
func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.hi, t.lo)
	}
	for i := 0; i < t.n; i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat", OpExtract: "extract", OpZext: "zext", OpSext: "sext", OpUMulH: "umulh",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq", OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div", OpFSqrt: "fp.sqrt", OpFFromS: "fp.from_s", OpFFromU: "fp.from_u", OpFToS: "fp.to_s", OpFToU: "fp.to_u", OpFToF: "fp.to_fp", OpFRti: "fp.rti"}

type tkey struct {
	op         Op
	w          int
	hi, lo     int
	a0, a1, a2 int
}
type ckey struct {
	w int
	v uint64
}

// TermTab is a per-worker term table.
type TermTab struct {
	tabs   map[*Term][]uint64
	tab    map[tkey]*Term
	consts map[ckey]*Term
	small  [65][256]*Term
	vars   map[string]*Term
	nextID int
	tag    int
	True   *Term
	False  *Term
}

func NewTermTab() *TermTab {
	tt := &TermTab{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, vars: map[string]*Term{}, nextID: 1}
	tt.True = tt.C(0, 1)
	tt.False = tt.C(0, 0)
	return tt
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tt *TermTab) C(w int, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	if v < 256 {
		if t := tt.small[w][v]; t != nil {
			return t
		}
	} else if t, ok := tt.consts[ckey{w, v}]; ok {
		return t
	}
	t := &Term{op: OpConst, w: w, val: v, id: tt.nextID}
	tt.nextID++
	if v < 256 {
		tt.small[w][v] = t
	} else {
		tt.consts[ckey{w, v}] = t
	}
	return t
}

func (tt *TermTab) B(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TermTab) Var(name string, w int) *Term {
	name = fmt.Sprintf("%s_%d", name, w)
	if t, ok := tt.vars[name]; ok {
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: tt.nextID, leaf: noLeaf}
	if w > 0 && w <= 8 {
		t.leaf = t
	}
	tt.nextID++
	tt.vars[name] = t
	return t
}

// Bounded is a variable that is asserted to be at most max wherever it occurs.
func (tt *TermTab) Bounded(name string, w int, max uint64) *Term {
	t := tt.Var(name, w)
	t.val = max
	return t
}

func (tt *TermTab) mk(op Op, w, hi, lo int, args ...*Term) *Term {
	k := tkey{op: op, w: w, hi: hi, lo: lo}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		}
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, n: len(args), id: tt.nextID}
	copy(t.a[:], args)
	for _, a := range args {
		if t.leaf == nil {
			t.leaf = a.leaf
		} else if a.leaf != nil && a.leaf != t.leaf {
			t.leaf = noLeaf
		}
	}
	if t.leaf == noLeaf && op == OpExtract && w <= 8 && args[0].op == OpVar {
		t.leaf = t
	}
	tt.nextID++
	tt.tab[k] = t
	return t
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (tt *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return tt.B(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return tt.mk(OpNot, 0, 0, 0, a)
}
func (tt *TermTab) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return tt.False
	}
	return tt.mk(OpAnd, 0, 0, 0, a, b)
}
func (tt *TermTab) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return tt.True
	}
	return tt.mk(OpOr, 0, 0, 0, a, b)
}
func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d: %v %v", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return tt.B(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
		switch a.op {
		case OpIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				return tt.Ite(a.a[0], tt.Eq(a.a[1], b), tt.Eq(a.a[2], b))
			}
		case OpZext:
			x := a.a[0]
			if b.val > mask(x.w) {
				return tt.False
			}
			return tt.Eq(x, tt.C(x.w, b.val))
		case OpConcat:
			h, l := a.a[0], a.a[1]
			return tt.And(tt.Eq(h, tt.C(h.w, b.val>>uint(l.w))), tt.Eq(l, tt.C(l.w, b.val)))
		case OpAdd:
			if a.a[1].isConst() {
				return tt.Eq(a.a[0], tt.C(a.w, b.val-a.a[1].val))
			}
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
			return tt.Eq(a.a[0], b.a[0])
		}
		if x, y, c, ok := tt.cancel(a, b); ok {
			return tt.Eq(tt.sum(a.w, x, c), tt.sum(a.w, y, 0))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.compare(OpEq, a, b)
}
func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	return tt.tabulate(tt.mk(OpIte, a.w, 0, 0, c, a, b))
}

var noLeaf = &Term{}

// table lists the values of a term of one small unknown.
func (tt *TermTab) table(t *Term) []uint64 {
	if t.leaf == nil || t.leaf == noLeaf {
		return nil
	}
	if r, ok := tt.tabs[t]; ok {
		return r
	}
	v, sh := t.leaf, 0
	if v.op == OpExtract {
		v, sh = v.a[0], v.lo
	}
	r := make([]uint64, 1<<t.leaf.w)
	m := Model{}
	for i := range r {
		m[v.name] = uint64(i) << sh
		r[i] = tt.Eval(t, m)
	}
	if tt.tabs == nil {
		tt.tabs = map[*Term][]uint64{}
	}
	tt.tabs[t] = r
	return r
}

// tabulate replaces a function of one small unknown that is constant or a
// part of the unknown.
func (tt *TermTab) tabulate(t *Term) *Term {
	if t.leaf == nil || t.leaf == noLeaf || t.w > 64 {
		return t
	}
	if r := tt.fromTable(t.leaf, tt.table(t), t.w); r != nil {
		return r
	}
	return t
}

func (tt *TermTab) fromTable(leaf *Term, r []uint64, w int) *Term {
	same := true
	for _, x := range r {
		if x != r[0] {
			same = false
			break
		}
	}
	if same {
		if w == 0 {
			return tt.B(r[0] == 1)
		}
		return tt.C(w, r[0])
	}
	if w == 0 {
		return nil
	}
	for lo := 0; lo < leaf.w; lo++ {
	next:
		for hi := lo; hi < leaf.w && hi-lo < w; hi++ {
			for i, x := range r {
				if x != uint64(i)>>lo&mask(hi-lo+1) {
					continue next
				}
			}
			return tt.Zext(tt.Extract(leaf, hi, lo), w)
		}
	}
	return nil
}

// hasIte: the term is a choice, maybe widened.
func hasIte(t *Term) bool {
	for t.op == OpZext || t.op == OpExtract || t.op == OpAdd && t.a[1].isConst() {
		t = t.a[0]
	}
	return t.op == OpIte
}

// unsigned upper bound, cheap
func ub(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		if t.val != 0 {
			return t.val
		}
	case OpZext:
		return ub(t.a[0])
	case OpBAnd:
		x, y := ub(t.a[0]), ub(t.a[1])
		if x < y {
			return x
		}
		return y
	case OpConcat:
		return ub(t.a[0])<<uint(t.a[1].w) | mask(t.a[1].w)
	case OpIte:
		x, y := ub(t.a[1]), ub(t.a[2])
		if x > y {
			return x
		}
		return y
	case OpUrem:
		if t.a[1].isConst() && t.a[1].val > 0 {
			return t.a[1].val - 1
		}
	case OpUdiv:
		if t.a[1].isConst() && t.a[1].val > 0 {
			return ub(t.a[0]) / t.a[1].val
		}
	case OpLshr:
		if t.a[1].isConst() && t.a[1].val < 64 {
			return ub(t.a[0]) >> t.a[1].val
		}
	case OpAdd:
		x, y := ub(t.a[0]), ub(t.a[1])
		s := x + y
		if s >= x && s <= mask(t.w) {
			return s
		}
	case OpMul:
		x, y := ub(t.a[0]), ub(t.a[1])
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= mask(t.w) {
			return l
		}
	}
	return mask(t.w)
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isConst() && b.isConst() {
		return tt.B(a.val < b.val)
	}
	if b.isConst() {
		if ub(a) < b.val {
			return tt.True
		}
		if b.val == 0 {
			return tt.False
		}
	}
	if a.isConst() && a.val >= ub(b) {
		return tt.False
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return tt.Ult(a.a[0], b.a[0])
	}
	if a.op == OpZext && b.isConst() && b.val <= mask(a.a[0].w) {
		return tt.Ult(a.a[0], tt.C(a.a[0].w, b.val))
	}
	if b.op == OpZext && a.isConst() && a.val <= mask(b.a[0].w) {
		return tt.Ult(tt.C(b.a[0].w, a.val), b.a[0])
	}
	if isSum(a) || isSum(b) {
		if r, ok := linearUlt(a, b); ok {
			return tt.B(r)
		}
	}
	return tt.compare(OpUlt, a, b)
}

func (tt *TermTab) compare(op Op, a, b *Term) *Term {
	t := tt.mk(op, 0, 0, 0, a, b)
	if hasIte(a) || hasIte(b) {
		return tt.tabulate(t)
	}
	return t
}

func isSum(t *Term) bool { return t.op == OpAdd || t.op == OpMul }

func (tt *TermTab) Ule(a, b *Term) *Term { return tt.Not(tt.Ult(b, a)) }

func nonneg(t *Term) bool { return ub(t) <= mask(t.w)>>1 }

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isConst() && b.isConst() {
		return tt.B(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ult(a, b)
	}
	if nonneg(a) && b.isConst() && sx(b.val, b.w) <= 0 {
		return tt.False
	}
	if nonneg(b) && a.isConst() && sx(a.val, a.w) < 0 {
		return tt.True
	}
	if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
		return tt.Slt(a.a[0], b.a[0])
	}
	return tt.compare(OpSlt, a, b)
}
func (tt *TermTab) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

// Sums are kept as left-leaning chains of addends in the order of their
// ids, with a constant last, so that equal sums are the same term.
func (tt *TermTab) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.C(a.w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.a[1].isConst() {
			return tt.Add(a.a[0], tt.C(a.w, a.a[1].val+b.val))
		}
		return tt.mk(OpAdd, a.w, 0, 0, a, b)
	}
	if a.op != OpAdd && b.op != OpAdd {
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk(OpAdd, a.w, 0, 0, a, b)
	}
	x, c := addends(a)
	y, d := addends(b)
	return tt.sum(a.w, append(x, y...), c+d)
}

// addends lists the addends of a sum, and its constant.
func addends(t *Term) (out []*Term, c uint64) {
	for t.op == OpAdd {
		if t.a[1].isConst() {
			c += t.a[1].val
		} else {
			out = append(out, t.a[1])
		}
		t = t.a[0]
	}
	if t.isConst() {
		return out, c + t.val
	}
	return append(out, t), c
}

func (tt *TermTab) sum(w int, x []*Term, c uint64) *Term {
	if len(x) == 0 {
		return tt.C(w, c)
	}
	sort.Slice(x, func(i, j int) bool { return x[i].id < x[j].id })
	r := x[0]
	for _, y := range x[1:] {
		r = tt.mk(OpAdd, w, 0, 0, r, y)
	}
	if c &= mask(w); c != 0 {
		r = tt.mk(OpAdd, w, 0, 0, r, tt.C(w, c))
	}
	return r
}

// cancel removes the addends that two sums have in common.
func (tt *TermTab) cancel(a, b *Term) (x, y []*Term, c uint64, ok bool) {
	if a.op != OpAdd && b.op != OpAdd {
		return
	}
	x, c = addends(a)
	y, d := addends(b)
	for i := 0; i < len(x); i++ {
		for j := range y {
			if x[i] == y[j] {
				x = append(x[:i:i], x[i+1:]...)
				y = append(y[:j:j], y[j+1:]...)
				i--
				ok = true
				break
			}
		}
	}
	return x, y, c - d, ok
}

func (tt *TermTab) Sub(a, b *Term) *Term {
	if a == b {
		return tt.C(a.w, 0)
	}
	if b.isConst() {
		return tt.Add(a, tt.C(a.w, -b.val))
	}
	if x, y, c, ok := tt.cancel(a, b); ok {
		if len(y) == 0 {
			return tt.sum(a.w, x, c)
		}
		return tt.Add(tt.mk(OpSub, a.w, 0, 0, tt.sum(a.w, x, 0), tt.sum(a.w, y, 0)), tt.C(a.w, c))
	}
	return tt.mk(OpSub, a.w, 0, 0, a, b)
}

// linear adds the addends of k*t to out, if t is a sum of multiples that
// does not wrap.
func linear(t *Term, k *big.Int, out map[*Term]*big.Int, c *big.Int) bool {
	for t.op == OpZext {
		t = t.a[0]
	}
	switch {
	case t.op == OpConst:
		c.Add(c, new(big.Int).Mul(k, new(big.Int).SetUint64(t.val)))
		return true
	case t.op == OpAdd:
		x, y := ub(t.a[0]), ub(t.a[1])
		if s := x + y; s < x || s > mask(t.w) {
			return false
		}
		return linear(t.a[0], k, out, c) && linear(t.a[1], k, out, c)
	case t.op == OpMul && t.a[1].isConst():
		if h, l := bits.Mul64(ub(t.a[0]), t.a[1].val); h != 0 || l > mask(t.w) {
			return false
		}
		return linear(t.a[0], new(big.Int).Mul(k, new(big.Int).SetUint64(t.a[1].val)), out, c)
	}
	if o := out[t]; o != nil {
		out[t] = new(big.Int).Add(o, k)
	} else {
		out[t] = k
	}
	return true
}

// linearUlt decides a < b from the bounds of the addends.
func linearUlt(a, b *Term) (less, known bool) {
	out := map[*Term]*big.Int{}
	lo := new(big.Int)
	if !linear(a, big.NewInt(1), out, lo) || !linear(b, big.NewInt(-1), out, lo) {
		return
	}
	hi := new(big.Int).Set(lo)
	for t, k := range out {
		v := new(big.Int).Mul(k, new(big.Int).SetUint64(ub(t)))
		if k.Sign() > 0 {
			hi.Add(hi, v)
		} else {
			lo.Add(lo, v)
		}
	}
	if hi.Sign() < 0 {
		return true, true
	}
	return false, lo.Sign() >= 0
}
func (tt *TermTab) Neg(a *Term) *Term { return tt.Sub(tt.C(a.w, 0), a) }
func (tt *TermTab) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.C(a.w, a.val*b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		switch a.op {
		case OpAdd:
			x, c := addends(a)
			for i := range x {
				x[i] = tt.Mul(x[i], b)
			}
			return tt.Add(tt.sum(a.w, x, 0), tt.C(a.w, c*b.val))
		case OpMul:
			if a.a[1].isConst() {
				return tt.Mul(a.a[0], tt.C(a.w, a.a[1].val*b.val))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, 0, 0, a, b)
}
func (tt *TermTab) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tt.C(a.w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tt.Lshr(a, tt.C(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if ub(a) < b.val {
			return tt.C(a.w, 0)
		}
		if w := narrowW(ub(a), b.val); w < a.w {
			return tt.Zext(tt.Udiv(tt.Extract(a, w-1, 0), tt.C(w, b.val)), a.w)
		}
	}
	if !b.isConst() { // division by zero panics before
		if w := narrowW(ub(a), ub(b)); w < a.w {
			return tt.Zext(tt.Udiv(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0)), a.w)
		}
	}
	return tt.mk(OpUdiv, a.w, 0, 0, a, b)
}

func narrowW(xs ...uint64) int {
	m := uint64(1)
	for _, x := range xs {
		m |= x
	}
	return (bits.Len64(m) + 3) &^ 3
}
func (tt *TermTab) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tt.C(a.w, a.val%b.val)
		}
		if b.val == 1 {
			return tt.C(a.w, 0)
		}
		if b.val&(b.val-1) == 0 {
			return tt.BAnd(a, tt.C(a.w, b.val-1))
		}
		if ub(a) < b.val {
			return a
		}
		if w := narrowW(ub(a), b.val); w < a.w {
			return tt.Zext(tt.Urem(tt.Extract(a, w-1, 0), tt.C(w, b.val)), a.w)
		}
	}
	if !b.isConst() {
		if w := narrowW(ub(a), ub(b)); w < a.w {
			return tt.Zext(tt.Urem(tt.Extract(a, w-1, 0), tt.Extract(b, w-1, 0)), a.w)
		}
	}
	return tt.mk(OpUrem, a.w, 0, 0, a, b)
}
func (tt *TermTab) Sdiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.C(a.w, uint64(-x))
		}
		return tt.C(a.w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Udiv(a, b)
	}
	return tt.mk(OpSdiv, a.w, 0, 0, a, b)
}
func (tt *TermTab) Srem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.C(a.w, 0)
		}
		return tt.C(a.w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Urem(a, b)
	}
	return tt.mk(OpSrem, a.w, 0, 0, a, b)
}
func (tt *TermTab) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.C(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask
		if b.val&(b.val+1) == 0 {
			k := bits.Len64(b.val)
			if k == a.w-1 {
				// the absolute value of a float
				if a.op == OpFSub && a.a[0].id > a.a[1].id {
					a = tt.FArith(OpFSub, a.a[1], a.a[0])
				}
				if n, w, ok := tt.smallInt(a); ok && !a.isConst() && w <= 52 {
					return tt.FFromInt(tt.Ite(tt.Slt(n, tt.C(64, 0)), tt.Neg(n), n), true, a.w)
				}
			}
			return tt.Zext(tt.Extract(a, k-1, 0), a.w)
		}
	}
	return tt.mk(OpBAnd, a.w, 0, 0, a, b)
}

type piece struct {
	t *Term // nil: zeros
	w int
}

// pieces splits t (msb first) into concat pieces, zero pieces as nil.
func pieces(t *Term, out []piece) []piece {
	switch t.op {
	case OpConcat:
		out = pieces(t.a[0], out)
		return pieces(t.a[1], out)
	case OpZext:
		out = append(out, piece{nil, t.w - t.a[0].w})
		return pieces(t.a[0], out)
	case OpConst:
		if t.val == 0 {
			return append(out, piece{nil, t.w})
		}
	}
	return append(out, piece{t, t.w})
}

func (tt *TermTab) BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.C(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a.op == OpConcat || a.op == OpZext || b.op == OpConcat || b.op == OpZext {
		if t := tt.orPieces(a, b); t != nil {
			return t
		}
	}
	return tt.mk(OpBOr, a.w, 0, 0, a, b)
}

func (tt *TermTab) orPieces(a, b *Term) *Term {
	var bufA, bufB [16]piece
	pa, pb := pieces(a, bufA[:0]), pieces(b, bufB[:0])
	var res *Term
	i, j := 0, 0
	ra, rb := pa[0].w, pb[0].w
	for {
		m := ra
		if rb < m {
			m = rb
		}
		var x, y *Term
		if pa[i].t != nil {
			x = tt.Extract(pa[i].t, ra-1, ra-m)
		}
		if pb[j].t != nil {
			y = tt.Extract(pb[j].t, rb-1, rb-m)
		}
		var r *Term
		switch {
		case x == nil && y == nil:
			r = tt.C(m, 0)
		case x == nil:
			r = y
		case y == nil:
			r = x
		case x.isConst() && y.isConst():
			r = tt.C(m, x.val|y.val)
		case x == y:
			r = x
		default:
			return nil
		}
		if res == nil {
			res = r
		} else {
			res = tt.Concat(res, r)
		}
		ra -= m
		rb -= m
		if ra == 0 {
			i++
			if i < len(pa) {
				ra = pa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(pb) {
				rb = pb[j].w
			}
		}
		if i >= len(pa) || j >= len(pb) {
			break
		}
	}
	return res
}

func (tt *TermTab) BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return tt.C(a.w, 0)
	}
	if b.isConst() {
		if a.isConst() {
			return tt.C(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return tt.BNot(a)
		}
	}
	return tt.mk(OpBXor, a.w, 0, 0, a, b)
}
func (tt *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.C(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return tt.mk(OpBNot, a.w, 0, 0, a)
}
func (tt *TermTab) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return tt.C(a.w, 0)
		}
		if a.isConst() {
			return tt.C(a.w, a.val<<s.val)
		}
		k := int(s.val)
		return tt.Concat(tt.Extract(a, a.w-1-k, 0), tt.C(k, 0))
	}
	return tt.mk(OpShl, a.w, 0, 0, a, s)
}
func (tt *TermTab) Lshr(a, s *Term) *Term {
	if s.isConst() {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return tt.C(a.w, 0)
		}
		if a.isConst() {
			return tt.C(a.w, a.val>>s.val)
		}
		return tt.Zext(tt.Extract(a, a.w-1, int(s.val)), a.w)
	}
	return tt.mk(OpLshr, a.w, 0, 0, a, s)
}
func (tt *TermTab) Ashr(a, s *Term) *Term {
	if s.isConst() {
		k := s.val
		if k >= uint64(a.w) {
			k = uint64(a.w - 1)
		}
		if k == 0 {
			return a
		}
		if a.isConst() {
			return tt.C(a.w, uint64(sx(a.val, a.w)>>k))
		}
		return tt.Sext(tt.Extract(a, a.w-1, int(k)), a.w)
	}
	return tt.mk(OpAshr, a.w, 0, 0, a, s)
}
func (tt *TermTab) Concat(h, l *Term) *Term {
	w := h.w + l.w
	if w > 64 {
		panic("concat too wide")
	}
	if h.isConst() && l.isConst() {
		return tt.C(w, h.val<<uint(l.w)|l.val)
	}
	if h.isConst() && h.val == 0 {
		return tt.Zext(l, w)
	}
	if h.op == OpZext {
		return tt.Zext(tt.Concat(h.a[0], l), w)
	}
	if h.op == OpExtract && l.op == OpExtract && h.a[0] == l.a[0] && h.lo == l.hi+1 {
		return tt.Extract(h.a[0], h.hi, l.lo)
	}
	if h.op == OpExtract && h.a[0] == l && h.lo == l.w {
		panic("bad extract")
	}
	// right-assoc merging: concat(x, concat(y,z)) with x,y mergeable
	if l.op == OpConcat {
		y := l.a[0]
		if (h.op == OpExtract && y.op == OpExtract && h.a[0] == y.a[0] && h.lo == y.hi+1) || (h.isConst() && y.isConst()) {
			return tt.Concat(tt.Concat(h, y), l.a[1])
		}
	}
	if h.op == OpConcat {
		y := h.a[1]
		if (y.op == OpExtract && l.op == OpExtract && y.a[0] == l.a[0] && y.lo == l.hi+1) || (y.isConst() && l.isConst()) {
			return tt.Concat(h.a[0], tt.Concat(y, l))
		}
	}
	return tt.mk(OpConcat, w, 0, 0, h, l)
}
func (tt *TermTab) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if w <= 0 || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	if a.isConst() {
		return tt.C(w, a.val>>uint(lo))
	}
	switch a.op {
	case OpExtract:
		return tt.Extract(a.a[0], a.lo+hi, a.lo+lo)
	case OpConcat:
		l := a.a[1]
		if hi < l.w {
			return tt.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return tt.Extract(a.a[0], hi-l.w, lo-l.w)
		}
		return tt.Concat(tt.Extract(a.a[0], hi-l.w, 0), tt.Extract(l, l.w-1, lo))
	case OpZext:
		x := a.a[0]
		if hi < x.w {
			return tt.Extract(x, hi, lo)
		}
		if lo >= x.w {
			return tt.C(w, 0)
		}
		return tt.Zext(tt.Extract(x, x.w-1, lo), w)
	case OpSext:
		x := a.a[0]
		if hi < x.w {
			return tt.Extract(x, hi, lo)
		}
		if lo < x.w {
			return tt.Sext(tt.Extract(x, x.w-1, lo), w)
		}
	case OpIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return tt.Ite(a.a[0], tt.Extract(a.a[1], hi, lo), tt.Extract(a.a[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := tt.Extract(a.a[0], hi, lo), tt.Extract(a.a[1], hi, lo)
		switch a.op {
		case OpBAnd:
			return tt.BAnd(x, y)
		case OpBOr:
			return tt.BOr(x, y)
		default:
			return tt.BXor(x, y)
		}
	case OpBNot:
		return tt.BNot(tt.Extract(a.a[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := tt.Extract(a.a[0], hi, 0), tt.Extract(a.a[1], hi, 0)
			switch a.op {
			case OpAdd:
				return tt.Add(x, y)
			case OpSub:
				return tt.Sub(x, y)
			default:
				return tt.Mul(x, y)
			}
		}
	}
	return tt.mk(OpExtract, w, hi, lo, a)
}
func (tt *TermTab) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext")
	}
	if a.isConst() {
		return tt.C(w, a.val)
	}
	if a.op == OpZext {
		return tt.Zext(a.a[0], w)
	}
	return tt.mk(OpZext, w, 0, 0, a)
}
func (tt *TermTab) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.C(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OpSext {
		return tt.Sext(a.a[0], w)
	}
	if a.op == OpZext || nonneg(a) {
		return tt.Zext(a, w)
	}
	return tt.mk(OpSext, w, 0, 0, a)
}
func (tt *TermTab) UMulH(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		h, _ := bits.Mul64(a.val, b.val)
		return tt.C(64, h)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && (b.val == 0 || b.val == 1) {
		return tt.C(64, 0)
	}
	if h, _ := bits.Mul64(ub(a), ub(b)); h == 0 {
		return tt.C(64, 0)
	}
	return tt.mk(OpUMulH, 64, 0, 0, a, b)
}

// --- floating point on bit patterns

func fval(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, w int) uint64 {
	if f != f {
		return canonNaN(w)
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// canonNaN is the bit pattern given to every NaN an fp operation produces, in
// the encoding and in the evaluator alike.
func canonNaN(w int) uint64 {
	if w == 32 {
		return 0x7fc00000
	}
	return 0x7ff8000000000000
}

func (tt *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.B(evFCmp(op, a.val, b.val, a.w))
	}
	if m, ok := tt.smallCmp(op, a, b); ok {
		return m
	}
	if a == b && neverNaN(a) {
		return tt.B(op != OpFLt)
	}
	if op == OpFEq && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, 0, 0, 0, a, b)
}
func evFCmp(op Op, x, y uint64, w int) bool {
	f, g := fval(x, w), fval(y, w)
	switch op {
	case OpFLt:
		return f < g
	case OpFLe:
		return f <= g
	}
	return f == g
}

// sbits is a number of bits that hold t as a signed number.
func sbits(t *Term, depth int) int {
	if depth == 0 {
		return t.w
	}
	r := t.w
	switch t.op {
	case OpConst:
		v := sx(t.val, t.w)
		if v < 0 {
			v = ^v
		}
		r = bits.Len64(uint64(v)) + 1
	case OpSext:
		r = sbits(t.a[0], depth-1)
	case OpZext:
		r = t.a[0].w + 1
	case OpAdd, OpSub:
		x, y := sbits(t.a[0], depth-1), sbits(t.a[1], depth-1)
		if y > x {
			x = y
		}
		r = x + 1
	case OpIte:
		x, y := sbits(t.a[1], depth-1), sbits(t.a[2], depth-1)
		if y > x {
			x = y
		}
		r = x
	}
	if r > t.w {
		r = t.w
	}
	return r
}

// smallInt: a float that is an integer of few bits, never a negative zero.
func (tt *TermTab) smallInt(t *Term) (*Term, int, bool) {
	if t.isConst() && t.w == 64 {
		f := math.Float64frombits(t.val)
		if f == math.Trunc(f) && math.Abs(f) < 1<<50 && (f != 0 || t.val == 0) {
			n := tt.C(64, uint64(int64(f)))
			return n, sbits(n, 1), true
		}
		return nil, 0, false
	}
	if t.op != OpFFromS || t.w != 64 {
		return nil, 0, false
	}
	if w := sbits(t.a[0], 6); w <= 53 {
		return tt.Sext(t.a[0], 64), w, true
	}
	return nil, 0, false
}

// neverNaN: t is certainly a number.
func neverNaN(t *Term) bool {
	finite := func(c *Term) bool {
		f := fval(c.val, c.w)
		return c.isConst() && f == f && !math.IsInf(f, 0)
	}
	switch t.op {
	case OpConst:
		f := fval(t.val, t.w)
		return f == f
	case OpFFromS, OpFFromU:
		return true
	case OpFDiv:
		return (t.a[0].op == OpFFromS || t.a[0].op == OpFFromU) && finite(t.a[1]) && fval(t.a[1].val, t.w) != 0
	case OpFMul:
		return (t.a[0].op == OpFFromS || t.a[0].op == OpFFromU) && finite(t.a[1]) || (t.a[1].op == OpFFromS || t.a[1].op == OpFFromU) && finite(t.a[0])
	}
	return false
}

func (tt *TermTab) smallCmp(op Op, a, b *Term) (*Term, bool) {
	m, _, ok := tt.smallInt(a)
	n, _, ok2 := tt.smallInt(b)
	if ok && ok2 {
		switch op {
		case OpFEq:
			return tt.Eq(m, n), true
		case OpFLt:
			return tt.Slt(m, n), true
		default:
			return tt.Sle(m, n), true
		}
	}
	// against another constant
	if ok && b.isConst() {
		f := math.Float64frombits(b.val)
		if f == f && math.Abs(f) < 1<<60 {
			switch op {
			case OpFEq:
				return tt.B(false), f != math.Trunc(f)
			case OpFLt:
				return tt.Slt(m, tt.C(64, uint64(int64(math.Ceil(f))))), true
			default:
				return tt.Sle(m, tt.C(64, uint64(int64(math.Floor(f))))), true
			}
		}
	}
	if ok2 && a.isConst() {
		f := math.Float64frombits(a.val)
		if f == f && math.Abs(f) < 1<<60 {
			switch op {
			case OpFEq:
				return tt.B(false), f != math.Trunc(f)
			case OpFLt:
				return tt.Slt(tt.C(64, uint64(int64(math.Floor(f)))), n), true
			default:
				return tt.Sle(tt.C(64, uint64(int64(math.Ceil(f)))), n), true
			}
		}
	}
	return nil, false
}
func evFArith(op Op, x, y uint64, w int) uint64 {
	if w == 32 {
		f, g := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = f + g
		case OpFSub:
			r = f - g
		case OpFMul:
			r = f * g
		case OpFDiv:
			r = f / g
		}
		return fbits(float64(r), 32)
	}
	f, g := fval(x, w), fval(y, w)
	switch op {
	case OpFAdd:
		return fbits(f+g, w)
	case OpFSub:
		return fbits(f-g, w)
	case OpFMul:
		return fbits(f*g, w)
	}
	return fbits(f/g, w)
}
func (tt *TermTab) FArith(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.C(a.w, evFArith(op, a.val, b.val, a.w))
	}
	if op == OpFAdd || op == OpFSub {
		m, x, ok := tt.smallInt(a)
		n, y, ok2 := tt.smallInt(b)
		if ok && ok2 && a.w == 64 && x <= 51 && y <= 51 {
			if op == OpFAdd {
				return tt.FFromInt(tt.Add(m, n), true, 64)
			}
			return tt.FFromInt(tt.Sub(m, n), true, 64)
		}
	}
	if (op == OpFAdd || op == OpFMul) && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, a.w, 0, 0, a, b)
}
func (tt *TermTab) FSqrt(a *Term) *Term {
	if a.isConst() {
		return tt.C(a.w, fbits(math.Sqrt(fval(a.val, a.w)), a.w))
	}
	return tt.mk(OpFSqrt, a.w, 0, 0, a)
}
func (tt *TermTab) FFromInt(a *Term, signed bool, w int) *Term {
	op := OpFFromU
	if !signed && a.w < 64 {
		a, signed = tt.Zext(a, 64), true
	} else if !signed && a.op == OpZext {
		signed = true
	}
	if signed {
		op = OpFFromS
	}
	if a.isConst() {
		return tt.C(w, evFFrom(op, a.val, a.w, w))
	}
	return tt.mk(op, w, 0, 0, a)
}
func evFFrom(op Op, v uint64, aw, w int) uint64 {
	if op == OpFFromS {
		x := sx(v, aw)
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

// FToS: truncating conversion to signed 64; the amd64 "integer indefinite"
// value for NaN / out of range is added by the caller.
func (tt *TermTab) FToS(a *Term) *Term {
	if n, _, ok := tt.smallInt(a); ok {
		return n
	}
	if a.isConst() {
		return tt.C(64, uint64(int64(fval(a.val, a.w))))
	}
	return tt.mk(OpFToS, 64, 0, 0, a)
}
func (tt *TermTab) FToU(a *Term) *Term {
	if a.isConst() {
		return tt.C(64, uint64(fval(a.val, a.w)))
	}
	return tt.mk(OpFToU, 64, 0, 0, a)
}
func (tt *TermTab) FToF(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.C(w, fbits(fval(a.val, a.w), w))
	}
	return tt.mk(OpFToF, w, 0, 0, a)
}
func evRti(v uint64, mode int) uint64 {
	f := math.Float64frombits(v)
	if f != f {
		return canonNaN(64)
	}
	switch mode {
	case 0:
		f = math.Floor(f)
	case 1:
		f = math.Ceil(f)
	case 2:
		f = math.Trunc(f)
	case 3:
		f = math.RoundToEven(f)
	}
	return math.Float64bits(f)
}
func (tt *TermTab) FRti(a *Term, mode int) *Term {
	if _, _, ok := tt.smallInt(a); ok {
		return a
	}
	if a.isConst() {
		return tt.C(64, evRti(a.val, mode))
	}
	return tt.mk(OpFRti, 64, mode, 0, a)
}

// --- evaluation under a model

type Model map[string]uint64

func (tt *TermTab) Eval(t *Term, m Model) uint64 {
	tt.tag++
	return tt.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTab) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t.name]
	}
	if t.evTag == tt.tag {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpIte:
		if tt.eval(t.a[0], m) == 1 {
			r = tt.eval(t.a[1], m)
		} else {
			r = tt.eval(t.a[2], m)
		}
	case OpAnd:
		r = tt.eval(t.a[0], m)
		if r == 1 {
			r = tt.eval(t.a[1], m)
		}
	case OpOr:
		r = tt.eval(t.a[0], m)
		if r == 0 {
			r = tt.eval(t.a[1], m)
		}
	default:
		x := tt.eval(t.a[0], m)
		var y uint64
		if t.n > 1 {
			y = tt.eval(t.a[1], m)
		}
		aw := t.a[0].w
		switch t.op {
		case OpNot:
			r = 1 - x
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sx(x, aw) < sx(y, aw))
		case OpSle:
			r = b2u(sx(x, aw) <= sx(y, aw))
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUdiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OpUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSdiv:
			p, q := sx(x, aw), sx(y, aw)
			switch {
			case q == 0:
				if p >= 0 {
					r = ^uint64(0)
				} else {
					r = 1
				}
			case q == -1:
				r = uint64(-p)
			default:
				r = uint64(p / q)
			}
		case OpSrem:
			p, q := sx(x, aw), sx(y, aw)
			switch {
			case q == 0:
				r = x
			case q == -1:
				r = 0
			default:
				r = uint64(p % q)
			}
		case OpBAnd:
			r = x & y
		case OpBOr:
			r = x | y
		case OpBXor:
			r = x ^ y
		case OpBNot:
			r = ^x
		case OpShl:
			if y >= uint64(aw) {
				r = 0
			} else {
				r = x << y
			}
		case OpLshr:
			if y >= uint64(aw) {
				r = 0
			} else {
				r = x >> y
			}
		case OpAshr:
			if y >= uint64(aw) {
				y = uint64(aw - 1)
			}
			r = uint64(sx(x, aw) >> y)
		case OpConcat:
			r = x<<uint(t.a[1].w) | y
		case OpExtract:
			r = x >> uint(t.lo)
		case OpZext:
			r = x
		case OpSext:
			r = uint64(sx(x, aw))
		case OpUMulH:
			r, _ = bits.Mul64(x, y)
		case OpFLt, OpFLe, OpFEq:
			r = b2u(evFCmp(t.op, x, y, aw))
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			r = evFArith(t.op, x, y, aw)
		case OpFSqrt:
			r = fbits(math.Sqrt(fval(x, aw)), aw)
		case OpFFromS, OpFFromU:
			r = evFFrom(t.op, x, aw, t.w)
		case OpFToS:
			r = uint64(int64(fval(x, aw)))
		case OpFToU:
			r = uint64(fval(x, aw))
		case OpFToF:
			r = fbits(fval(x, aw), t.w)
		case OpFRti:
			r = evRti(x, t.hi)
		default:
			panic("eval op")
		}
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	t.evTag, t.evVal = tt.tag, r
	return r
}

// --- SMT-LIB printing

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func fpres(w int, e string) string {
	return fmt.Sprintf("(let ((r!f %s)) (ite (fp.isNaN r!f) (_ bv%d %d) (fp.to_ieee_bv r!f)))", e, canonNaN(w), w)
}

// usesFP reports whether t contains floating-point operators.
func usesFP(t *Term, seen map[*Term]bool) bool {
	if t.op >= OpFLt {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for i := 0; i < t.n; i++ {
		if usesFP(t.a[i], seen) {
			return true
		}
	}
	return false
}

// ref returns the SMT name for t; body the expression in terms of refs.
func ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	r := func(i int) string { return ref(t.a[i]) }
	f := func(i int) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.a[i].w), ref(t.a[i])) }
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, r(0))
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OpUMulH:
		return fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", r(0), r(1))
	case OpFLt, OpFLe, OpFEq:
		return fmt.Sprintf("(%s %s %s)", opNames[t.op], f(0), f(1))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return fpres(t.w, fmt.Sprintf("(%s RNE %s %s)", opNames[t.op], f(0), f(1)))
	case OpFSqrt:
		return fpres(t.w, fmt.Sprintf("(fp.sqrt RNE %s)", f(0)))
	case OpFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), r(0))
	case OpFFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), r(0))
	case OpFToS:
		return fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", f(0))
	case OpFToU:
		return fmt.Sprintf("((_ fp.to_ubv 64) RTZ %s)", f(0))
	case OpFToF:
		return fpres(t.w, fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), f(0)))
	case OpFRti:
		return fpres(t.w, fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RTN", "RTP", "RTZ", "RNE"}[t.hi], f(0)))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for i := 0; i < t.n; i++ {
		sb.WriteByte(' ')
		sb.WriteString(r(i))
	}
	sb.WriteByte(')')
	return sb.String()
}
