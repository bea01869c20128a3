package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPath = "verif/harness/sym"

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if strings.HasPrefix(name, "reflect.TypeFor") && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		return func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value { return p.rtIface(t) }
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		m := name[len("(reflect.Value)."):]
		return func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value { return p.rvalueMethod(m, a) }
	}
	if strings.HasPrefix(name, "internal/race.") || strings.HasPrefix(name, "internal/msan.") || strings.HasPrefix(name, "internal/asan.") {
		return func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
			if fn.Signature.Results().Len() == 1 {
				return p.zeroVal(fn.Signature.Results().At(0).Type())
			}
			return nil
		}
	}
	return nil
}

func (p *Path) argName(v Value) string {
	s, ok := p.tryStr(v.(*Str))
	if !ok {
		p.unsupported("symbolic name")
	}
	return s
}

func (p *Path) fresh(name, kind string, w int) *Term {
	t := p.tt.Var(fmt.Sprintf("%s#%d", name, len(p.nondets)), w)
	p.nondets = append(p.nondets, nondet{name: name, kind: kind, terms: []*Term{t}})
	return t
}

func (p *Path) freshBytes(name string, n int) []*Term {
	b := make([]*Term, n)
	for i := range b {
		b[i] = p.tt.Var(fmt.Sprintf("%s#%d[%d]", name, len(p.nondets), i), 8)
	}
	p.nondets = append(p.nondets, nondet{name: name, kind: "bytes", terms: b})
	return b
}

func symScalar(kind string, w int) intrinsic {
	return func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
		return p.fresh(p.argName(a[0]), kind, w)
	}
}

func (p *Path) i64(n int) *Term { return p.tt.C(64, uint64(n)) }

func (p *Path) observe(label, kind string, ts []*Term) {
	p.obs = append(p.obs, observation{label, ts, kind})
}

// findByte gives the position of the first (or last) byte equal to c, or -1.
func (p *Path) findByte(b []*Term, c *Term, last bool) *Term {
	tt := p.tt
	r := tt.C(64, ^uint64(0))
	if last {
		for i := 0; i < len(b); i++ {
			r = tt.Ite(tt.Eq(b[i], c), p.i64(i), r)
		}
		return r
	}
	for i := len(b) - 1; i >= 0; i-- {
		r = tt.Ite(tt.Eq(b[i], c), p.i64(i), r)
	}
	return r
}

func (p *Path) findSub(b, s []*Term) *Term {
	tt := p.tt
	r := tt.C(64, ^uint64(0))
	for i := len(b) - len(s); i >= 0; i-- {
		r = tt.Ite(p.bytesEq(b[i:i+len(s)], s), p.i64(i), r)
	}
	return r
}

func (p *Path) countByte(b []*Term, c *Term) *Term {
	tt := p.tt
	r := p.i64(0)
	for _, x := range b {
		r = tt.Add(r, tt.Ite(tt.Eq(x, c), p.i64(1), p.i64(0)))
	}
	return r
}

func (p *Path) cmpBytes(a, b []*Term) *Term {
	tt := p.tt
	return tt.Ite(p.bytesEq(a, b), p.i64(0), tt.Ite(p.bytesLess(a, b), tt.C(64, ^uint64(0)), p.i64(1)))
}

func (p *Path) bitLen(x *Term) *Term {
	tt := p.tt
	if x.isConst() {
		return p.i64(bits.Len64(x.val))
	}
	r := p.i64(0)
	for i := 0; i < x.w; i++ {
		r = tt.Ite(tt.Eq(tt.Extract(x, i, i), tt.C(1, 1)), p.i64(i+1), r)
	}
	return r
}

func (p *Path) ctz(x *Term) *Term {
	tt := p.tt
	r := p.i64(x.w)
	for i := x.w - 1; i >= 0; i-- {
		r = tt.Ite(tt.Eq(tt.Extract(x, i, i), tt.C(1, 1)), p.i64(i), r)
	}
	return r
}

func (p *Path) errorsNew(msg *Str) Value {
	return p.callFn(p.prog.ssa.ImportedPackage("errors").Func("New"), []Value{msg}, nil)
}

func nop(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value { return nil }

func identity(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value { return a[0] }

// atomically runs f without the frozen-region check: atomic operations do
// not race.
func (p *Path) atomically(f func() Value) Value {
	s := p.atomicOp
	p.atomicOp = true
	v := f()
	p.atomicOp = s
	return v
}

func ptrElem(fn *ssa.Function) types.Type { return fn.Signature.Params().At(0).Type() }

func atomicLoad(w int) intrinsic {
	return func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
		q := p.concPtr(a[0].(Ptr))
		if q.obj == nil {
			p.nilDeref()
		}
		return p.atomically(func() Value { return p.get1(q.obj, q.off) })
	}
}
func atomicStore(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
	return p.atomically(func() Value { p.store(a[0].(Ptr), a[1]); return nil })
}
func atomicAdd(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
	return p.atomically(func() Value {
		q := p.concPtr(a[0].(Ptr))
		if q.obj == nil {
			p.nilDeref()
		}
		v := p.tt.Add(p.get1(q.obj, q.off).(*Term), a[1].(*Term))
		p.set1(q.obj, q.off, v)
		return v
	})
}
func atomicSwap(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
	return p.atomically(func() Value {
		q := p.concPtr(a[0].(Ptr))
		if q.obj == nil {
			p.nilDeref()
		}
		v := p.get1(q.obj, q.off)
		p.set1(q.obj, q.off, a[1])
		return v
	})
}
func atomicCAS(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
	return p.atomically(func() Value {
		q := p.concPtr(a[0].(Ptr))
		if q.obj == nil {
			p.nilDeref()
		}
		v := p.get1(q.obj, q.off)
		var e *Term
		if t, ok := v.(*Term); ok {
			e = p.tt.Eq(t, a[1].(*Term))
		} else {
			e = p.equal(nil, v, a[1])
		}
		if p.Branch(e) {
			p.set1(q.obj, q.off, a[2])
			return p.tt.True
		}
		return p.tt.False
	})
}

func (p *Path) lock(q Ptr, write bool) {
	if q.obj == nil {
		p.nilDeref()
	}
	p.block(func() bool { st := p.locked[q]; return !(write && st != 0 || !write && st < 0) }, "deadlock: lock already held")
	st := p.locked[q]
	if write {
		p.locked[q] = -1
		p.lockDepth++
	} else {
		p.locked[q] = st + 1
		p.rlocks++
	}
}

func (p *Path) unlock(q Ptr, write bool) {
	st := p.locked[q]
	if write && st != -1 || !write && st <= 0 {
		panic(goPanic{p.plainErr("sync: unlock of unlocked mutex"), "sync: unlock of unlocked mutex"})
	}
	if write {
		p.locked[q] = 0
		p.lockDepth--
	} else {
		p.locked[q] = st - 1
		p.rlocks--
	}
}

func (p *Path) waitGroup(q Ptr) *int {
	if q.obj == nil {
		p.nilDeref()
	}
	n, ok := p.waitGroups[q]
	if !ok {
		n = new(int)
		if p.waitGroups == nil {
			p.waitGroups = map[Ptr]*int{}
		}
		p.waitGroups[q] = n
	}
	return n
}

func (p *Path) syncMap(q Ptr) *MapObj {
	m, ok := p.syncMaps[q]
	if !ok {
		m = &MapObj{epoch: 1, seq: 1 << 60}
		p.syncMaps[q] = m
	}
	return m
}

var intrinsics map[string]intrinsic

func bytesArg(p *Path, v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return p.bytesOf(x)
	case Slice:
		return p.sliceBytes(x)
	}
	panic("bytesArg")
}

func init() {
	type A = []Value
	I := map[string]intrinsic{}
	intrinsics = I
	def := func(name string, f func(p *Path, a A) Value) {
		I[name] = func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value { return f(p, a) }
	}
	sym := func(name string, f func(p *Path, a A) Value) { def(symPath+"."+name, f) }

	// --- harness interface
	I[symPath+".Bool"] = symScalar("bool", 0)
	I[symPath+".U8"] = symScalar("u8", 8)
	I[symPath+".U16"] = symScalar("u16", 16)
	I[symPath+".U32"] = symScalar("u32", 32)
	I[symPath+".U64"] = symScalar("u64", 64)
	I[symPath+".I64"] = symScalar("u64", 64)
	I[symPath+".Int"] = symScalar("u64", 64)
	I[symPath+".F64"] = symScalar("u64", 64)
	I[symPath+".F32"] = symScalar("u32", 32)
	sym("Bytes", func(p *Path, a A) Value {
		n := int(p.Concretize(a[1].(*Term), "size of symbolic bytes"))
		return p.newByteSlice(p.freshBytes(p.argName(a[0]), n), "symbolic bytes")
	})
	sym("Str", func(p *Path, a A) Value {
		n := int(p.Concretize(a[1].(*Term), "size of symbolic string"))
		return mkStr(p.freshBytes(p.argName(a[0]), n))
	})
	lazy := func(p *Path, name string, max *Term) (*Lazy, *Term) {
		nm := fmt.Sprintf("%s#%d", name, len(p.nondets))
		n := p.tt.Var(nm+".len", 64)
		lz := &Lazy{name: nm, bytes: map[int]*Term{}}
		p.nondets = append(p.nondets, nondet{name: name, kind: "lazy", n: n, lz: lz})
		p.Assume(p.tt.Ule(n, max))
		return lz, n
	}
	sym("LazyBytes", func(p *Path, a A) Value {
		lz, n := lazy(p, p.argName(a[0]), a[1].(*Term))
		o := p.newObj(nil, "symbolic bytes of symbolic length")
		o.lz = lz
		o.max = lazyMax
		return Slice{o, 0, n, n, 1}
	})
	sym("LazyStr", func(p *Path, a A) Value {
		lz, n := lazy(p, p.argName(a[0]), a[1].(*Term))
		return &Str{lz: lz, n: n}
	})
	sym("Choose", func(p *Path, a A) Value {
		n := int(p.Concretize(a[1].(*Term), "choice"))
		k := p.ChooseN(n)
		p.nondets = append(p.nondets, nondet{name: p.argName(a[0]), kind: "choose", conc: uint64(k)})
		return p.i64(k)
	})
	sym("Concrete", func(p *Path, a A) Value { return p.i64(int(p.Concretize(a[0].(*Term), "harness"))) })
	sym("Assume", func(p *Path, a A) Value { p.Assume(a[0].(*Term)); return nil })
	sym("Assert", func(p *Path, a A) Value {
		msg, _ := p.tryStr(a[1].(*Str))
		p.Assert(a[0].(*Term), msg)
		return nil
	})
	sym("Fail", func(p *Path, a A) Value {
		msg, _ := p.tryStr(a[0].(*Str))
		p.Assert(p.tt.False, msg)
		return nil
	})
	sym("Cover", func(p *Path, a A) Value {
		msg, _ := p.tryStr(a[0].(*Str))
		p.covers = append(p.covers, msg)
		return nil
	})
	sym("ObserveU64", func(p *Path, a A) Value { p.observe(p.argName(a[0]), "u64", []*Term{a[1].(*Term)}); return nil })
	sym("ObserveBool", func(p *Path, a A) Value { p.observe(p.argName(a[0]), "bool", []*Term{a[1].(*Term)}); return nil })
	sym("ObserveBytes", func(p *Path, a A) Value { p.observe(p.argName(a[0]), "bytes", bytesArg(p, a[1])); return nil })
	sym("ObserveStr", func(p *Path, a A) Value { p.observe(p.argName(a[0]), "bytes", bytesArg(p, a[1])); return nil })
	sym("And", func(p *Path, a A) Value {
		r := p.tt.True
		s := a[0].(Slice)
		for i := 0; i < p.sliceLen(s, "And"); i++ {
			r = p.tt.And(r, p.get1(s.obj, s.off+i).(*Term))
		}
		return r
	})
	sym("Or", func(p *Path, a A) Value {
		r := p.tt.False
		s := a[0].(Slice)
		for i := 0; i < p.sliceLen(s, "Or"); i++ {
			r = p.tt.Or(r, p.get1(s.obj, s.off+i).(*Term))
		}
		return r
	})
	sym("Implies", func(p *Path, a A) Value { return p.tt.Or(p.tt.Not(a[0].(*Term)), a[1].(*Term)) })
	sym("IteU64", func(p *Path, a A) Value { return p.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	sym("IteInt", func(p *Path, a A) Value { return p.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	sym("BytesEq", func(p *Path, a A) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.obj == y.obj && x.off == y.off && x.len == y.len {
			return p.tt.True
		}
		return p.bytesEq(p.sliceBytes(x), p.sliceBytes(y))
	})
	sym("StrEq", func(p *Path, a A) Value { return p.strEq(a[0].(*Str), a[1].(*Str)) })
	sym("StrLess", func(p *Path, a A) Value { return p.strLess(a[0].(*Str), a[1].(*Str)) })
	sym("Tier", func(p *Path, a A) Value { return p.i64(p.prog.tier) })
	sym("MapOrders", func(p *Path, a A) Value { p.mapOrders = a[0].(*Term).val == 1; return nil })
	sym("ReadOnly", func(p *Path, a A) Value {
		old := p.regionStart
		p.regionStart = p.seqN
		p.plainReads, p.lockedWrites = map[memLoc]bool{}, map[memLoc]bool{}
		p.callClosure(a[0].(*Closure), nil, nil)
		p.regionStart = old
		for l := range p.lockedWrites {
			if p.plainReads[l] {
				d := "map"
				if l.o != nil {
					d = l.o.desc
				}
				p.ensureModelAny()
				p.violate("write to memory that existed before a read-only region, under a lock that readers do not hold ("+d+")", p.model)
			}
		}
		p.asserts++
		if !p.inPrefix() {
			p.ex.countAssert("no write to memory that existed before the region", true)
		}
		return nil
	})
	sym("Yield", func(p *Path, a A) Value { p.yield(); return nil })
	sym("Allocated", func(p *Path, a A) Value {
		if p.allocd == nil {
			return p.tt.C(64, 0)
		}
		return p.allocd
	})
	sym("MaxDepth", func(p *Path, a A) Value { p.maxFrames = int(a[0].(*Term).val); return nil })
	sym("MaxAlloc", func(p *Path, a A) Value { p.allocMax = a[0].(*Term).val; return nil })
	sym("Known", func(p *Path, a A) Value {
		id := p.argName(a[0])
		if !p.prog.known[id] {
			return nil
		}
		if p.Branch(a[1].(*Term)) {
			p.ex.mu.Lock()
			p.ex.knownSeen[id]++
			p.ex.mu.Unlock()
			p.abort(abKnown, "%s", id)
		}
		return nil
	})
	sym("Native", func(p *Path, a A) Value { return p.tt.False })

	// --- bytes and strings
	def("internal/bytealg.IndexByte", func(p *Path, a A) Value { return p.findByte(p.sliceBytes(a[0].(Slice)), a[1].(*Term), false) })
	def("internal/bytealg.IndexByteString", func(p *Path, a A) Value { return p.findByte(bytesArg(p, a[0]), a[1].(*Term), false) })
	def("internal/bytealg.LastIndexByte", func(p *Path, a A) Value { return p.findByte(bytesArg(p, a[0]), a[1].(*Term), true) })
	def("internal/bytealg.LastIndexByteString", func(p *Path, a A) Value { return p.findByte(bytesArg(p, a[0]), a[1].(*Term), true) })
	def("internal/bytealg.Count", func(p *Path, a A) Value { return p.countByte(bytesArg(p, a[0]), a[1].(*Term)) })
	def("internal/bytealg.CountString", func(p *Path, a A) Value { return p.countByte(bytesArg(p, a[0]), a[1].(*Term)) })
	def("internal/bytealg.Compare", func(p *Path, a A) Value { return p.cmpBytes(bytesArg(p, a[0]), bytesArg(p, a[1])) })
	def("internal/bytealg.CompareString", func(p *Path, a A) Value { return p.cmpBytes(bytesArg(p, a[0]), bytesArg(p, a[1])) })
	def("bytes.Compare", func(p *Path, a A) Value { return p.cmpBytes(bytesArg(p, a[0]), bytesArg(p, a[1])) })
	def("strings.Compare", func(p *Path, a A) Value { return p.cmpBytes(bytesArg(p, a[0]), bytesArg(p, a[1])) })
	eq := func(p *Path, a A) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.obj == y.obj && x.off == y.off && x.len == y.len {
			return p.tt.True
		}
		if !x.len.isConst() || !y.len.isConst() {
			if !p.Branch(p.tt.Eq(x.len, y.len)) {
				return p.tt.False
			}
		}
		return p.bytesEq(p.sliceBytes(x), p.sliceBytes(y))
	}
	def("bytes.Equal", eq)
	def("internal/bytealg.Equal", eq)
	idx := func(p *Path, a A) Value { return p.findSub(bytesArg(p, a[0]), bytesArg(p, a[1])) }
	def("internal/bytealg.Index", idx)
	def("internal/bytealg.IndexString", idx)
	def("strings.Index", idx)
	def("bytes.Index", idx)
	def("internal/bytealg.MakeNoZero", func(p *Path, a A) Value {
		n := int(p.Concretize(a[0].(*Term), "buffer size"))
		if n < 0 || n > 1<<24 {
			p.rtPanic("makeslice: len out of range")
		}
		c := n
		if n > 0 {
			c = roundupSize(n, true)
		}
		slots := make([]Value, c)
		z := p.tt.C(8, 0)
		for i := range slots {
			slots[i] = z
		}
		return Slice{p.newObj(slots, "buffer"), 0, p.i64(n), p.i64(c), 1}
	})
	def("(*strings.Builder).String", func(p *Path, a A) Value {
		q := a[0].(Ptr)
		if q.obj == nil {
			p.nilDeref()
		}
		s := p.get1(q.obj, q.off+1).(Slice)
		if s.obj == nil {
			return emptyStr
		}
		return mkStr(p.sliceBytes(s))
	})
	def("(*strings.Builder).copyCheck", func(p *Path, a A) Value { return nil })
	def("strings.Clone", func(p *Path, a A) Value { return a[0] })
	def("internal/stringslite.Clone", func(p *Path, a A) Value { return a[0] })
	I["internal/abi.NoEscape"] = identity
	I["internal/abi.Escape"] = identity
	I["strings.noescape"] = identity
	I["reflect.noescape"] = identity

	// --- math
	I["math.Float64bits"] = identity
	I["math.Float64frombits"] = identity
	I["math.Float32bits"] = identity
	I["math.Float32frombits"] = identity
	def("math.IsNaN", func(p *Path, a A) Value { return p.tt.Not(p.tt.FCmp(OpFEq, a[0].(*Term), a[0].(*Term))) })
	def("math.Sqrt", func(p *Path, a A) Value { return p.tt.FSqrt(a[0].(*Term)) })
	def("math.sqrt", func(p *Path, a A) Value { return p.tt.FSqrt(a[0].(*Term)) })
	for i, n := range []string{"Floor", "Ceil", "Trunc", "RoundToEven"} {
		i := i
		def("math."+n, func(p *Path, a A) Value { return p.tt.FRti(a[0].(*Term), i) })
	}
	def("math.Abs", func(p *Path, a A) Value { return p.tt.BAnd(a[0].(*Term), p.tt.C(64, 1<<63-1)) })
	def("math/bits.Mul64", func(p *Path, a A) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		return Tuple{p.tt.UMulH(x, y), p.tt.Mul(x, y)}
	})
	def("math/bits.Mul", func(p *Path, a A) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		return Tuple{p.tt.UMulH(x, y), p.tt.Mul(x, y)}
	})
	for _, n := range []string{"", "64", "32", "16", "8"} {
		def("math/bits.Len"+n, func(p *Path, a A) Value { return p.bitLen(a[0].(*Term)) })
		def("math/bits.LeadingZeros"+n, func(p *Path, a A) Value {
			x := a[0].(*Term)
			return p.tt.Sub(p.i64(x.w), p.bitLen(x))
		})
		def("math/bits.TrailingZeros"+n, func(p *Path, a A) Value { return p.ctz(a[0].(*Term)) })
	}
	def("math/bits.Div64", func(p *Path, a A) Value {
		hi, lo, y := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if hi.isConst() && lo.isConst() && y.isConst() && y.val > hi.val {
			q, r := bits.Div64(hi.val, lo.val, y.val)
			return Tuple{p.tt.C(64, q), p.tt.C(64, r)}
		}
		if hi.isConst() && hi.val == 0 {
			p.divCheck(y)
			return Tuple{p.tt.Udiv(lo, y), p.tt.Urem(lo, y)}
		}
		return p.callBody("math/bits", "Div64", a)
	})

	// decimal text of one-word naturals
	I["(math/big.nat).itoa"] = func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
		x := a[0].(Slice)
		base := int(p.Concretize(a[2].(*Term), "number base"))
		if base == 10 && p.sliceLen(x, "itoa") == 1 {
			if w := p.get1(x.obj, x.off).(*Term); !w.isConst() {
				b := p.decDigits(w)
				if p.Branch(a[1].(*Term)) {
					b = append([]*Term{p.tt.C(8, '-')}, b...)
				}
				return p.newByteSlice(b, "number text")
			}
		}
		fn := p.natItoa()
		save := p.intr[fn]
		p.intr[fn] = nil
		defer func() { p.intr[fn] = save }()
		return p.callFn(fn, a, nil)
	}

	// --- sync
	def("(*sync.Mutex).Lock", func(p *Path, a A) Value { p.lock(a[0].(Ptr), true); return nil })
	def("(*sync.Mutex).Unlock", func(p *Path, a A) Value { p.unlock(a[0].(Ptr), true); return nil })
	def("(*sync.Mutex).TryLock", func(p *Path, a A) Value {
		if p.locked[a[0].(Ptr)] != 0 {
			return p.tt.False
		}
		p.lock(a[0].(Ptr), true)
		return p.tt.True
	})
	def("(*sync.RWMutex).Lock", func(p *Path, a A) Value { p.lock(a[0].(Ptr), true); return nil })
	def("(*sync.RWMutex).Unlock", func(p *Path, a A) Value { p.unlock(a[0].(Ptr), true); return nil })
	def("(*sync.RWMutex).RLock", func(p *Path, a A) Value { p.lock(a[0].(Ptr), false); return nil })
	def("(*sync.RWMutex).RUnlock", func(p *Path, a A) Value { p.unlock(a[0].(Ptr), false); return nil })
	def("(*sync.WaitGroup).Add", func(p *Path, a A) Value {
		n := p.waitGroup(a[0].(Ptr))
		*n += int(int64(p.Concretize(a[1].(*Term), "wait group")))
		if *n < 0 {
			panic(goPanic{p.plainErr("sync: negative WaitGroup counter"), "sync: negative WaitGroup counter"})
		}
		return nil
	})
	def("(*sync.WaitGroup).Done", func(p *Path, a A) Value {
		n := p.waitGroup(a[0].(Ptr))
		*n--
		if *n < 0 {
			panic(goPanic{p.plainErr("sync: negative WaitGroup counter"), "sync: negative WaitGroup counter"})
		}
		return nil
	})
	def("(*sync.WaitGroup).Wait", func(p *Path, a A) Value {
		n := p.waitGroup(a[0].(Ptr))
		p.block(func() bool { return *n == 0 }, "waits for ever in a wait group")
		return nil
	})
	def("runtime.Gosched", func(p *Path, a A) Value { p.yield(); return nil })
	def("time.Sleep", func(p *Path, a A) Value { p.yield(); return nil })
	def("(*sync.Once).Do", func(p *Path, a A) Value {
		q := a[0].(Ptr)
		if p.onceDone[q] || p.once[q] {
			return nil
		}
		if p.initDepth > 0 {
			p.onceDone[q] = true
		} else {
			p.once[q] = true
		}
		p.lockDepth++
		p.onceDepth++
		p.callClosure(a[1].(*Closure), nil, nil)
		p.lockDepth--
		p.onceDepth--
		return nil
	})
	def("(*sync.Pool).Get", func(p *Path, a A) Value {
		q := a[0].(Ptr)
		if l := p.pools[q]; len(l) > 0 {
			v := l[len(l)-1]
			p.pools[q] = l[:len(l)-1]
			return v
		}
		// field New is the last slot
		st := p.prog.ssa.ImportedPackage("sync").Type("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := p.get1(q.obj, q.off+fieldOff(st, i)).(*Closure)
				if f == nil {
					return Iface{}
				}
				return p.callClosure(f, nil, nil)
			}
		}
		return Iface{}
	})
	def("(*sync.Pool).Put", func(p *Path, a A) Value {
		q := a[0].(Ptr)
		if v := a[1].(Iface); v.t != nil {
			p.pools[q] = append(p.pools[q], v)
		}
		return nil
	})
	def("(*sync.Map).Load", func(p *Path, a A) Value {
		v, ok := p.mapGet(p.syncMap(a[0].(Ptr)), a[1])
		if !ok {
			return Tuple{Iface{}, p.tt.False}
		}
		return Tuple{v, p.tt.True}
	})
	def("(*sync.Map).Store", func(p *Path, a A) Value {
		p.mapSet(p.syncMap(a[0].(Ptr)), a[1], a[2])
		p.publish(a[1])
		p.publish(a[2])
		return nil
	})
	def("(*sync.Map).LoadOrStore", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		if v, ok := p.mapGet(m, a[1]); ok {
			return Tuple{v, p.tt.True}
		}
		p.mapSet(m, a[1], a[2])
		p.publish(a[1])
		p.publish(a[2])
		return Tuple{a[2], p.tt.False}
	})
	def("(*sync.Map).Range", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		for i := 0; i < len(m.keys); i++ {
			if m.keys[i] == nil {
				continue
			}
			if !p.Branch(p.callClosure(a[1].(*Closure), []Value{m.keys[i], m.vals[i]}, nil).(*Term)) {
				break
			}
		}
		return nil
	})
	def("(*sync.Map).Clear", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		for _, k := range append([]Value{}, m.keys...) {
			if k != nil {
				p.mapDelete(m, k)
			}
		}
		return nil
	})
	def("(*sync.Map).LoadAndDelete", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		v, ok := p.mapGet(m, a[1])
		if !ok {
			return Tuple{Iface{}, p.tt.False}
		}
		p.mapDelete(m, a[1])
		return Tuple{v, p.tt.True}
	})
	def("(*sync.Map).Swap", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		v, ok := p.mapGet(m, a[1])
		p.mapSet(m, a[1], a[2])
		p.publish(a[1])
		p.publish(a[2])
		if !ok {
			return Tuple{Iface{}, p.tt.False}
		}
		return Tuple{v, p.tt.True}
	})
	def("(*sync.Map).CompareAndSwap", func(p *Path, a A) Value {
		m := p.syncMap(a[0].(Ptr))
		v, ok := p.mapGet(m, a[1])
		if !ok || !p.Branch(p.equal(nil, v, a[2])) {
			return p.tt.False
		}
		p.mapSet(m, a[1], a[3])
		p.publish(a[3])
		return p.tt.True
	})
	def("(*sync.Cond).Wait", func(p *Path, a A) Value {
		c := p.condOf(a[0].(Ptr))
		t := c[0]
		c[0]++
		l := p.condLock(a[0].(Ptr))
		p.callFn(p.findMethod(l.t, "Unlock"), []Value{l.v}, nil)
		p.block(func() bool { return c[1] > t }, "waits for ever for a condition")
		p.callFn(p.findMethod(l.t, "Lock"), []Value{l.v}, nil)
		return nil
	})
	def("(*sync.Cond).Signal", func(p *Path, a A) Value {
		if c := p.condOf(a[0].(Ptr)); c[1] < c[0] {
			c[1]++
		}
		return nil
	})
	def("(*sync.Cond).Broadcast", func(p *Path, a A) Value {
		c := p.condOf(a[0].(Ptr))
		c[1] = c[0]
		return nil
	})
	def("time.runtimeNow", func(p *Path, a A) Value {
		p.clock += 1000
		return Tuple{p.i64c(1700000000), p.tt.C(32, p.clock), p.i64c(p.clock)}
	})
	def("encoding/json.Marshal", func(p *Path, a A) Value {
		r := p.callFn(p.prog.ssa.ImportedPackage(symPath).Func("MarshalModel"), []Value{a[0]}, nil).(Tuple)
		if !p.Branch(r[1].(*Term)) {
			p.unsupported("json.Marshal of %v", a[0].(Iface).t)
		}
		return Tuple{r[0], Iface{}}
	})
	for _, n := range []string{"Max", "Min", "Hypot", "Exp", "Log"} {
		generic := strings.ToLower(n)
		def("math.arch"+n, func(p *Path, a A) Value {
			return p.callFn(p.prog.ssa.ImportedPackage("math").Func(generic), a, nil)
		})
	}
	def("time.runtimeIsBubbled", func(p *Path, a A) Value { return p.tt.False })
	def("time.runtimeNano", func(p *Path, a A) Value { p.clock += 1000; return p.i64c(p.clock) })
	def("errors.As", func(p *Path, a A) Value {
		target := a[1].(Iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			p.strPanic("errors: target must be a non-nil pointer")
		}
		for e := a[0].(Iface); e.t != nil; {
			if types.AssignableTo(e.t, pt.Elem()) {
				var v Value = e.v
				if types.IsInterface(pt.Elem()) {
					v = e
				}
				p.store(target.v.(Ptr), v)
				return p.tt.True
			}
			if p.findMethod(e.t, "As") != nil {
				p.unsupported("errors.As of an error with a method As")
			}
			fn := p.findMethod(e.t, "Unwrap")
			if fn == nil {
				break
			}
			n, ok := p.callFn(fn, []Value{e.v}, nil).(Iface)
			if !ok {
				p.unsupported("errors.As of joined errors")
			}
			e = n
		}
		return p.tt.False
	})
	def("(*sync.Map).Delete", func(p *Path, a A) Value { p.mapDelete(p.syncMap(a[0].(Ptr)), a[1]); return nil })
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			I[pk+"Load"+ty] = atomicLoad(0)
			I[pk+"Store"+ty] = atomicStore
			I[pk+"Add"+ty] = atomicAdd
			I[pk+"Swap"+ty] = atomicSwap
			I[pk+"CompareAndSwap"+ty] = atomicCAS
		}
	}
	def("(*sync/atomic.Value).Load", func(p *Path, a A) Value {
		q := a[0].(Ptr)
		return p.atomically(func() Value { return p.get1(q.obj, q.off) })
	})
	def("(*sync/atomic.Value).Store", func(p *Path, a A) Value {
		return p.atomically(func() Value { p.store(a[0].(Ptr), a[1]); return nil })
	})
	def("runtime.KeepAlive", func(p *Path, a A) Value { return nil })
	def("runtime.SetFinalizer", func(p *Path, a A) Value { return nil })
	def("runtime.GC", func(p *Path, a A) Value { return nil })
	def("(*internal/godebug.Setting).Value", func(p *Path, a A) Value { return emptyStr })
	def("(*internal/godebug.Setting).IncNonDefault", func(p *Path, a A) Value { return nil })
	def("internal/godebug.New", func(p *Path, a A) Value { return Ptr{} })

	// --- number formatting
	fmtInt := func(signed bool) func(p *Path, x, base *Term) *Str {
		return func(p *Path, x, base *Term) *Str {
			bs := int(p.Concretize(base, "number base"))
			if x.isConst() {
				if signed {
					return cstr(strconv.FormatInt(int64(x.val), bs))
				}
				return cstr(strconv.FormatUint(x.val, bs))
			}
			if bs != 10 {
				fn := "FormatUint"
				if signed {
					fn = "FormatInt"
				}
				return p.callBody("strconv", fn, []Value{x, base}).(*Str)
			}
			if signed && p.Branch(p.tt.Slt(x, p.i64(0))) {
				return mkStr(append([]*Term{p.tt.C(8, '-')}, p.decDigits(p.tt.Neg(x))...))
			}
			return mkStr(p.decDigits(x))
		}
	}
	fi, fu := fmtInt(true), fmtInt(false)
	def("strconv.FormatInt", func(p *Path, a A) Value { return fi(p, a[0].(*Term), a[1].(*Term)) })
	def("strconv.FormatUint", func(p *Path, a A) Value { return fu(p, a[0].(*Term), a[1].(*Term)) })
	def("strconv.Itoa", func(p *Path, a A) Value { return fi(p, a[0].(*Term), p.i64(10)) })
	appendStr := func(p *Path, v Value, t *Str) Value {
		s := v.(Slice)
		var el []Value
		for _, b := range p.bytesOf(t) {
			el = append(el, b)
		}
		return p.appendVals(s, p.sliceLen(s, "append number"), el, 1, types.Typ[types.Uint8], p.tt)
	}
	def("strconv.AppendInt", func(p *Path, a A) Value { return appendStr(p, a[0], fi(p, a[1].(*Term), a[2].(*Term))) })
	def("strconv.AppendUint", func(p *Path, a A) Value { return appendStr(p, a[0], fu(p, a[1].(*Term), a[2].(*Term))) })
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2, "Log1p": math.Log1p, "Cbrt": math.Cbrt} {
		n, f := n, f
		def("math."+n, func(p *Path, a A) Value {
			x := a[0].(*Term)
			if !x.isConst() {
				p.unsupported("math.%s of an unknown", n)
			}
			return p.tt.C(64, math.Float64bits(f(math.Float64frombits(x.val))))
		})
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Hypot": math.Hypot, "Mod": math.Mod} {
		n, f := n, f
		def("math."+n, func(p *Path, a A) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			if !x.isConst() || !y.isConst() {
				p.unsupported("math.%s of an unknown", n)
			}
			return p.tt.C(64, math.Float64bits(f(math.Float64frombits(x.val), math.Float64frombits(y.val))))
		})
	}
	ff := func(p *Path, f, fm, prec, bs *Term) *Str {
		if f.isConst() && fm.isConst() && prec.isConst() && bs.isConst() {
			return cstr(strconv.FormatFloat(fval(f.val, 64), byte(fm.val), int(int64(prec.val)), int(bs.val)))
		}
		tt := p.tt
		if p.Branch(tt.Not(tt.FCmp(OpFEq, f, f))) {
			return cstr("NaN")
		}
		neg := p.Branch(tt.Eq(tt.Extract(f, 63, 63), tt.C(1, 1)))
		if p.Branch(tt.Eq(tt.BAnd(f, tt.C(64, 1<<63-1)), tt.C(64, 0x7ff<<52))) {
			if neg {
				return cstr("-Inf")
			}
			return cstr("+Inf")
		}
		// the digits are a function of the number; their count is not modelled
		p.ex.note("strconv.FormatFloat of an unknown finite double is modelled as [-]d.d with unknown digits d that depend only on the double")
		if p.floatText == nil {
			p.floatText = map[*Term][2]*Term{}
		}
		d, ok := p.floatText[f]
		if !ok {
			for i := range d {
				d[i] = tt.Var(fmt.Sprintf("digit%d.%d", len(p.floatText), i), 8)
				p.Assume(tt.And(tt.Ule(tt.C(8, '0'), d[i]), tt.Ule(d[i], tt.C(8, '9'))))
			}
			p.floatText[f] = d
		}
		b := []*Term{d[0], tt.C(8, '.'), d[1]}
		if neg {
			b = append([]*Term{tt.C(8, '-')}, b...)
		}
		return mkStr(b)
	}
	def("strconv.FormatFloat", func(p *Path, a A) Value {
		return ff(p, a[0].(*Term), a[1].(*Term), a[2].(*Term), a[3].(*Term))
	})
	def("strconv.AppendFloat", func(p *Path, a A) Value {
		return appendStr(p, a[0], ff(p, a[1].(*Term), a[2].(*Term), a[3].(*Term), a[4].(*Term)))
	})

	// --- errors and formatting
	def("github.com/pkg/errors.callers", func(p *Path, a A) Value { return Ptr{} })
	I["fmt.Sprintf"] = func(p *Path, fr *frame, c *ssa.CallCommon, a []Value) Value {
		if fr != nil && fr.fn != nil && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == "github.com/pkg/errors" {
			defer func(o bool) { p.errText = o }(p.errText)
			p.errText = true
		}
		return p.sprintf(a[0].(*Str), a[1].(Slice))
	}
	def("fmt.Sprint", func(p *Path, a A) Value { return p.sprint(a[0].(Slice), false) })
	def("fmt.Sprintln", func(p *Path, a A) Value { return p.concat(p.sprint(a[0].(Slice), true), cstr("\n")) })
	def("fmt.Errorf", func(p *Path, a A) Value {
		defer func(o bool) { p.errText = o }(p.errText)
		p.errText = true
		s := p.sprintf(a[0].(*Str), a[1].(Slice))
		f, _ := p.tryStr(a[0].(*Str))
		if strings.Contains(f, "%w") {
			args := a[1].(Slice)
			for i := 0; i < p.sliceLen(args, "Errorf"); i++ {
				e := p.get1(args.obj, args.off+i).(Iface)
				if e.t != nil && p.implements(e.t, errorIface) {
					t := p.prog.ssa.ImportedPackage("fmt").Type("wrapError").Type()
					q := p.alloc(t, "wrapError")
					p.set1(q.obj, 0, s)
					p.set1(q.obj, 1, e)
					return Iface{types.NewPointer(t), q}
				}
			}
		}
		return p.errorsNew(s)
	})
	out := func(p *Path, w Iface, s *Str) Value {
		b := p.newByteSlice(p.bytesOf(s), "formatted output")
		m := types.NewFunc(0, nil, "Write", nil)
		_ = m
		fn := p.findMethod(w.t, "Write")
		return p.callFn(fn, []Value{w.v, b}, nil)
	}
	def("fmt.Fprintf", func(p *Path, a A) Value { return out(p, a[0].(Iface), p.sprintf(a[1].(*Str), a[2].(Slice))) })
	def("fmt.Fprint", func(p *Path, a A) Value { return out(p, a[0].(Iface), p.sprint(a[1].(Slice), false)) })
	def("fmt.Println", func(p *Path, a A) Value { return Tuple{p.i64(0), Iface{}} })
	def("fmt.Printf", func(p *Path, a A) Value { return Tuple{p.i64(0), Iface{}} })

	// --- reflect
	def("reflect.TypeOf", func(p *Path, a A) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return Iface{}
		}
		return p.rtIface(v.t)
	})
	def("internal/reflectlite.TypeOf", func(p *Path, a A) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return Iface{}
		}
		return p.rtIface(v.t)
	})
	def("reflect.ValueOf", func(p *Path, a A) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return p.rvZero()
		}
		return p.rv(&RVal{t: v.t, v: v.v})
	})
	def("reflect.New", func(p *Path, a A) Value {
		t := p.rtOf(a[0])
		return p.rv(&RVal{t: types.NewPointer(t), v: p.alloc(t, "reflect.New")})
	})
	def("reflect.Zero", func(p *Path, a A) Value { t := p.rtOf(a[0]); return p.rv(&RVal{t: t, v: p.zeroVal(t)}) })
	def("reflect.Indirect", func(p *Path, a A) Value {
		r := p.rvOf(a[0])
		if _, ok := r.t.Underlying().(*types.Pointer); ok {
			return p.rvalueMethod("Elem", a)
		}
		return a[0]
	})
	def("reflect.ArrayOf", func(p *Path, a A) Value {
		n := a[0].(*Term)
		if p.Branch(p.tt.Slt(n, p.i64(0))) {
			p.strPanic("reflect: negative length passed to ArrayOf")
		}
		k := p.Concretize(n, "array type length")
		et := p.rtOf(a[1])
		es := uint64(p.prog.sizes.Sizeof(et))
		if p.allocMax > 0 && k*es > p.allocMax {
			p.Assert(p.tt.False, fmt.Sprintf("one allocation of more than %d bytes (reflect.ArrayOf)", p.allocMax))
		}
		if es > 0 && k > (1<<47)/es {
			p.strPanic("reflect.ArrayOf: array size would exceed virtual address space")
		}
		return p.rtIface(types.NewArray(et, int64(k)))
	})
	def("reflect.SliceOf", func(p *Path, a A) Value { return p.rtIface(types.NewSlice(p.rtOf(a[0]))) })
	def("reflect.PointerTo", func(p *Path, a A) Value { return p.rtIface(types.NewPointer(p.rtOf(a[0]))) })
	def("reflect.PtrTo", func(p *Path, a A) Value { return p.rtIface(types.NewPointer(p.rtOf(a[0]))) })
	def("reflect.MapOf", func(p *Path, a A) Value { return p.rtIface(types.NewMap(p.rtOf(a[0]), p.rtOf(a[1]))) })
	def("reflect.MakeSlice", func(p *Path, a A) Value {
		t := p.rtOf(a[0])
		s := p.makeSlice(t.Underlying().(*types.Slice), a[1].(*Term), a[2].(*Term), "reflect.MakeSlice")
		return p.rv(&RVal{t: t, v: s})
	})
	def("reflect.Append", func(p *Path, a A) Value {
		r := p.rvOf(a[0])
		xs := a[1].(Slice)
		et := r.t.Underlying().(*types.Slice).Elem()
		s := p.rget(r).(Slice)
		n := p.sliceLen(s, "reflect.Append")
		var elems []Value
		k := p.sliceLen(xs, "reflect.Append")
		for i := 0; i < k; i++ {
			x := p.rvOf(p.load(Ptr{obj: xs.obj, off: xs.off + i*xs.es}, p.rvType()))
			v := p.assignTo(x, et)
			if ag, ok := v.(Agg); ok {
				elems = append(elems, ag...)
			} else {
				elems = append(elems, v)
			}
		}
		return p.rv(&RVal{t: r.t, v: p.appendVals(s, n, elems, s.es, et, p.tt)})
	})
	def("reflect.AppendSlice", func(p *Path, a A) Value {
		r, q := p.rvOf(a[0]), p.rvOf(a[1])
		et := r.t.Underlying().(*types.Slice).Elem()
		s, y := p.rget(r).(Slice), p.rget(q).(Slice)
		n, k := p.sliceLen(s, "reflect.AppendSlice"), p.sliceLen(y, "reflect.AppendSlice")
		var elems []Value
		for i := 0; i < k*y.es; i++ {
			elems = append(elems, p.get1(y.obj, y.off+i))
		}
		return p.rv(&RVal{t: r.t, v: p.appendVals(s, n, elems, s.es, et, p.tt)})
	})
	def("reflect.Copy", func(p *Path, a A) Value {
		part := func(r *RVal) (*Obj, int, int, int) {
			if r == nil {
				p.strPanic("reflect: call of reflect.Copy on zero Value")
			}
			switch x := r.t.Underlying().(type) {
			case *types.Slice:
				s := p.rget(r).(Slice)
				return s.obj, s.off, p.sliceLen(s, "reflect.Copy"), s.es
			case *types.Array:
				if r.adr {
					return r.addr.obj, r.addr.off, int(x.Len()), nslots(x.Elem())
				}
			}
			p.strPanic("reflect: call of reflect.Copy on " + kindOf(r.t).String() + " Value")
			return nil, 0, 0, 0
		}
		d := p.rvOf(a[0])
		if d != nil && d.ro {
			p.strPanic("reflect: reflect.Copy using value obtained using unexported field")
		}
		do, doff, n, es := part(d)
		so, soff, k, _ := part(p.rvOf(a[1]))
		if k < n {
			n = k
		}
		var elems []Value
		for i := 0; i < n*es; i++ {
			elems = append(elems, p.get1(so, soff+i))
		}
		for i, v := range elems {
			p.set1(do, doff+i, v)
		}
		return p.i64(n)
	})
	swapper := func(p *Path, a A) Value {
		v := a[0].(Iface)
		s := v.v.(Slice)
		return &Closure{nat: func(p *Path, b []Value) Value {
			i, j := int(p.Concretize(b[0].(*Term), "swap")), int(p.Concretize(b[1].(*Term), "swap"))
			for k := 0; k < s.es; k++ {
				x, y := p.get1(s.obj, s.off+i*s.es+k), p.get1(s.obj, s.off+j*s.es+k)
				p.set1(s.obj, s.off+i*s.es+k, y)
				p.set1(s.obj, s.off+j*s.es+k, x)
			}
			return nil
		}}
	}
	def("reflect.Swapper", swapper)
	def("internal/reflectlite.Swapper", swapper)
	def("internal/reflectlite.ValueOf", func(p *Path, a A) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return p.rvZero()
		}
		return p.rv(&RVal{t: v.t, v: v.v})
	})
	def("(internal/reflectlite.Value).Len", func(p *Path, a A) Value { return p.rvalueMethod("Len", a) })
	def("reflect.DeepEqual", func(p *Path, a A) Value { return p.tt.B(p.deepEqual(nil, a[0], a[1], map[[2]Ptr]bool{}, 0)) })
	def("(reflect.Kind).String", func(p *Path, a A) Value {
		return cstr(kindName(int(p.Concretize(a[0].(*Term), "kind"))))
	})
	def("(reflect.StructTag).Get", func(p *Path, a A) Value {
		return cstr(tagLookup(p.concStr(a[0].(*Str), "tag"), p.concStr(a[1].(*Str), "tag")).v)
	})
	def("(reflect.StructTag).Lookup", func(p *Path, a A) Value {
		r := tagLookup(p.concStr(a[0].(*Str), "tag"), p.concStr(a[1].(*Str), "tag"))
		return Tuple{cstr(r.v), p.tt.B(r.ok)}
	})

	// --- nacl/box: ideal authenticated encryption
	def("golang.org/x/crypto/nacl/box.GenerateKey", boxGenerateKey)
	def("golang.org/x/crypto/nacl/box.Precompute", boxPrecompute)
	def("golang.org/x/crypto/nacl/secretbox.Seal", boxSeal)
	def("golang.org/x/crypto/nacl/secretbox.Open", boxOpen)
}

// decDigits are the decimal digits of an unsigned number: unknowns that are
// determined by their sum.
func (p *Path) decDigits(x *Term) []*Term {
	tt := p.tt
	if x.isConst() {
		return p.bytesOf(cstr(strconv.FormatUint(x.val, 10)))
	}
	n, lim := 1, uint64(10)
	for n < 20 && !p.Branch(tt.Ult(x, p.i64c(lim))) {
		n++
		lim *= 10
	}
	if n == 1 {
		return []*Term{tt.Add(tt.Extract(x, 7, 0), tt.C(8, '0'))}
	}
	if p.digits == nil {
		p.digits = map[*Term][]*Term{}
	}
	if d, ok := p.digits[x]; ok {
		return d
	}
	out := make([]*Term, n)
	rest := x
	if n == 20 {
		rest = tt.Sub(x, p.i64c(10000000000000000000))
		out[0] = tt.C(8, '1')
	}
	nm := make(Model, len(p.model)+n)
	for k, v := range p.model {
		nm[k] = v
	}
	v := tt.Eval(rest, p.model)
	sum := p.i64(0)
	m := uint64(1)
	var cs []*Term
	for i := n - 1; i >= 0 && !(n == 20 && i == 0); i-- {
		d := tt.Bounded(fmt.Sprintf("dec%d.%d", len(p.digits), i), 8, 9)
		nm[d.name] = v % 10
		v /= 10
		cs = append(cs, tt.Not(tt.mk(OpUlt, 0, 0, 0, tt.C(8, 9), d)))
		sum = tt.Add(sum, tt.Mul(tt.Zext(d, 64), p.i64c(m)))
		m *= 10
		out[i] = tt.Add(d, tt.C(8, '0'))
	}
	p.model = nm
	for _, c := range append(cs, tt.Eq(sum, rest)) {
		p.addPC(c)
	}
	p.digits[x] = out
	return out
}

func (p *Path) i64c(v uint64) *Term { return p.tt.C(64, v) }

func (p *Path) strPanic(msg string) {
	panic(goPanic{Iface{types.Typ[types.String], cstr(msg)}, msg})
}

func (p *Path) natItoa() *ssa.Function {
	t := p.prog.ssa.ImportedPackage("math/big").Type("nat").Type()
	ms := p.prog.ssa.MethodSets.MethodSet(t)
	return p.prog.ssa.MethodValue(ms.Lookup(p.prog.ssa.ImportedPackage("math/big").Pkg, "itoa"))
}

// callBody runs the SSA body of a function that also has an intrinsic.
func (p *Path) callBody(pkg, name string, a []Value) Value {
	fn := p.prog.ssa.ImportedPackage(pkg).Func(name)
	save := p.intr[fn]
	p.intr[fn] = nil
	defer func() { p.intr[fn] = save }()
	return p.callFn(fn, a, nil)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// --- fmt

func (p *Path) fmtArg(verb byte, v Iface) *Str {
	if v.t == nil {
		if verb == 's' {
			return cstr("%!s(<nil>)")
		}
		if verb == 'd' {
			return cstr("%!d(<nil>)")
		}
		return cstr("<nil>")
	}
	if verb == 'T' {
		return cstr(types.TypeString(v.t, func(p *types.Package) string { return p.Name() }))
	}
	if rt, ok := v.v.(*RType); ok {
		return cstr(rt.str())
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		for _, name := range []string{"Error", "String"} {
			fn := p.findMethod(v.t, name)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if q, ok := v.v.(Ptr); ok && q.obj == nil {
					return cstr("<nil>")
				}
				s := p.callFn(fn, []Value{v.v}, nil).(*Str)
				if verb == 'q' {
					return p.quote(s)
				}
				return s
			}
		}
	}
	switch x := v.v.(type) {
	case *Str:
		if verb == 'q' {
			return p.quote(x)
		}
		if verb == 'x' {
			b := p.newByteSlice(p.bytesOf(x), "formatted string")
			return p.callFn(p.prog.ssa.ImportedPackage("encoding/hex").Func("EncodeToString"), []Value{b}, nil).(*Str)
		}
		return x
	case Slice:
		if st, ok := v.t.Underlying().(*types.Slice); ok && types.Identical(st.Elem().Underlying(), types.Typ[types.Uint8]) {
			if verb == 's' {
				return mkStr(p.sliceBytes(x))
			}
			if verb == 'x' {
				return p.callFn(p.prog.ssa.ImportedPackage("encoding/hex").Func("EncodeToString"), []Value{x}, nil).(*Str)
			}
		}
	case *Term:
		w, signed, isF, _ := basicInfo(v.t)
		if w == 0 {
			if p.Branch(x) {
				return cstr("true")
			}
			return cstr("false")
		}
		if isF {
			if x.isConst() {
				return cstr(fmt.Sprint(fval(x.val, w)))
			}
			break
		}
		if verb == 'd' || verb == 'v' {
			if x.isConst() {
				if signed {
					return cstr(strconv.FormatInt(sx(x.val, w), 10))
				}
				return cstr(strconv.FormatUint(x.val, 10))
			}
			if !p.errText {
				fn, a := "FormatUint", p.ext(x, signed, 64)
				if signed {
					fn = "FormatInt"
				}
				return p.callFn(p.prog.ssa.ImportedPackage("strconv").Func(fn), []Value{a, p.i64(10)}, nil).(*Str)
			}
			p.ex.note("the text of an unknown number in an error message is opaque")
			return cstr("<n>")
		}
		if verb == 'c' {
			return p.runeStr(p.ext(x, signed, 32))
		}
		if verb == 'x' && w == 8 && !x.isConst() && !p.errText {
			return cstr(fmt.Sprintf("%x", p.Concretize(x, "formatted byte")))
		}
		if x.isConst() && (verb == 'x' || verb == 'X') {
			return cstr(fmt.Sprintf("%"+string(verb), x.val))
		}
	}
	p.ex.note("formatted text of a " + v.t.String() + " is opaque")
	return cstr("<?>")
}

func (p *Path) quote(s *Str) *Str {
	return p.callFn(p.prog.ssa.ImportedPackage("strconv").Func("Quote"), []Value{s}, nil).(*Str)
}

func (p *Path) sprintf(f *Str, args Slice) *Str {
	fs := p.concStr(f, "format")
	n := p.sliceLen(args, "format args")
	out := emptyStr
	k := 0
	for i := 0; i < len(fs); i++ {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = p.concat(out, cstr(fs[i:]))
			break
		}
		out = p.concat(out, cstr(fs[i:i+j]))
		i += j + 1
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			out = p.concat(out, cstr("%!(NOVERB)"))
			break
		}
		if fs[i] == '%' {
			out = p.concat(out, cstr("%"))
			continue
		}
		if k >= n {
			out = p.concat(out, cstr("%!"+string(fs[i])+"(MISSING)"))
			continue
		}
		a := p.get1(args.obj, args.off+k).(Iface)
		k++
		if fl := fs[st:i]; fl != "" && fl != "+" && fl != "#" {
			if t, ok := a.v.(*Term); ok && t.isConst() {
				w, signed, isF, _ := basicInfo(a.t)
				var v interface{} = t.val
				if isF {
					v = fval(t.val, w)
				} else if signed {
					v = sx(t.val, w)
				}
				out = p.concat(out, cstr(fmt.Sprintf("%"+fl+string(fs[i]), v)))
				continue
			}
			if t, ok := a.v.(*Term); ok && t.w == 8 && !p.errText {
				v := p.Concretize(t, "formatted byte")
				out = p.concat(out, cstr(fmt.Sprintf("%"+fl+string(fs[i]), v)))
				continue
			}
			p.ex.note("format flags on a symbolic operand are opaque")
		}
		out = p.concat(out, p.fmtArg(fs[i], a))
	}
	return out
}

func (p *Path) sprint(args Slice, ln bool) *Str {
	out := emptyStr
	n := p.sliceLen(args, "format args")
	for i := 0; i < n; i++ {
		a := p.get1(args.obj, args.off+i).(Iface)
		if i > 0 && ln {
			out = p.concat(out, cstr(" "))
		}
		out = p.concat(out, p.fmtArg('v', a))
	}
	return out
}

// --- nacl/box model

type boxRec struct {
	box, nonce, msg, key []*Term
}

type sharedRec struct {
	a, b []*Term // the two public keys
	key  []*Term
}

func (p *Path) arr(v Value, n int) []*Term {
	q := p.concPtr(v.(Ptr))
	if q.obj == nil {
		p.nilDeref()
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = p.get1(q.obj, q.off+i).(*Term)
	}
	return out
}

// the model's public key is the private key with its last byte flipped
func (p *Path) pubOf(priv []*Term) []*Term {
	out := append([]*Term{}, priv...)
	out[31] = p.tt.BXor(out[31], p.tt.C(8, 0xff))
	return out
}

func boxGenerateKey(p *Path, a []Value) Value {
	buf := p.alloc(types.NewArray(types.Typ[types.Uint8], 32), "private key")
	s := Slice{buf.obj, 0, p.i64(32), p.i64(32), 1}
	r := p.callFn(p.prog.ssa.ImportedPackage("io").Func("ReadFull"), []Value{a[0], s}, nil).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		return Tuple{Ptr{}, Ptr{}, e}
	}
	pub := p.newByteSlice(p.pubOf(p.arr(buf, 32)), "public key")
	return Tuple{Ptr{obj: pub.obj}, buf, Iface{}}
}

// boxPrecompute: the shared key is an unknown that depends on the unordered
// pair of public keys only; different pairs have different shared keys.
func boxPrecompute(p *Path, a []Value) Value {
	peer, mine := p.arr(a[1], 32), p.pubOf(p.arr(a[2], 32))
	tt := p.tt
	var key []*Term
	for _, r := range p.shared {
		same := tt.Or(tt.And(p.bytesEq(peer, r.b), p.bytesEq(mine, r.a)), tt.And(p.bytesEq(peer, r.a), p.bytesEq(mine, r.b)))
		if p.Branch(same) {
			key = r.key
			break
		}
	}
	if key == nil {
		key = make([]*Term, 32)
		for i := range key {
			key[i] = tt.Var(fmt.Sprintf("shared key%d[%d]", len(p.shared), i), 8)
		}
		for _, r := range p.shared {
			p.Assume(tt.Not(p.bytesEq(key, r.key)))
		}
		p.shared = append(p.shared, sharedRec{peer, mine, key})
	}
	q := p.concPtr(a[0].(Ptr))
	if q.obj == nil {
		p.nilDeref()
	}
	for i, t := range key {
		p.set1(q.obj, q.off+i, t)
	}
	return nil
}

func boxSeal(p *Path, a []Value) Value {
	out, msg := a[0].(Slice), p.sliceBytes(a[1].(Slice))
	nonce, key := p.arr(a[2], 24), p.arr(a[3], 32)
	box := make([]*Term, 16+len(msg))
	p.rnd++
	for i := range box {
		box[i] = p.tt.Var(fmt.Sprintf("ciphertext%d[%d]", p.rnd, i), 8)
	}
	for _, r := range p.boxes {
		if len(r.box) == len(box) {
			p.Assume(p.tt.Not(p.bytesEq(r.box, box)))
		}
	}
	p.boxes = append(p.boxes, boxRec{box, nonce, msg, key})
	n := p.sliceLen(out, "Seal out")
	el := make([]Value, len(box))
	for i, t := range box {
		el[i] = t
	}
	return p.appendVals(out, n, el, 1, types.Typ[types.Uint8], p.tt)
}

func boxOpen(p *Path, a []Value) Value {
	out, box := a[0].(Slice), p.sliceBytes(a[1].(Slice))
	nonce, key := p.arr(a[2], 24), p.arr(a[3], 32)
	tt := p.tt
	for _, r := range p.boxes {
		if len(r.box) != len(box) {
			continue
		}
		same := tt.And(p.bytesEq(key, r.key), tt.And(p.bytesEq(nonce, r.nonce), p.bytesEq(box, r.box)))
		if p.Branch(same) {
			el := make([]Value, len(r.msg))
			for i, t := range r.msg {
				el[i] = t
			}
			n := p.sliceLen(out, "Open out")
			return Tuple{p.appendVals(out, n, el, 1, types.Typ[types.Uint8], tt), tt.True}
		}
	}
	return Tuple{p.nilSlice(types.NewSlice(types.Typ[types.Uint8])), tt.False}
}

// deepEqual is reflect.DeepEqual.
func (p *Path) deepEqual(t types.Type, x, y Value, seen map[[2]Ptr]bool, depth int) bool {
	if depth > 2000 {
		p.unsupported("reflect.DeepEqual at a depth of 2000")
	}
	elem := func(o *Obj, off, es int, et types.Type) Value {
		if isAgg(et) {
			var g Agg
			for k := 0; k < es; k++ {
				g = append(g, p.get1(o, off+k))
			}
			return g
		}
		return p.get1(o, off)
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || a.t == nil || b.t == nil {
			return ok && a.t == nil && b.t == nil
		}
		if ra, ok := a.v.(*RType); ok {
			return b.v == Value(ra)
		}
		if p.canon(a.t) != p.canon(b.t) {
			return false
		}
		return p.deepEqual(a.t, a.v, b.v, seen, depth+1)
	case Ptr:
		a, b := p.concPtr(a), p.concPtr(y.(Ptr))
		if a.obj == b.obj && (a.obj == nil || a.off == b.off) {
			return true
		}
		if a.obj == nil || b.obj == nil {
			return false
		}
		k := [2]Ptr{a, b}
		if seen[k] {
			return true
		}
		seen[k] = true
		et := t.Underlying().(*types.Pointer).Elem()
		n := nslots(et)
		return p.deepEqual(et, elem(a.obj, a.off, n, et), elem(b.obj, b.off, n, et), seen, depth+1)
	case Slice:
		b := y.(Slice)
		if (a.obj == nil) != (b.obj == nil) || !p.Branch(p.tt.Eq(a.len, b.len)) {
			return false
		}
		if a.obj == nil || a.obj == b.obj && a.off == b.off {
			return true
		}
		et := t.Underlying().(*types.Slice).Elem()
		for i, n := 0, p.sliceLen(a, "reflect.DeepEqual"); i < n; i++ {
			if !p.deepEqual(et, elem(a.obj, a.off+i*a.es, a.es, et), elem(b.obj, b.off+i*b.es, b.es, et), seen, depth+1) {
				return false
			}
		}
		return true
	case Agg:
		b := y.(Agg)
		part := func(g Agg, o int, et types.Type) Value {
			if isAgg(et) {
				return g[o : o+nslots(et)]
			}
			return g[o]
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				o, ft := fieldOff(u, i), u.Field(i).Type()
				if !p.deepEqual(ft, part(a, o, ft), part(b, o, ft), seen, depth+1) {
					return false
				}
			}
			return true
		case *types.Array:
			n := nslots(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				if !p.deepEqual(u.Elem(), part(a, i*n, u.Elem()), part(b, i*n, u.Elem()), seen, depth+1) {
					return false
				}
			}
			return true
		}
	case *MapObj:
		b := y.(*MapObj)
		if a == nil || b == nil || a == b {
			return a == b
		}
		if a.length() != b.length() {
			return false
		}
		et := t.Underlying().(*types.Map).Elem()
		for i, k := range a.keys {
			if k == nil {
				continue
			}
			v, ok := p.mapGet(b, k)
			if !ok || !p.deepEqual(et, a.vals[i], v, seen, depth+1) {
				return false
			}
		}
		return true
	case *Closure:
		return a == nil && y.(*Closure) == nil
	}
	return p.Branch(p.equal(t, x, y))
}

func (p *Path) condOf(q Ptr) *[2]int {
	if p.conds == nil {
		p.conds = map[Ptr]*[2]int{}
	}
	if p.conds[q] == nil {
		p.conds[q] = new([2]int)
	}
	return p.conds[q]
}

// condLock is the field L of a condition.
func (p *Path) condLock(q Ptr) Iface {
	st := p.prog.ssa.ImportedPackage("sync").Type("Cond").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return p.get1(q.obj, q.off+fieldOff(st, i)).(Iface)
		}
	}
	return Iface{}
}
