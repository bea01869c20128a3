package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the SSA of /repo, the harness and everything they import.
type Program struct {
	ssa     *ssa.Program
	harness *ssa.Package
	target  *ssa.Package
	sizes   types.Sizes
	canonMu sync.Mutex
	canonM  typeutil.Map
	funcs   sync.Map // *ssa.Function -> *fnInfo
	known   map[string]bool
	tier    int

	usedMu sync.Mutex
	used   map[string]int
}

type fnInfo struct {
	idx      map[ssa.Value]int
	n        int
	hasDefer bool
	name     string
}

type intrinsic func(p *Path, fr *frame, call *ssa.CallCommon, args []Value) Value

type deferred struct {
	fn   *ssa.Function
	cl   *Closure
	bi   *ssa.Builtin
	args []Value
	inst *ssa.Defer
}

type frame struct {
	fn          *ssa.Function
	info        *fnInfo
	regs        []Value
	bind        []Value
	caller      *frame
	block, prev *ssa.BasicBlock
	defers      []deferred
	panicking   *goPanic
	deferOf     *frame
	merged      []Value // phi values precomputed by ifConvert
}

func NewInterp(prog *Program) *Interp {
	ip := &Interp{prog: prog}
	ip.reset()
	return ip
}

func (ip *Interp) reset() {
	ip.tt = NewTermTab()
	ip.solver = NewSolver(ip.tt, *flagTimeout)
	ip.globals = map[*ssa.Global]*Obj{}
	ip.inited = map[*ssa.Package]int{}
	ip.consts = map[*ssa.Const]Value{}
	ip.fnVals = map[*ssa.Function]*Closure{}
	ip.intr = map[*ssa.Function]intrinsic{}
	ip.methods = map[methKey]*ssa.Function{}
	ip.implC = map[implKey]bool{}
	ip.seen = map[*ssa.Function]int{}
	ip.noteSet = map[string]int{}
	ip.rtypes = map[types.Type]*RType{}
	ip.canonL = map[types.Type]types.Type{}
	ip.onceDone = map[Ptr]bool{}
	ip.initDepth = 0
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.funcs.Load(fn); ok {
		return v.(*fnInfo)
	}
	inf := &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		inf.idx[v] = inf.n
		inf.n++
	}
	for _, q := range fn.Params {
		add(q)
	}
	for _, q := range fn.FreeVars {
		add(q)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				inf.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, have := inf.idx[v]; !have {
					add(v)
				}
			}
		}
	}
	v, _ := pr.funcs.LoadOrStore(fn, inf)
	return v.(*fnInfo)
}

// canon maps identical types to one representative.
func (ip *Interp) canon(t types.Type) types.Type {
	if c, ok := ip.canonL[t]; ok {
		return c
	}
	pr := ip.prog
	pr.canonMu.Lock()
	c, ok := pr.canonM.At(t).(types.Type)
	if !ok {
		c = types.Unalias(t)
		pr.canonM.Set(t, c)
	}
	pr.canonMu.Unlock()
	ip.canonL[t] = c
	return c
}

// --- heap

func (p *Path) newObj(slots []Value, desc string) *Obj {
	p.objID++
	o := &Obj{id: p.objID, slots: slots, desc: desc}
	if p.initDepth == 0 {
		o.epoch = 1
		o.seq = p.seqN
		p.seqN++
	}
	return o
}

func (p *Path) alloc(t types.Type, desc string) Ptr {
	return Ptr{obj: p.newObj(p.zeroSlots(t, nil), desc)}
}

func (p *Path) grow(o *Obj, i int) {
	if o.lz == nil && o.zero == nil {
		panic(fmt.Sprintf("slot %d outside object %s of %d slots", i, o.desc, len(o.slots)))
	}
	if o.max > 0 && i >= o.max {
		p.unsupported("access to element %d of a symbolically sized object (bound %d)", i, o.max)
	}
	old := len(o.slots)
	if o.lz != nil {
		for len(o.slots) <= i {
			o.slots = append(o.slots, o.lz.at(p, len(o.slots)))
		}
	} else {
		for len(o.slots) <= i {
			o.slots = append(o.slots, o.zero...)
		}
	}
	if o.epoch == 0 && p.initDepth == 0 {
		p.undo = append(p.undo, func() { o.slots = o.slots[:old] })
	}
}

func (l *Lazy) at(p *Path, i int) *Term {
	if t, ok := l.bytes[i]; ok {
		return t
	}
	t := p.tt.Var(fmt.Sprintf("%s[%d]", l.name, i), 8)
	l.bytes[i] = t
	return t
}

func (p *Path) get1(o *Obj, i int) Value {
	if i >= len(o.slots) {
		p.grow(o, i)
	}
	if p.regionStart > 0 && o.seq < p.regionStart && p.lockDepth == 0 && p.rlocks == 0 && !p.atomicOp && p.initDepth == 0 {
		p.plainReads[memLoc{o, nil, i}] = true
	}
	return o.slots[i]
}

// memLoc is a slot of an object, or a whole map.
type memLoc struct {
	o *Obj
	m *MapObj
	i int
}

// publish makes everything that can be reached from v memory that other
// goroutines see.
func (p *Path) publish(v Value) {
	if p.regionStart == 0 {
		return
	}
	obj := func(o *Obj) {
		if o != nil && o.seq >= p.regionStart {
			o.seq = p.regionStart - 1
			for _, s := range o.slots {
				p.publish(s)
			}
		}
	}
	switch x := v.(type) {
	case Ptr:
		obj(x.obj)
	case Slice:
		obj(x.obj)
	case Iface:
		p.publish(x.v)
	case Agg:
		for _, s := range x {
			p.publish(s)
		}
	case Tuple:
		for _, s := range x {
			p.publish(s)
		}
	case *Closure:
		if x != nil {
			for _, s := range x.bind {
				p.publish(s)
			}
		}
	case *MapObj:
		if x != nil && x.seq >= p.regionStart {
			x.seq = p.regionStart - 1
			for _, s := range x.keys {
				p.publish(s)
			}
			for _, s := range x.vals {
				p.publish(s)
			}
		}
	}
}

func (p *Path) set1(o *Obj, i int, v Value) {
	if i >= len(o.slots) {
		p.grow(o, i)
	}
	if p.initDepth == 0 {
		if o.epoch == 0 {
			old := o.slots[i]
			p.undo = append(p.undo, func() { o.slots[i] = old })
		}
		if p.regionStart > 0 && o.seq < p.regionStart {
			if p.lockDepth == 0 && !p.atomicOp {
				p.frozenWrite(o)
			}
			if p.onceDepth == 0 {
				p.lockedWrites[memLoc{o, nil, i}] = true
			}
			p.publish(v)
		}
	}
	o.slots[i] = v
}

func (p *Path) frozenWrite(o *Obj) {
	p.ensureModelAny()
	p.violate("write to memory that existed before a read-only region ("+o.desc+")", p.model)
}

func (p *Path) ensureModelAny() {
	if p.inPrefix() {
		// the parent path already reported here
		p.abort(abPruned, "replayed violation")
	}
	p.ensureModel()
}

func (p *Path) nilDeref() {
	p.rtPanic("invalid memory address or nil pointer dereference")
}

// load reads a value of type t at address a.
func (p *Path) load(a Ptr, t types.Type) Value {
	if a.obj == nil {
		p.nilDeref()
	}
	n := 1
	agg := isAgg(t)
	if agg {
		n = nslots(t)
	}
	if a.idx != nil {
		if v, ok := p.loadSym(a, n, agg); ok {
			return v
		}
		a = p.concPtr(a)
	}
	if !agg {
		v := p.get1(a.obj, a.off)
		if _, bad := v.(Poison); bad {
			p.unsupported("value of a package variable whose initialiser could not be encoded: %s", a.obj.desc)
		}
		// headers read through an unsafe pointer
		switch x := v.(type) {
		case Slice:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if x.obj == nil || x.len.isConst() && x.len.val == 0 {
					return emptyStr
				}
				return &Str{ob: x.obj, off: x.off, n: x.len}
			}
		case *Str:
			if _, ok := t.Underlying().(*types.Slice); ok {
				if x.ob != nil {
					return Slice{x.ob, x.off, x.n, x.n, 1}
				}
				return p.newByteSlice(p.bytesOf(x), "string data")
			}
		}
		return v
	}
	out := make(Agg, n)
	for i := range out {
		out[i] = p.get1(a.obj, a.off+i)
	}
	return out
}

func (p *Path) loadSym(a Ptr, n int, agg bool) (Value, bool) {
	one := func(k int) (Value, bool) {
		vals := make([]*Term, a.n)
		for i := range vals {
			t, ok := p.get1(a.obj, a.off+i*a.stride+k).(*Term)
			if !ok {
				return nil, false
			}
			vals[i] = t
		}
		return p.selectTerm(a.idx, vals), true
	}
	if !agg {
		return one(0)
	}
	out := make(Agg, n)
	for k := range out {
		v, ok := one(k)
		if !ok {
			return nil, false
		}
		out[k] = v
	}
	return out, true
}

// selectTerm builds vals[idx], given idx < len(vals), as a search tree over
// runs of equal values.
func (p *Path) selectTerm(idx *Term, vals []*Term) *Term {
	type run struct {
		lo int
		t  *Term
	}
	var runs []run
	for i, v := range vals {
		if len(runs) == 0 || runs[len(runs)-1].t != v {
			runs = append(runs, run{i, v})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if b-a == 1 {
			return runs[a].t
		}
		m := (a + b) / 2
		lo := uint64(runs[m].lo)
		if lo > mask(idx.w) {
			return build(a, m)
		}
		if runs[0].t.w == 0 {
			return p.tt.Ite(p.tt.Ult(idx, p.tt.C(idx.w, lo)), build(a, m), build(m, b))
		}
		return p.tt.mk(OpIte, runs[0].t.w, 0, 0, p.tt.Ult(idx, p.tt.C(idx.w, lo)), build(a, m), build(m, b))
	}
	if idx.leaf != nil && idx.leaf != noLeaf && len(runs) > 1 {
		// a function of a small unknown: maybe a simple one
		tab := p.tt.table(idx)
		r := make([]uint64, len(tab))
		for i, x := range tab {
			if x >= uint64(len(vals)) {
				x = uint64(len(vals)) - 1 // not possible here
			}
			if !vals[x].isConst() {
				r = nil
				break
			}
			r[i] = vals[x].val
		}
		if r != nil {
			if t := p.tt.fromTable(idx.leaf, r, runs[0].t.w); t != nil {
				return t
			}
		}
	}
	return build(0, len(runs))
}

func (p *Path) concPtr(a Ptr) Ptr {
	if a.idx == nil {
		return a
	}
	k := p.Concretize(a.idx, "address")
	return Ptr{obj: a.obj, off: a.off + int(k)*a.stride}
}

func (p *Path) store(a Ptr, v Value) {
	if a.obj == nil {
		p.nilDeref()
	}
	if a.idx != nil {
		if t, ok := v.(*Term); ok && a.n <= 64 {
			all := true
			for i := 0; i < a.n && all; i++ {
				_, all = p.get1(a.obj, a.off+i*a.stride).(*Term)
			}
			if all {
				for i := 0; i < a.n; i++ {
					o := a.off + i*a.stride
					old := p.get1(a.obj, o).(*Term)
					p.set1(a.obj, o, p.tt.Ite(p.tt.Eq(a.idx, p.tt.C(a.idx.w, uint64(i))), t, old))
				}
				return
			}
		}
		a = p.concPtr(a)
	}
	if agg, ok := v.(Agg); ok {
		for i, x := range agg {
			p.set1(a.obj, a.off+i, x)
		}
		return
	}
	p.set1(a.obj, a.off, v)
}

// --- panics

func (p *Path) rtPanic(msg string) {
	t := p.prog.ssa.ImportedPackage("runtime").Type("errorString").Type()
	panic(goPanic{Iface{t, cstr(msg)}, "runtime error: " + msg})
}

func (p *Path) bcheck(ok *Term, msg string) {
	if ok.isConst() && ok.val == 1 {
		return
	}
	if !p.Branch(ok) {
		p.rtPanic(msg)
	}
}

func (p *Path) describePanic(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case *Str:
		if s, ok := p.tryStr(x); ok {
			return s
		}
		return "<symbolic string>"
	case *Term:
		return x.String()
	}
	return i.t.String()
}

// --- globals and package initialisation

// packages whose initialisers are not run: machine- and OS-level state the
// code under test never consults through its variables.
var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "time": true, "reflect": true, "internal/reflectlite": true, "internal/poll": true,
	"internal/godebug": true, "internal/godebugs": true, "internal/cpu": true, "os/signal": true, "net": true, "internal/syscall/unix": true, "internal/testlog": true,
	"crypto/internal/boring": true, "crypto/rand": false, "golang.org/x/sys/cpu": true, "crypto/internal/fips140deps/cpu": true}

type Poison struct{ why string }

func (p *Path) global(g *ssa.Global) Ptr {
	p.ensureInit(g.Pkg)
	return Ptr{obj: p.globalObj(g)}
}

func (p *Path) globalObj(g *ssa.Global) *Obj {
	o, ok := p.globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		p.objID++
		o = &Obj{id: p.objID, slots: p.zeroSlots(t, nil), desc: "package variable " + g.String()}
		p.globals[g] = o
	}
	return o
}

func (p *Path) ensureInit(pkg *ssa.Package) {
	if pkg == nil || p.inited[pkg] != 0 {
		return
	}
	p.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "crypto/internal/fips140") {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	p.initDepth++
	saveSteps, saveMax, saveRegion, saveFrame, saveFn := p.steps, p.maxStep, p.regionStart, p.frame, p.curFn
	p.steps, p.maxStep, p.regionStart = 0, 20000000, 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(pathAbort); ok && a.kind == abUnknown {
					panic(r)
				}
				if os.Getenv("ENGINE_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "init of", path, "stopped:", r)
				}
			}
		}()
		p.callFn(fn, nil, nil)
	}()
	p.initDepth--
	p.steps, p.maxStep, p.regionStart, p.frame, p.curFn = saveSteps, saveMax, saveRegion, saveFrame, saveFn
}

// --- constants

func (p *Path) constVal(c *ssa.Const) Value {
	if v, ok := p.consts[c]; ok {
		return v
	}
	v := p.mkConst(c)
	p.consts[c] = v
	return v
}

func (p *Path) mkConst(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zeroVal(t)
	}
	w, signed, isF, isS := basicInfo(t)
	_ = signed
	switch {
	case isS:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		n, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(n)))
	case isF:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return p.tt.C(32, uint64(math.Float32bits(f32)))
		}
		return p.tt.C(64, math.Float64bits(f))
	case w == 0:
		return p.tt.B(constant.BoolVal(c.Value))
	case w < 0:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			return p.tt.C(64, 0)
		}
		p.unsupported("constant of type %v", t)
	}
	iv := constant.ToInt(c.Value)
	if u, ok := constant.Uint64Val(iv); ok {
		return p.tt.C(w, u)
	}
	i, _ := constant.Int64Val(iv)
	return p.tt.C(w, uint64(i))
}

func (p *Path) fnVal(fn *ssa.Function) *Closure {
	c, ok := p.fnVals[fn]
	if !ok {
		c = &Closure{fn: fn}
		p.fnVals[fn] = c
	}
	return c
}

func (p *Path) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return p.constVal(v)
	case *ssa.Global:
		return p.global(v)
	case *ssa.Function:
		return p.fnVal(v)
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fn))
	}
	return fr.regs[i]
}

func (p *Path) term(fr *frame, v ssa.Value) *Term { return p.get(fr, v).(*Term) }

// --- calls

func (p *Path) callFn(fn *ssa.Function, args, bind []Value) Value {
	return p.callFn2(fn, args, bind, nil)
}

func (p *Path) callFn2(fn *ssa.Function, args, bind []Value, deferOf *frame) Value {
	in, ok := p.intr[fn]
	if !ok {
		in = lookupIntrinsic(fn)
		p.intr[fn] = in
		if in == nil {
			p.prog.noteFn(fn)
		}
	}
	if in != nil {
		return in(p, p.frame, nil, args)
	}
	if fn.Blocks == nil {
		p.unsupported("function without a body: %s", fn)
	}
	if p.initDepth > 0 && fn.Name() == "init" && fn.Synthetic == "package initializer" && p.depth > 0 && p.frame != nil && p.frame.fn.Name() == "init" && p.frame.fn.Synthetic == "package initializer" {
		return nil // initialised lazily
	}
	p.depth++
	if p.depth > 2500 && p.depth > p.maxFrames {
		n := p.depth - 1
		p.depth = 0
		p.ensureModelAny()
		p.ex.report(p, fmt.Sprintf("recursion does not terminate (%d frames deep)", n), p.model)
		p.abort(abSteps, "recursion depth in %s", fn)
	}
	info := p.prog.info(fn)
	fr := &frame{fn: fn, info: info, regs: make([]Value, info.n), bind: bind, caller: p.frame, deferOf: deferOf}
	saveFr, saveFn := p.frame, p.curFn
	p.frame, p.curFn = fr, fn
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = bind[i]
	}
	fr.block = fn.Blocks[0]
	var res Value
	if info.hasDefer {
		res = p.runDeferFrame(fr)
	} else {
		res = p.runFrame(fr)
	}
	p.frame, p.curFn = saveFr, saveFn
	p.depth--
	return res
}

func (p *Path) runDeferFrame(fr *frame) (res Value) {
	depth := p.depth
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = &gp
		}()
		res = p.runFrame(fr)
		normal = true
	}()
	if normal {
		return res
	}
	// panicking: run deferred calls
	p.depth = depth
	p.frame, p.curFn = fr, fr.fn
	p.runDefers(fr)
	if fr.panicking != nil {
		panic(*fr.panicking)
	}
	p.frame, p.curFn = fr, fr.fn
	if fr.fn.Recover != nil {
		fr.block = fr.fn.Recover
		fr.prev = nil
		return p.runFrame(fr)
	}
	// no named results: zero values
	rs := fr.fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return p.zeroVal(rs.At(0).Type())
	}
	var tu Tuple
	for i := 0; i < rs.Len(); i++ {
		tu = append(tu, p.zeroVal(rs.At(i).Type()))
	}
	return tu
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if fr.panicking == nil {
					return // let a fresh panic travel
				}
				r := recover()
				if r == nil {
					return
				}
				gp, ok := r.(goPanic)
				if !ok {
					panic(r)
				}
				p.frame, p.curFn = fr, fr.fn
				fr.panicking = &gp
			}()
			switch {
			case d.bi != nil:
				p.builtin(fr, d.bi, d.args, &d.inst.Call)
			case d.fn != nil:
				p.callFn2(d.fn, d.args, nil, fr)
			default:
				p.callClosure(d.cl, d.args, fr)
			}
		}()
	}
}

func (p *Path) callClosure(c *Closure, args []Value, deferOf *frame) Value {
	if c == nil {
		p.nilDeref()
	}
	if c.nat != nil {
		return c.nat(p, args)
	}
	return p.callFn2(c.fn, args, c.bind, deferOf)
}

// callMethod invokes method name on an interface value.
func (p *Path) invoke(recv Iface, m *types.Func, args []Value) Value {
	if recv.t == nil {
		p.nilDeref()
	}
	if rt, ok := recv.v.(*RType); ok {
		return p.rtypeMethod(rt, m.Name(), args)
	}
	fn := p.methodOf(recv.t, m)
	if fn == nil {
		p.unsupported("no method %s on %v", m.Name(), recv.t)
	}
	return p.callFn(fn, append([]Value{recv.v}, args...), nil)
}

func (p *Path) methodOf(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{p.canon(t), m.Id()}
	if f, ok := p.methods[k]; ok {
		return f
	}
	f := p.prog.ssa.LookupMethod(t, m.Pkg(), m.Name())
	p.methods[k] = f
	return f
}

func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	ms := p.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	k := implKey{p.canon(t), it}
	if b, ok := p.implC[k]; ok {
		return b
	}
	b := types.Implements(t, it)
	p.implC[k] = b
	return b
}

func (p *Path) call(fr *frame, c *ssa.CallCommon) Value {
	if c.IsInvoke() {
		recv := p.get(fr, c.Value).(Iface)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = p.get(fr, a)
		}
		return p.invoke(recv, c.Method, args)
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = p.get(fr, a)
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return p.callFn(f, args, nil)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, c)
	}
	return p.callClosure(p.get(fr, c.Value).(*Closure), args, nil)
}

// --- the instruction loop

func (p *Path) runFrame(fr *frame) Value {
	var tmp []Value
	for {
		b := fr.block
		instrs := b.Instrs
		i := 0
		if len(instrs) > 0 {
			if fr.merged != nil {
				for i < len(fr.merged) {
					fr.regs[fr.info.idx[instrs[i].(*ssa.Phi)]] = fr.merged[i]
					i++
				}
				fr.merged = nil
			} else if _, ok := instrs[0].(*ssa.Phi); ok {
				pi := 0
				for k, q := range b.Preds {
					if q == fr.prev {
						pi = k
						break
					}
				}
				tmp = tmp[:0]
				for ; i < len(instrs); i++ {
					phi, ok := instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					tmp = append(tmp, p.get(fr, phi.Edges[pi]))
				}
				for k := 0; k < i; k++ {
					fr.regs[fr.info.idx[instrs[k].(*ssa.Phi)]] = tmp[k]
				}
			}
		}
		jumped := false
		for ; i < len(instrs); i++ {
			p.steps++
			if p.steps > p.maxStep {
				p.abort(abSteps, "%d steps in %s", p.maxStep, fr.fn)
			}
			if p.steps&0xfff == 0 {
				p.checkTime()
			}
			switch in := instrs[i].(type) {
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				jumped = true
			case *ssa.If:
				p.branchTo(fr, b, p.term(fr, in.Cond))
				jumped = true
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return p.get(fr, in.Results[0])
				}
				tu := make(Tuple, len(in.Results))
				for k, r := range in.Results {
					tu[k] = p.get(fr, r)
				}
				return tu
			case *ssa.RunDefers:
				p.runDefers(fr)
			case *ssa.Panic:
				v := p.get(fr, in.X)
				msg := p.describePanic(v)
				if iv, ok := v.(Iface); ok && iv.t == nil {
					p.rtPanic("panic called with nil argument")
				}
				panic(goPanic{v, msg})
			case *ssa.Store:
				a := p.get(fr, in.Addr).(Ptr)
				p.store(a, p.get(fr, in.Val))
			case *ssa.MapUpdate:
				m := p.get(fr, in.Map).(*MapObj)
				if m == nil {
					panic(goPanic{p.plainErr("assignment to entry in nil map"), "assignment to entry in nil map"})
				}
				p.mapSet(m, p.get(fr, in.Key), p.get(fr, in.Value))
			case *ssa.Defer:
				d := deferred{inst: in}
				c := &in.Call
				for _, a := range c.Args {
					d.args = append(d.args, p.get(fr, a))
				}
				if c.IsInvoke() {
					recv := p.get(fr, c.Value).(Iface)
					if recv.t == nil {
						p.nilDeref()
					}
					m := c.Method
					d.cl = &Closure{nat: func(p *Path, args []Value) Value { return p.invoke(recv, m, args) }}
				} else {
					switch f := c.Value.(type) {
					case *ssa.Function:
						d.fn = f
					case *ssa.Builtin:
						d.bi = f
					default:
						d.cl = p.get(fr, c.Value).(*Closure)
						if d.cl == nil {
							p.nilDeref()
						}
					}
				}
				fr.defers = append(fr.defers, d)
			case *ssa.Send:
				p.chanSend(p.get(fr, in.Chan).(*ChanObj), p.get(fr, in.X))
			case *ssa.Go:
				p.goStmt(fr, in)
			case *ssa.DebugRef:
			case ssa.Value:
				fr.regs[fr.info.idx[in]] = p.evalInstr(fr, in)
			default:
				p.unsupported("instruction %T", in)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("fell off block")
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (p *Path) plainErr(msg string) Value {
	t := p.prog.ssa.ImportedPackage("runtime").Type("errorString").Type()
	return Iface{t, cstr(msg)}
}

func (p *Path) evalInstr(fr *frame, in ssa.Value) Value {
	switch in := in.(type) {
	case *ssa.Call:
		return p.call(fr, &in.Call)
	case *ssa.BinOp:
		return p.binop(in.Op, in.X.Type(), in.Y.Type(), p.get(fr, in.X), p.get(fr, in.Y))
	case *ssa.UnOp:
		return p.unop(fr, in)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return p.alloc(t, fr.fn.Name()+":"+in.Comment)
	case *ssa.FieldAddr:
		a := p.get(fr, in.X).(Ptr)
		if a.obj == nil {
			p.nilDeref()
		}
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		a.off += fieldOff(st, in.Field)
		return a
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		agg := p.get(fr, in.X).(Agg)
		o := fieldOff(st, in.Field)
		ft := st.Field(in.Field).Type()
		if isAgg(ft) {
			return append(Agg{}, agg[o:o+nslots(ft)]...)
		}
		return agg[o]
	case *ssa.IndexAddr:
		return p.indexAddr(fr, in)
	case *ssa.Index:
		return p.indexVal(fr, in.X.Type(), p.get(fr, in.X), p.get(fr, in.Index).(*Term), in.Index.Type())
	case *ssa.Lookup:
		x := p.get(fr, in.X)
		if s, ok := x.(*Str); ok {
			return p.indexVal(fr, in.X.Type(), s, p.get(fr, in.Index).(*Term), in.Index.Type())
		}
		mt := in.X.Type().Underlying().(*types.Map)
		m := x.(*MapObj)
		v, ok := p.mapGet(m, p.get(fr, in.Index))
		if !ok {
			v = p.zeroVal(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, p.tt.B(ok)}
		}
		return v
	case *ssa.Slice:
		return p.sliceOp(fr, in)
	case *ssa.MakeSlice:
		st := in.Type().Underlying().(*types.Slice)
		return p.makeSlice(st, p.term64(fr, in.Len), p.term64(fr, in.Cap), fr.fn.Name())
	case *ssa.MakeMap:
		m := &MapObj{}
		if p.initDepth == 0 {
			m.epoch = 1
			m.seq = p.seqN
			p.seqN++
		}
		return m
	case *ssa.Select:
		return p.selectStmt(fr, in)
	case *ssa.MakeChan:
		n := p.Concretize(p.term64(fr, in.Size), "channel size")
		return &ChanObj{cap: int(n), epoch: 1}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, p.get(fr, b))
		}
		return c
	case *ssa.MakeInterface:
		return Iface{in.X.Type(), p.get(fr, in.X)}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if ci, ok := in.(*ssa.ChangeInterface); ok {
			x = ci.X
		} else {
			x = in.(*ssa.ChangeType).X
		}
		return p.get(fr, x)
	case *ssa.Convert:
		return p.convert(in.X.Type(), in.Type(), p.get(fr, in.X))
	case *ssa.MultiConvert:
		return p.convert(in.X.Type(), in.Type(), p.get(fr, in.X))
	case *ssa.TypeAssert:
		return p.typeAssert(p.get(fr, in.X).(Iface), in)
	case *ssa.Extract:
		return p.get(fr, in.Tuple).(Tuple)[in.Index]
	case *ssa.Range:
		x := p.get(fr, in.X)
		if s, ok := x.(*Str); ok {
			return &strIter{s: s}
		}
		return p.newMapIter(x.(*MapObj), fr)
	case *ssa.Next:
		return p.next(fr, in)
	case *ssa.SliceToArrayPointer:
		s := p.get(fr, in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		p.bcheck(p.tt.Sle(p.tt.C(64, uint64(n)), s.len), "cannot convert slice to array pointer: length too short")
		if s.obj == nil {
			if n == 0 {
				return Ptr{}
			}
			return Ptr{}
		}
		return Ptr{obj: s.obj, off: s.off}
	case *ssa.Phi:
		panic("phi in body")
	}
	p.unsupported("instruction %T", in)
	return nil
}

func (p *Path) term64(fr *frame, v ssa.Value) *Term {
	t := p.get(fr, v).(*Term)
	_, signed, _, _ := basicInfo(v.Type())
	return p.ext(t, signed, 64)
}

func (p *Path) ext(t *Term, signed bool, w int) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return p.tt.Extract(t, w-1, 0)
	}
	if signed {
		return p.tt.Sext(t, w)
	}
	return p.tt.Zext(t, w)
}

// --- operators

func (p *Path) unop(fr *frame, in *ssa.UnOp) Value {
	x := p.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		t := in.Type()
		return p.load(x.(Ptr), t)
	case token.NOT:
		return p.tt.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if _, _, f, _ := basicInfo(in.X.Type()); f {
			return p.tt.BXor(t, p.tt.C(t.w, uint64(1)<<uint(t.w-1)))
		}
		return p.tt.Neg(t)
	case token.XOR:
		return p.tt.BNot(x.(*Term))
	case token.ARROW:
		return p.chanRecv(x.(*ChanObj), in.CommaOk, in.Type(), in.X.Type())
	}
	p.unsupported("unary %v", in.Op)
	return nil
}

func (p *Path) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return p.equal(xt, x, y)
	case token.NEQ:
		return p.tt.Not(p.equal(xt, x, y))
	}
	tt := p.tt
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return p.concat(a, b)
		case token.LSS:
			return p.strLess(a, b)
		case token.GTR:
			return p.strLess(b, a)
		case token.LEQ:
			return tt.Not(p.strLess(b, a))
		case token.GEQ:
			return tt.Not(p.strLess(a, b))
		}
	case *Term:
		b := y.(*Term)
		w, signed, isF, _ := basicInfo(xt)
		if isF {
			switch op {
			case token.ADD:
				return tt.FArith(OpFAdd, a, b)
			case token.SUB:
				return tt.FArith(OpFSub, a, b)
			case token.MUL:
				return tt.FArith(OpFMul, a, b)
			case token.QUO:
				return tt.FArith(OpFDiv, a, b)
			case token.LSS:
				return tt.FCmp(OpFLt, a, b)
			case token.LEQ:
				return tt.FCmp(OpFLe, a, b)
			case token.GTR:
				return tt.FCmp(OpFLt, b, a)
			case token.GEQ:
				return tt.FCmp(OpFLe, b, a)
			}
			break
		}
		if w < 0 {
			break
		}
		switch op {
		case token.ADD:
			return tt.Add(a, b)
		case token.SUB:
			return tt.Sub(a, b)
		case token.MUL:
			return tt.Mul(a, b)
		case token.QUO, token.REM:
			p.divCheck(b)
			if op == token.QUO {
				if signed {
					return tt.Sdiv(a, b)
				}
				return tt.Udiv(a, b)
			}
			if signed {
				return tt.Srem(a, b)
			}
			return tt.Urem(a, b)
		case token.AND:
			if a.w == 0 {
				return tt.And(a, b)
			}
			return tt.BAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return tt.Or(a, b)
			}
			return tt.BOr(a, b)
		case token.XOR:
			if a.w == 0 {
				return tt.Not(tt.Eq(a, b))
			}
			return tt.BXor(a, b)
		case token.AND_NOT:
			return tt.BAnd(a, tt.BNot(b))
		case token.SHL, token.SHR:
			_, ys, _, _ := basicInfo(yt)
			if ys && !b.isConst() {
				if !p.Branch(tt.Sle(tt.C(b.w, 0), b)) {
					p.rtPanic("negative shift amount")
				}
			}
			// saturate the count to the width of a
			var s *Term
			switch {
			case b.w == a.w:
				s = b
			case b.w < a.w:
				s = tt.Zext(b, a.w)
			default:
				s = tt.Ite(tt.Ult(b, tt.C(b.w, uint64(a.w))), tt.Extract(b, a.w-1, 0), tt.C(a.w, uint64(a.w)))
			}
			if op == token.SHL {
				return tt.Shl(a, s)
			}
			if signed {
				return tt.Ashr(a, s)
			}
			return tt.Lshr(a, s)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.LEQ {
				a, b = b, a
			}
			var r *Term
			if signed {
				r = tt.Slt(a, b)
			} else {
				r = tt.Ult(a, b)
			}
			if op == token.LEQ || op == token.GEQ {
				r = tt.Not(r)
			}
			return r
		}
	}
	p.unsupported("binary %v on %v", op, xt)
	return nil
}

func (p *Path) divCheck(b *Term) {
	z := p.tt.Eq(b, p.tt.C(b.w, 0))
	if z.isConst() && z.val == 0 {
		return
	}
	if p.Branch(z) {
		p.rtPanic("integer divide by zero")
	}
}

// equal builds the Term of x == y for operands of type t.
func (p *Path) equal(t types.Type, x, y Value) *Term {
	tt := p.tt
	switch a := x.(type) {
	case *Term:
		if _, _, f, _ := basicInfo(t); f {
			return tt.FCmp(OpFEq, a, y.(*Term))
		}
		return tt.Eq(a, y.(*Term))
	case *Str:
		return p.strEq(a, y.(*Str))
	case Ptr:
		b := y.(Ptr)
		a, b = p.concPtr(a), p.concPtr(b)
		return tt.B(a.obj == b.obj && (a.obj == nil || a.off == b.off))
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return tt.False
		}
		if a.t == nil || b.t == nil {
			return tt.B(a.t == nil && b.t == nil)
		}
		if p.canon(a.t) != p.canon(b.t) {
			return tt.False
		}
		if ra, ok := a.v.(*RType); ok {
			return tt.B(ra == b.v.(*RType))
		}
		if !types.Comparable(a.t) {
			p.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return p.equal(a.t, a.v, b.v)
	case Slice:
		b := y.(Slice)
		return tt.B(a.obj == nil && b.obj == nil)
	case *MapObj:
		return tt.B(a == y.(*MapObj))
	case *Closure:
		return tt.B(a == nil && y.(*Closure) == nil)
	case *ChanObj:
		return tt.B(a == y.(*ChanObj))
	case *RType:
		return tt.B(x == y)
	case Agg:
		b := y.(Agg)
		return p.aggEq(t, a, b)
	}
	p.unsupported("comparison of %T", x)
	return nil
}

func (p *Path) aggEq(t types.Type, a, b Agg) *Term {
	r := p.tt.True
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			o, n := fieldOff(u, i), nslots(f.Type())
			r = p.tt.And(r, p.slotsEq(f.Type(), a[o:o+n], b[o:o+n]))
		}
	case *types.Array:
		n := nslots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = p.tt.And(r, p.slotsEq(u.Elem(), a[i*n:i*n+n], b[i*n:i*n+n]))
		}
	}
	return r
}

func (p *Path) slotsEq(t types.Type, a, b Agg) *Term {
	if isAgg(t) {
		return p.aggEq(t, a, b)
	}
	return p.equal(t, a[0], b[0])
}

// --- strings

func (p *Path) strLen(s *Str) *Term {
	if s.n != nil {
		return s.n
	}
	return p.tt.C(64, uint64(s.clen()))
}

// bytesOf gives the bytes of s as terms, forcing a concrete length.
func (p *Path) bytesOf(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	if s.n != nil {
		n := int(p.Concretize(s.n, "string length"))
		out := make([]*Term, n)
		for i := range out {
			out[i] = p.lazyAt(s, i)
		}
		return out
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = p.tt.C(8, uint64(s.s[i]))
	}
	return out
}

func (p *Path) lazyAt(s *Str, i int) *Term {
	if s.ob != nil {
		return p.get1(s.ob, s.off+i).(*Term)
	}
	return s.lz.at(p, s.off+i)
}

func mkStr(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

// tryStr returns the Go string when s is concrete.
func (p *Path) tryStr(s *Str) (string, bool) {
	if s.b != nil || s.n != nil {
		if s.n != nil && s.n.isConst() {
			return p.tryStr(mkStr(p.bytesOf(s)))
		}
		return "", false
	}
	return s.s, true
}

func (p *Path) concStr(s *Str, why string) string {
	if r, ok := p.tryStr(s); ok {
		return r
	}
	bs := p.bytesOf(s)
	out := make([]byte, len(bs))
	for i, t := range bs {
		out[i] = byte(p.Concretize(t, why))
	}
	return string(out)
}

func (p *Path) concat(a, b *Str) *Str {
	if a.n == nil && a.clen() == 0 {
		return b
	}
	if b.n == nil && b.clen() == 0 {
		return a
	}
	if a.b == nil && b.b == nil && a.n == nil && b.n == nil {
		return &Str{s: a.s + b.s}
	}
	x, y := p.bytesOf(a), p.bytesOf(b)
	out := make([]*Term, 0, len(x)+len(y))
	return mkStr(append(append(out, x...), y...))
}

func (p *Path) strEq(a, b *Str) *Term {
	if a == b {
		return p.tt.True
	}
	if a.b == nil && b.b == nil && a.n == nil && b.n == nil {
		return p.tt.B(a.s == b.s)
	}
	if a.n != nil || b.n != nil {
		if a.n != nil && b.n != nil && a.lz == b.lz && a.ob == b.ob && a.off == b.off {
			return p.tt.Eq(a.n, b.n)
		}
		if !p.Branch(p.tt.Eq(p.strLen(a), p.strLen(b))) {
			return p.tt.False
		}
	} else if a.clen() != b.clen() {
		return p.tt.False
	}
	return p.bytesEq(p.bytesOf(a), p.bytesOf(b))
}

func (p *Path) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return p.tt.False
	}
	r := p.tt.True
	for i := range x {
		r = p.tt.And(r, p.tt.Eq(x[i], y[i]))
	}
	return r
}

func (p *Path) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil && a.n == nil && b.n == nil {
		return p.tt.B(a.s < b.s)
	}
	return p.bytesLess(p.bytesOf(a), p.bytesOf(b))
}

func (p *Path) bytesLess(x, y []*Term) *Term {
	tt := p.tt
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := tt.B(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = tt.Or(tt.Ult(x[i], y[i]), tt.And(tt.Eq(x[i], y[i]), r))
	}
	return r
}

// --- indexing and slicing

func (p *Path) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := p.get(fr, in.X)
	idx := p.term64(fr, in.Index)
	_, signed, _, _ := basicInfo(in.Index.Type())
	_ = signed
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.(Ptr)
		if a.obj == nil {
			p.nilDeref()
		}
		n := int(at.Len())
		es := nslots(at.Elem())
		p.idxCheck(idx, p.tt.C(64, uint64(n)))
		return p.elemAddr(a, idx, n, es)
	case *types.Slice:
		s := x.(Slice)
		p.idxCheck(idx, s.len)
		n := -1
		if s.len.isConst() {
			n = int(s.len.val)
		} else if s.obj != nil && s.obj.zero == nil && s.obj.lz == nil {
			n = (len(s.obj.slots) - s.off) / max(s.es, 1)
		}
		return p.elemAddr(Ptr{obj: s.obj, off: s.off}, idx, n, s.es)
	}
	p.unsupported("IndexAddr on %v", in.X.Type())
	return nil
}

func (p *Path) elemAddr(a Ptr, idx *Term, n, es int) Ptr {
	if idx.isConst() {
		if a.idx != nil {
			a.off += int(idx.val) * es
			return a
		}
		return Ptr{obj: a.obj, off: a.off + int(idx.val)*es}
	}
	if a.idx != nil {
		a = p.concPtr(a)
	}
	if n < 0 || n > 4096 {
		k := p.Concretize(idx, "index")
		return Ptr{obj: a.obj, off: a.off + int(k)*es}
	}
	return Ptr{obj: a.obj, off: a.off, idx: idx, n: n, stride: es}
}

func (p *Path) idxCheck(idx, n *Term) {
	ok := p.tt.Ult(idx, n)
	if ok.isConst() && ok.val == 1 {
		return
	}
	if !p.Branch(ok) {
		p.rtPanic("index out of range")
	}
}

func (p *Path) indexVal(fr *frame, xt types.Type, x Value, idx *Term, it types.Type) Value {
	_, signed, _, _ := basicInfo(it)
	idx = p.ext(idx, signed, 64)
	switch v := x.(type) {
	case *Str:
		p.idxCheck(idx, p.strLen(v))
		if v.n != nil {
			return p.lazyAt(v, int(p.Concretize(idx, "string index")))
		}
		if idx.isConst() {
			if v.b != nil {
				return v.b[idx.val]
			}
			return p.tt.C(8, uint64(v.s[idx.val]))
		}
		return p.selectTerm(idx, p.bytesOf(v))
	case Agg:
		at := xt.Underlying().(*types.Array)
		n := int(at.Len())
		es := nslots(at.Elem())
		p.idxCheck(idx, p.tt.C(64, uint64(n)))
		k := int(p.Concretize(idx, "array index"))
		if isAgg(at.Elem()) {
			return append(Agg{}, v[k*es:k*es+es]...)
		}
		return v[k*es]
	}
	p.unsupported("index of %T", x)
	return nil
}

func (p *Path) sliceOp(fr *frame, in *ssa.Slice) Value {
	tt := p.tt
	x := p.get(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = p.term64(fr, in.Low)
	}
	if in.High != nil {
		hi = p.term64(fr, in.High)
	}
	if in.Max != nil {
		mx = p.term64(fr, in.Max)
	}
	zero := tt.C(64, 0)
	if lo == nil {
		lo = zero
	}
	switch v := x.(type) {
	case *Str:
		n := p.strLen(v)
		if hi == nil {
			hi = n
		} else {
			p.bcheck(tt.Ule(hi, n), "slice bounds out of range")
		}
		p.bcheck(tt.Ule(lo, hi), "slice bounds out of range")
		return p.subStr(v, lo, hi)
	case Slice:
		if hi == nil {
			hi = v.len
		}
		if mx == nil {
			mx = v.cap
			p.bcheck(tt.Ule(hi, v.cap), "slice bounds out of range")
		} else {
			p.bcheck(tt.Ule(mx, v.cap), "slice bounds out of range")
			p.bcheck(tt.Ule(hi, mx), "slice bounds out of range")
		}
		p.bcheck(tt.Ule(lo, hi), "slice bounds out of range")
		if !lo.isConst() {
			lo = tt.C(64, p.Concretize(lo, "slice start"))
		}
		r := Slice{v.obj, v.off + int(lo.val)*v.es, tt.Sub(hi, lo), tt.Sub(mx, lo), v.es}
		return r
	case Ptr:
		if v.obj == nil {
			p.nilDeref()
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := tt.C(64, uint64(at.Len()))
		if mx == nil {
			mx = n
		} else {
			p.bcheck(tt.Ule(mx, n), "slice bounds out of range")
		}
		if hi == nil {
			hi = n
		}
		p.bcheck(tt.Ule(hi, mx), "slice bounds out of range")
		p.bcheck(tt.Ule(lo, hi), "slice bounds out of range")
		v = p.concPtr(v)
		if !lo.isConst() {
			lo = tt.C(64, p.Concretize(lo, "slice start"))
		}
		es := nslots(at.Elem())
		return Slice{v.obj, v.off + int(lo.val)*es, tt.Sub(hi, lo), tt.Sub(mx, lo), es}
	}
	p.unsupported("slice of %T", x)
	return nil
}

func (p *Path) subStr(v *Str, lo, hi *Term) *Str {
	tt := p.tt
	l := int(p.Concretize(lo, "substring start"))
	if v.n != nil {
		if hi.isConst() && hi.val-uint64(l) <= 4096 {
			out := make([]*Term, int(hi.val)-l)
			for i := range out {
				out[i] = p.lazyAt(v, l+i)
			}
			return mkStr(out)
		}
		return &Str{lz: v.lz, ob: v.ob, off: v.off + l, n: tt.Sub(hi, tt.C(64, uint64(l)))}
	}
	h := int(p.Concretize(hi, "substring end"))
	if v.b != nil {
		return mkStr(v.b[l:h])
	}
	return cstr(v.s[l:h])
}

// countAlloc adds to what sym.Allocated returns.
func (p *Path) countAlloc(n *Term) {
	if p.allocd == nil {
		p.allocd = p.tt.C(64, 0)
	}
	p.allocd = p.tt.Add(p.allocd, n)
}

const lazyMax = 1 << 17

func (p *Path) makeSlice(st *types.Slice, n, c *Term, desc string) Value {
	tt := p.tt
	es := nslots(st.Elem())
	esz := uint64(p.prog.sizes.Sizeof(st.Elem()))
	lim := uint64(1) << 47
	if esz > 0 {
		lim /= esz
	}
	p.bcheck(tt.Ult(n, tt.C(64, lim)), "makeslice: len out of range")
	p.bcheck(tt.And(tt.Ule(n, c), tt.Ult(c, tt.C(64, lim))), "makeslice: cap out of range")
	if p.allocMax > 0 && esz > 0 {
		p.Assert(tt.Ule(c, tt.C(64, p.allocMax/esz)), fmt.Sprintf("one allocation of more than %d bytes (in %s)", p.allocMax, desc))
	}
	p.countAlloc(tt.Mul(c, tt.C(64, esz)))
	if c.isConst() && n.isConst() && c.val <= 1<<22 {
		slots := make([]Value, 0, int(c.val)*es)
		if es == 1 {
			z := p.zeroScalarOf(st.Elem())
			for i := 0; i < int(c.val); i++ {
				slots = append(slots, z)
			}
		} else {
			for i := 0; i < int(c.val); i++ {
				slots = p.zeroSlots(st.Elem(), slots)
			}
		}
		return Slice{p.newObj(slots, "slice made in "+desc), 0, n, c, es}
	}
	o := p.newObj(nil, "slice made in "+desc)
	o.zero = p.zeroSlots(st.Elem(), nil)
	o.max = lazyMax
	return Slice{o, 0, n, c, es}
}

func (p *Path) zeroScalarOf(t types.Type) Value {
	if isAgg(t) {
		z := p.zeroSlots(t, nil)
		return z[0]
	}
	return p.zeroScalar(t)
}

func (p *Path) sliceLen(s Slice, why string) int { return int(p.Concretize(s.len, why)) }

// sliceBytes returns the elements of a byte slice with its length made concrete.
func (p *Path) sliceBytes(s Slice) []*Term {
	n := p.sliceLen(s, "slice length")
	out := make([]*Term, n)
	for i := range out {
		out[i] = p.get1(s.obj, s.off+i).(*Term)
	}
	return out
}

func (p *Path) newByteSlice(b []*Term, desc string) Slice {
	slots := make([]Value, len(b))
	for i, t := range b {
		slots[i] = t
	}
	n := p.tt.C(64, uint64(len(b)))
	return Slice{p.newObj(slots, desc), 0, n, n, 1}
}

// --- conversions

func (p *Path) convert(from, to types.Type, x Value) Value {
	tt := p.tt
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			if _, ok := x.(Ptr); ok {
				return x
			}
			if c, ok := x.(*Term); ok && c.isConst() && c.val == 0 {
				return Ptr{}
			}
			p.unsupported("uintptr to unsafe.Pointer")
		}
		w, _, isF, isS := basicInfo(t)
		if isS {
			return p.toString(fu, x)
		}
		xt, ok := x.(*Term)
		if !ok {
			if pt, isP := x.(Ptr); isP && t.Kind() == types.Uintptr {
				if pt.obj == nil {
					return tt.C(64, 0)
				}
				p.unsupported("unsafe.Pointer to uintptr")
			}
			p.unsupported("conversion %v to %v", from, to)
		}
		_, fs, ff, _ := basicInfo(fu)
		_, ts, _, _ := basicInfo(t)
		switch {
		case ff && isF:
			return tt.FToF(xt, w)
		case ff:
			return p.floatToInt(xt, w, ts)
		case isF:
			return tt.FFromInt(xt, fs, w)
		}
		return p.ext(xt, fs, w)
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			el := t.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				if s.n != nil && !s.n.isConst() {
					o := p.newObj(nil, "bytes of string")
					src := s
					if src.lz != nil && src.off == 0 {
						o.lz = src.lz
					} else {
						return p.newByteSlice(p.bytesOf(s), "bytes of string")
					}
					o.max = lazyMax
					return Slice{o, 0, s.n, s.n, 1}
				}
				b := p.bytesOf(s)
				r := p.newByteSlice(b, "bytes of string")
				if len(b) > 32 { // small ones may sit in a 32-byte stack buffer; capacity is unspecified
					r.cap = r.len
				}
				return r
			}
			// []rune
			var rs []Value
			it := &strIter{s: s}
			for {
				ok, _, r := it.step(p)
				if !ok {
					break
				}
				rs = append(rs, r)
			}
			n := tt.C(64, uint64(len(rs)))
			return Slice{p.newObj(rs, "runes of string"), 0, n, n, 1}
		}
		return x
	case *types.Pointer:
		if pt, ok := x.(Ptr); ok {
			return pt
		}
		p.unsupported("conversion %v to %v", from, to)
	case *types.Array:
		if s, ok := x.(Slice); ok { // slice to array
			p.bcheck(tt.Sle(tt.C(64, uint64(t.Len())), s.len), "cannot convert slice to array: length too short")
			return p.load(Ptr{obj: s.obj, off: s.off}, to)
		}
	}
	return x
}

func (p *Path) floatToInt(x *Term, w int, signed bool) *Term {
	tt := p.tt
	fc := func(f float64) *Term { return tt.C(x.w, fbits(f, x.w)) }
	if x.w == 32 {
		x = tt.FToF(x, 64)
	}
	toS64 := func(v *Term) *Term {
		in := tt.And(tt.FCmp(OpFLe, fc(-9223372036854775808.0), v), tt.FCmp(OpFLt, v, fc(9223372036854775808.0)))
		return tt.Ite(in, tt.FToS(v), tt.C(64, 1<<63))
	}
	if w == 64 && !signed {
		big := tt.FCmp(OpFLe, fc(9223372036854775808.0), x)
		return tt.Ite(big, tt.BXor(toS64(tt.FArith(OpFSub, x, fc(9223372036854775808.0))), tt.C(64, 1<<63)), toS64(x))
	}
	if w == 64 || (w == 32 && !signed) {
		return p.ext(toS64(x), true, w)
	}
	in := tt.And(tt.FCmp(OpFLt, fc(-2147483649.0), x), tt.FCmp(OpFLt, x, fc(2147483648.0)))
	r := tt.Ite(in, tt.Extract(tt.FToS(x), 31, 0), tt.C(32, 1<<31))
	return p.ext(r, true, w)
}

func (p *Path) toString(from types.Type, x Value) *Str {
	switch v := x.(type) {
	case *Str:
		return v
	case Slice:
		if st, ok := from.(*types.Slice); ok {
			if b := st.Elem().Underlying().(*types.Basic); b.Kind() != types.Uint8 {
				n := p.sliceLen(v, "rune slice")
				r := emptyStr
				for i := 0; i < n; i++ {
					r = p.concat(r, p.runeStr(p.get1(v.obj, v.off+i).(*Term)))
				}
				return r
			}
		}
		if v.obj == nil {
			return emptyStr
		}
		if !v.len.isConst() && v.obj.lz != nil {
			return &Str{lz: v.obj.lz, off: v.off, n: v.len}
		}
		return mkStr(p.sliceBytes(v))
	case *Term:
		return p.runeStr(p.ext(v, true, 32))
	}
	p.unsupported("string(%T)", x)
	return nil
}

func (p *Path) runeStr(r *Term) *Str {
	if r.isConst() {
		return cstr(string(rune(int32(sx(r.val, r.w)))))
	}
	fn := p.prog.ssa.ImportedPackage("unicode/utf8").Func("AppendRune")
	z := p.tt.C(64, 0)
	s := p.callFn(fn, []Value{Slice{nil, 0, z, z, 1}, p.ext(r, true, 32)}, nil).(Slice)
	return mkStr(p.sliceBytes(s))
}

// --- type assertions

func (p *Path) typeAssert(x Iface, in *ssa.TypeAssert) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			ok = p.implements(x.t, it)
		}
		if ok {
			v = x
		} else {
			v = Iface{}
		}
	} else {
		ok = x.t != nil && p.canon(x.t) == p.canon(in.AssertedType)
		if ok {
			v = x.v
		} else {
			v = p.zeroVal(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, p.tt.B(ok)}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		msg := fmt.Sprintf("interface conversion: %s is not %s", have, in.AssertedType)
		panic(goPanic{p.plainErr(msg), msg})
	}
	return v
}

// --- maps

func (p *Path) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if s, ok := k.(*Str); ok && s.b == nil && s.n == nil {
		if i, ok := m.idx[s.s]; ok {
			return i
		}
	}
	for i, x := range m.keys {
		if x == nil {
			continue
		}
		e := p.keyEq(x, k)
		if e.isConst() {
			if e.val == 1 {
				return i
			}
			continue
		}
		if p.Branch(e) {
			return i
		}
	}
	return -1
}

func (p *Path) keyEq(x, k Value) *Term {
	switch a := x.(type) {
	case *Term:
		return p.tt.Eq(a, k.(*Term))
	case *Str:
		return p.strEq(a, k.(*Str))
	case Iface:
		return p.equal(nil, a, k)
	case Agg:
		b := k.(Agg)
		r := p.tt.True
		for i := range a {
			r = p.tt.And(r, p.keyEq(a[i], b[i]))
		}
		return r
	}
	return p.equal(nil, x, k)
}

func (p *Path) mapGet(m *MapObj, k Value) (Value, bool) {
	if iv, ok := k.(Iface); ok && iv.t != nil && !types.Comparable(iv.t) {
		if _, r := iv.v.(*RType); !r {
			p.rtPanic("hash of unhashable type " + iv.t.String())
		}
	}
	i := p.mapFind(m, k)
	if m != nil && p.regionStart > 0 && m.seq < p.regionStart && p.lockDepth == 0 && p.rlocks == 0 && !p.atomicOp && p.initDepth == 0 {
		p.plainReads[memLoc{nil, m, 0}] = true
	}
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (p *Path) mapTouch(m *MapObj) {
	if p.initDepth > 0 {
		return
	}
	if m.epoch == 0 {
		ks, vs, ix := append([]Value{}, m.keys...), append([]Value{}, m.vals...), map[string]int{}
		for k, v := range m.idx {
			ix[k] = v
		}
		p.undo = append(p.undo, func() { m.keys, m.vals, m.idx = ks, vs, ix })
	}
	if p.regionStart > 0 && m.seq < p.regionStart {
		if p.lockDepth == 0 && !p.atomicOp {
			p.frozenWrite(&Obj{desc: "map"})
		}
		if p.onceDepth == 0 {
			p.lockedWrites[memLoc{nil, m, 0}] = true
		}
	}
}

func (p *Path) mapSet(m *MapObj, k, v Value) {
	if iv, ok := k.(Iface); ok && iv.t != nil && !types.Comparable(iv.t) {
		p.rtPanic("hash of unhashable type " + iv.t.String())
	}
	i := p.mapFind(m, k)
	p.mapTouch(m)
	if m.seq < p.regionStart {
		p.publish(k)
		p.publish(v)
	}
	if i >= 0 {
		m.vals[i] = v
		return
	}
	if s, ok := k.(*Str); ok && s.b == nil && s.n == nil {
		if m.idx == nil {
			m.idx = map[string]int{}
		}
		m.idx[s.s] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (p *Path) mapDelete(m *MapObj, k Value) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	p.mapTouch(m)
	// keep positions stable for running iterators: tombstone
	if s, ok := m.keys[i].(*Str); ok {
		delete(m.idx, s.s)
	}
	m.keys[i] = nil
	m.vals[i] = nil
}

func (m *MapObj) length() int {
	n := 0
	for _, k := range m.keys {
		if k != nil {
			n++
		}
	}
	return n
}

type mapIter struct {
	m     *MapObj
	order []int
	i     int
}
type strIter struct {
	s *Str
	i int
}

// newMapIter fixes an iteration order. Go leaves it unspecified: for code of
// the package under test every order of up to four entries is explored.
func (p *Path) newMapIter(m *MapObj, fr *frame) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	var rest []int
	for i, k := range m.keys {
		if k != nil {
			rest = append(rest, i)
		}
	}
	if fr.fn.Pkg == p.prog.target && p.initDepth == 0 && p.mapOrders {
		if len(rest) > 4 {
			p.ex.note("map iteration over more than 4 entries explored in insertion order only")
		} else {
			for len(rest) > 0 {
				k := p.ChooseN(len(rest))
				it.order = append(it.order, rest[k])
				rest = append(append([]int{}, rest[:k]...), rest[k+1:]...)
			}
			return it
		}
	}
	it.order = rest
	return it
}

func (it *strIter) step(p *Path) (bool, *Term, *Term) {
	tt := p.tt
	s := it.s
	if s.n != nil {
		s = mkStr(p.bytesOf(s))
		it.s = s
	}
	if it.i >= s.clen() {
		return false, nil, nil
	}
	at := it.i
	var b0 *Term
	if s.b != nil {
		b0 = s.b[at]
	} else {
		b0 = tt.C(8, uint64(s.s[at]))
	}
	if p.Branch(tt.Ult(b0, tt.C(8, 0x80))) {
		it.i++
		return true, tt.C(64, uint64(at)), tt.Zext(b0, 32)
	}
	fn := p.prog.ssa.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
	r := p.callFn(fn, []Value{p.subStr(s, tt.C(64, uint64(at)), tt.C(64, uint64(s.clen())))}, nil).(Tuple)
	n := int(p.Concretize(r[1].(*Term), "rune width"))
	it.i += n
	return true, tt.C(64, uint64(at)), r[0].(*Term)
}

func (p *Path) next(fr *frame, in *ssa.Next) Value {
	tt := p.tt
	switch it := p.get(fr, in.Iter).(type) {
	case *strIter:
		ok, k, r := it.step(p)
		if !ok {
			return Tuple{tt.False, tt.C(64, 0), tt.C(32, 0)}
		}
		return Tuple{tt.True, k, r}
	case *mapIter:
		for it.i < len(it.order) {
			j := it.order[it.i]
			it.i++
			if j < len(it.m.keys) && it.m.keys[j] != nil {
				return Tuple{tt.True, it.m.keys[j], it.m.vals[j]}
			}
		}
		tu := in.Type().(*types.Tuple)
		var k, v Value
		if b, ok := tu.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			k = p.zeroVal(tu.At(1).Type())
		}
		if b, ok := tu.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			v = p.zeroVal(tu.At(2).Type())
		}
		return Tuple{tt.False, k, v}
	}
	panic("next")
}

// --- builtins

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	tt := p.tt
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return p.strLen(v)
		case Slice:
			return v.len
		case *MapObj:
			if v == nil {
				return tt.C(64, 0)
			}
			return tt.C(64, uint64(v.length()))
		case *ChanObj:
			if v == nil {
				return tt.C(64, 0)
			}
			return tt.C(64, uint64(len(v.buf)))
		case Ptr:
			return tt.C(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case Agg:
			return tt.C(64, uint64(c.Args[0].Type().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.cap
		case *ChanObj:
			return tt.C(64, uint64(v.cap))
		case Ptr:
			return tt.C(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case Agg:
			return tt.C(64, uint64(c.Args[0].Type().Underlying().(*types.Array).Len()))
		}
	case "append":
		return p.appendOp(fr, args, c)
	case "copy":
		return p.copyOp(args)
	case "delete":
		p.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				p.mapTouch(v)
				v.keys, v.vals, v.idx = nil, nil, nil
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := p.zeroSlots(et, nil)
			n := p.sliceLen(v, "clear")
			for i := 0; i < n*v.es; i++ {
				p.set1(v.obj, v.off+i, z[i%v.es])
			}
		}
		return nil
	case "close":
		ch := args[0].(*ChanObj)
		if ch == nil || ch.closed {
			panic(goPanic{p.plainErr("close of closed channel"), "close of nil or closed channel"})
		}
		ch.closed = true
		return nil
	case "panic":
		panic(goPanic{args[0], p.describePanic(args[0])})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.panicking != nil {
			v := fr.deferOf.panicking.v
			fr.deferOf.panicking = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			t := c.Args[0].Type()
			if _, _, f, _ := basicInfo(t); f {
				p.unsupported("min/max on floats")
			}
			lt := p.binop(token.LSS, t, t, y, r).(*Term)
			if b.Name() == "max" {
				lt = p.binop(token.GTR, t, t, y, r).(*Term)
			}
			if _, ok := r.(*Term); ok {
				r = tt.Ite(lt, y.(*Term), r.(*Term))
			} else if p.Branch(lt) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(Ptr); ok && q.obj == nil {
			p.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		q := args[0].(Ptr)
		n := p.ext(args[1].(*Term), true, 64)
		if n.isConst() && n.val == 0 {
			return emptyStr
		}
		if q.obj == nil {
			p.nilDeref()
		}
		// aliases the bytes
		return &Str{ob: q.obj, off: q.off, n: n}
	case "StringData":
		s := args[0].(*Str)
		if s.ob != nil {
			return Ptr{obj: s.ob, off: s.off}
		}
		if s.n == nil && s.clen() == 0 {
			return Ptr{}
		}
		b := p.newByteSlice(p.bytesOf(s), "string data")
		return Ptr{obj: b.obj}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{obj: s.obj, off: s.off}
	case "Slice":
		q := args[0].(Ptr)
		n := p.ext(args[1].(*Term), true, 64)
		es := nslots(c.Args[0].Type().Underlying().(*types.Pointer).Elem())
		return Slice{q.obj, q.off, n, n, es}
	}
	p.unsupported("builtin %s", b.Name())
	return nil
}

func (p *Path) appendOp(fr *frame, args []Value, c *ssa.CallCommon) Value {
	tt := p.tt
	s := args[0].(Slice)
	var et types.Type
	if c != nil {
		et = c.Signature().Params().At(0).Type().Underlying().(*types.Slice).Elem()
	}
	var elems []Value
	es := s.es
	if es == 0 {
		es = nslots(et)
	}
	if len(args) > 1 {
		switch y := args[1].(type) {
		case Slice:
			if y.len.isConst() && y.len.val == 0 {
				return s
			}
			// appending a symbolic number of lazily known bytes to a short prefix
			if !y.len.isConst() && ub(y.len) > 4096 {
				if r, ok := p.appendLazy(s, y); ok {
					return r
				}
			}
			n := p.sliceLen(y, "append length")
			elems = make([]Value, 0, n*es)
			for i := 0; i < n*es; i++ {
				elems = append(elems, p.get1(y.obj, y.off+i))
			}
		case *Str:
			for _, t := range p.bytesOf(y) {
				elems = append(elems, t)
			}
		}
	}
	n := p.sliceLen(s, "append base length")
	return p.appendVals(s, n, elems, es, et, tt)
}

func (p *Path) appendLazy(s, y Slice) (Value, bool) { return nil, false }

func (p *Path) appendVals(s Slice, n int, elems []Value, es int, et types.Type, tt *TermTab) Value {
	k := 0
	if es > 0 {
		k = len(elems) / es
	}
	if k == 0 {
		return s
	}
	newLen := n + k
	fits := tt.Sle(tt.C(64, uint64(newLen)), s.cap)
	if s.obj != nil && p.Branch(fits) {
		for i, e := range elems {
			p.set1(s.obj, s.off+n*es+i, e)
		}
		return Slice{s.obj, s.off, tt.C(64, uint64(newLen)), s.cap, es}
	}
	esz := int64(8)
	noscan := false
	if et != nil {
		esz = p.prog.sizes.Sizeof(et)
		noscan = !hasPointers(et)
	} else {
		esz = 1
		noscan = true
	}
	oldCap := 0
	if s.obj != nil {
		oldCap = int(p.Concretize(s.cap, "capacity"))
	}
	nc := growCap(newLen, oldCap, int(esz), noscan)
	if p.allocMax > 0 && uint64(nc)*uint64(esz) > p.allocMax {
		p.Assert(tt.False, fmt.Sprintf("one allocation of more than %d bytes (append)", p.allocMax))
	}
	p.countAlloc(p.tt.C(64, uint64(nc)*uint64(esz)))
	slots := make([]Value, 0, nc*es)
	for i := 0; i < n*es; i++ {
		slots = append(slots, p.get1(s.obj, s.off+i))
	}
	slots = append(slots, elems...)
	if rest := nc*es - len(slots); rest > 0 {
		var z []Value
		if et != nil {
			z = p.zeroSlots(et, nil)
		} else {
			z = []Value{tt.C(8, 0)}
		}
		for len(slots) < nc*es {
			slots = append(slots, z...)
		}
	}
	return Slice{p.newObj(slots, "slice grown by append"), 0, tt.C(64, uint64(newLen)), tt.C(64, uint64(nc)), es}
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupSize(size int, noscan bool) int {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 || (noscan && req <= 32768-8) {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) &^ 8191
}

func growCap(newLen, oldCap, esz int, noscan bool) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundupSize(nc*esz, noscan) / esz
}

func (p *Path) copyOp(args []Value) Value {
	tt := p.tt
	d := args[0].(Slice)
	var srcLen *Term
	var s Slice
	var str *Str
	switch y := args[1].(type) {
	case Slice:
		s, srcLen = y, y.len
	case *Str:
		str, srcLen = y, p.strLen(y)
	}
	n := tt.Ite(tt.Slt(srcLen, d.len), srcLen, d.len)
	if d.len == srcLen {
		n = d.len
	}
	if !n.isConst() && d.obj != nil && str == nil && s.obj != nil && s.obj.lz != nil && d.off == 0 && s.off == 0 && d.obj.zero != nil && len(d.obj.slots) == 0 && d.len == srcLen {
		// whole copy of a lazily known byte sequence into a fresh buffer
		d.obj.lz = s.obj.lz
		return n
	}
	if !n.isConst() && d.obj != nil && str != nil && str.lz != nil && d.off == 0 && str.off == 0 && d.obj.zero != nil && len(d.obj.slots) == 0 && d.len == srcLen {
		d.obj.lz = str.lz
		return n
	}
	k := int(p.Concretize(n, "copy length"))
	if k == 0 {
		return tt.C(64, 0)
	}
	es := d.es
	vals := make([]Value, k*es)
	if str != nil {
		if str.n != nil {
			for i := range vals {
				vals[i] = p.lazyAt(str, i)
			}
		} else {
			for i, t := range p.bytesOf(str)[:k] {
				vals[i] = t
			}
		}
	} else {
		for i := range vals {
			vals[i] = p.get1(s.obj, s.off+i)
		}
	}
	for i, v := range vals {
		p.set1(d.obj, d.off+i, v)
	}
	return tt.C(64, uint64(k))
}

func (pr *Program) noteFn(fn *ssa.Function) {
	pr.usedMu.Lock()
	pr.used[fn.String()]++
	pr.usedMu.Unlock()
}

func bigOf(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
