package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	v       uint64
	implied bool
}

// task is one unexplored branch of the execution tree.
type task struct {
	prefix []dec
	model  Model
	last   *Term // nil: root
}

type nondet struct {
	name  string
	kind  string // bool u8 u16 u32 u64 bytes choose lazy
	terms []*Term
	n     *Term // length for lazy
	lz    *Lazy
	conc  uint64
}

type observation struct {
	label string
	terms []*Term
	kind  string
}

// Interp is the per-worker interpreter state shared by all its paths.
type Interp struct {
	prog      *Program
	tt        *TermTab
	solver    *Solver
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]int
	consts    map[*ssa.Const]Value
	fnVals    map[*ssa.Function]*Closure
	intr      map[*ssa.Function]intrinsic
	methods   map[methKey]*ssa.Function
	implC     map[implKey]bool
	seen      map[*ssa.Function]int
	objID     int
	noteSet   map[string]int
	rtypes    map[types.Type]*RType
	initDepth int
	onceDone  map[Ptr]bool
	canonL    map[types.Type]types.Type
}

type methKey struct {
	t types.Type
	m string
}
type implKey struct {
	t types.Type
	i *types.Interface
}

// Path is one execution of a harness.
type Path struct {
	*Interp
	ex           *Explorer
	prefix       []dec
	decs         []dec
	pc           []*Term
	known        map[*Term]bool
	model        Model // satisfies pc
	modelOK      bool
	nondets      []nondet
	obs          []observation
	undo         []func()
	steps        int
	maxStep      int
	depth        int
	varN         int
	seqN         int
	regionStart  int // > 0: stores to objects with seq < regionStart are violations
	lockDepth    int
	atomicOp     bool
	errText      bool // formatting the text of an error
	floatText    map[*Term][2]*Term
	digits       map[*Term][]*Term
	mapOrders    bool
	pools        map[Ptr][]Value
	conds        map[Ptr]*[2]int
	clock        uint64
	locked       map[Ptr]int
	once         map[Ptr]bool
	rnd          int
	boxes        []boxRec
	shared       []sharedRec
	rlocks       int
	onceDepth    int
	plainReads   map[memLoc]bool // in a read-only region, without a lock
	lockedWrites map[memLoc]bool
	allocd       *Term // bytes in slices allocated so far
	maxFrames    int
	allocMax     uint64 // 0: none
	curFn        *ssa.Function
	frame        *frame
	covers       []string
	asserts      int
	syncMaps     map[Ptr]*MapObj
	trace        []string
	coros        []*coro // 0 is the harness itself
	cur          int
	killing      bool
	fault        interface{} // ended the path in another goroutine
	waitGroups   map[Ptr]*int
}

func (p *Path) abort(k abortKind, format string, a ...interface{}) {
	panic(pathAbort{k, fmt.Sprintf(format, a...)})
}

func (p *Path) unsupported(format string, a ...interface{}) {
	where := ""
	if p.curFn != nil {
		where = " in " + p.curFn.String()
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf(format, a...) + where})
}

func (p *Path) addPC(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			p.abort(abPruned, "false assumption")
		}
		return
	}
	if p.known[c] {
		return
	}
	p.known[c] = true
	if c.op == OpAnd {
		p.addPC(c.a[0])
		p.addPC(c.a[1])
		return
	}
	p.pc = append(p.pc, c)
	if p.modelOK && p.tt.Eval(c, p.model) != 1 {
		p.modelOK = false
	}
}

// ensureModel makes p.model a model of p.pc.
func (p *Path) ensureModel() {
	if p.modelOK {
		return
	}
	ok := true
	for _, c := range p.pc {
		if p.tt.Eval(c, p.model) != 1 {
			ok = false
			break
		}
	}
	if ok {
		p.modelOK = true
		return
	}
	r, m := p.solver.Check(p.pc)
	switch r {
	case Sat:
		p.setModel(m)
		if !p.modelOK {
			p.abort(abUnknown, "evaluator and solver disagree on a model")
		}
	case Unsat:
		p.abort(abPruned, "path condition unsatisfiable")
	default:
		p.abort(abUnknown, "solver: unknown on path condition")
	}
}

func (p *Path) setModel(m Model) {
	// keep values of variables the solver was not asked about
	nm := make(Model, len(p.model)+len(m))
	for k, v := range p.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	p.model = nm
	p.modelOK = true
	for _, c := range p.pc {
		if p.tt.Eval(c, p.model) != 1 {
			p.modelOK = false
			break
		}
	}
}

func mergeModel(a, b Model) Model {
	nm := make(Model, len(a)+len(b))
	for k, v := range a {
		nm[k] = v
	}
	for k, v := range b {
		nm[k] = v
	}
	return nm
}

func (p *Path) inPrefix() bool { return len(p.decs) < len(p.prefix) }

// Branch decides a boolean, forking the path when both sides are feasible.
func (p *Path) Branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if p.known[c] {
		return true
	}
	nc := p.tt.Not(c)
	if p.known[nc] {
		return false
	}
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		t := c
		if d.v == 0 {
			t = nc
		}
		if d.implied {
			p.known[t] = true
		} else {
			p.addPC(t)
		}
		return d.v == 1
	}
	p.checkTime()
	p.ensureModel()
	v := p.tt.Eval(c, p.model) == 1
	me, other := c, nc
	if !v {
		me, other = nc, c
	}
	r, m := p.solver.Check(p.pc, other)
	switch r {
	case Unsat:
		p.known[me] = true
		p.decs = append(p.decs, dec{b2u(v), true})
		return v
	case Sat:
		p.fork(dec{b2u(!v), false}, mergeModel(p.model, m), other)
	default:
		p.ex.noteUnknown(p, "branch side undecided: "+other.str(3))
	}
	p.decs = append(p.decs, dec{b2u(v), false})
	p.addPC(me)
	return v
}

func (p *Path) fork(d dec, m Model, last *Term) {
	np := make([]dec, len(p.decs)+1)
	copy(np, p.decs)
	np[len(p.decs)] = d
	p.ex.push(p.ex.workerOf(p), task{prefix: np, model: m, last: last})
}

// Feasible reports whether c can hold here, without forking.
func (p *Path) Feasible(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	p.ensureModel()
	if p.tt.Eval(c, p.model) == 1 {
		return true
	}
	r, _ := p.solver.Check(p.pc, c)
	return r != Unsat
}

const concretizeLimit = 300

// Concretize forks over every feasible value of t.
func (p *Path) Concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.w == 0 {
		return b2u(p.Branch(t))
	}
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		c := p.tt.Eq(t, p.tt.C(t.w, d.v))
		if d.implied {
			p.known[c] = true
		} else {
			p.addPC(c)
		}
		return d.v
	}
	p.checkTime()
	p.ensureModel()
	v0 := p.tt.Eval(t, p.model)
	excl := []*Term{p.tt.Not(p.tt.Eq(t, p.tt.C(t.w, v0)))}
	type alt struct {
		v uint64
		m Model
	}
	var alts []alt
	for {
		r, m := p.solver.Check(p.pc, excl...)
		if r == Unsat {
			break
		}
		if r == Unknown {
			p.ex.noteUnknown(p, "value enumeration undecided: "+why)
			break
		}
		mm := mergeModel(p.model, m)
		v := p.tt.Eval(t, mm)
		alts = append(alts, alt{v, mm})
		excl = append(excl, p.tt.Not(p.tt.Eq(t, p.tt.C(t.w, v))))
		if len(alts) > concretizeLimit {
			p.abort(abUnsupported, "more than %d feasible values for %s (%s)", concretizeLimit, t.str(4), why)
		}
	}
	for i := len(alts) - 1; i >= 0; i-- {
		p.fork(dec{alts[i].v, false}, alts[i].m, nil)
	}
	p.decs = append(p.decs, dec{v0, len(alts) == 0})
	c := p.tt.Eq(t, p.tt.C(t.w, v0))
	if len(alts) == 0 {
		p.known[c] = true
	} else {
		p.addPC(c)
	}
	return v0
}

// ChooseN forks over 0..n-1 without consulting the solver.
func (p *Path) ChooseN(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(dec{uint64(i), false}, p.model, nil)
	}
	p.decs = append(p.decs, dec{0, false})
	return 0
}

func (p *Path) Assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			p.abort(abPruned, "assume")
		}
		return
	}
	p.addPC(c)
	if !p.inPrefix() {
		p.ensureModel()
	}
}

// Assert discharges c on this path or reports a violation.
func (p *Path) Assert(c *Term, msg string) {
	p.asserts++
	if c.isConst() {
		if c.val == 1 {
			if !p.inPrefix() {
				p.ex.countAssert(msg, true)
			}
			return
		}
		if p.inPrefix() {
			// reached before in the parent path, which ended here
			p.abort(abPruned, "after violated assertion")
		}
		p.ensureModel()
		p.violate(msg, p.model)
	}
	if p.inPrefix() {
		if !p.known[c] {
			p.addPC(c)
		}
		return
	}
	if p.known[c] {
		p.ex.countAssert(msg, true)
		return
	}
	p.checkTime()
	nc := p.tt.Not(c)
	p.ensureModel()
	if p.tt.Eval(c, p.model) == 0 {
		p.violate(msg, p.model)
	}
	r, m := p.solver.Check(p.pc, nc)
	switch r {
	case Unsat:
		p.ex.countAssert(msg, false)
		p.known[c] = true
	case Sat:
		mm := mergeModel(p.model, m)
		p.violate(msg, mm)
	default:
		p.ex.noteUnknown(p, "assertion undecided: "+msg)
		p.addPC(c)
	}
}

func (p *Path) violate(msg string, m Model) {
	p.ex.report(p, msg, m)
	p.abort(abViolation, "%s", msg)
}

func (p *Path) checkTime() {
	if p.ex.expired() {
		p.abort(abUnknown, "time budget")
	}
}

// --- explorer

type worker struct {
	id    int
	ip    *Interp
	local []task
	mu    sync.Mutex
	cur   *Path
}

type Violation struct {
	Harness   string
	Msg       string
	Values    []ReplayVal
	Path      string
	Where     string
	Confirmed bool
	Output    string
}

const noTermination = "no termination within the instruction bound"

type ReplayVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type Explorer struct {
	prog     *Program
	fn       *ssa.Function
	name     string
	workers  []*worker
	mu       sync.Mutex
	cond     *sync.Cond
	idle     int
	done     bool
	deadline time.Time
	tier     int

	paths, pruned, steps          int64
	assertsTrivial, assertsSolved int64
	assertMsgs                    map[string]int64
	unknowns                      map[string]int
	unsupported                   map[string]int
	violations                    []*Violation
	candidates                    map[string]int
	covers                        map[string]int64
	knownSeen                     map[string]int64
	notes                         map[string]int
	samples                       []sampleTrace
	rng                           *rand.Rand
	unexplored                    int64
	maxSteps                      int
	maxStepSeen                   int
	stop                          bool
	onViolation                   func(*Violation) bool // true: confirmed
	unconfirmed                   []*Violation
	completed                     int64
}

type sampleTrace struct {
	Values []ReplayVal
	Obs    []ReplayVal
}

func NewExplorer(prog *Program, fn *ssa.Function, nw int, workers []*worker, tier int) *Explorer {
	ex := &Explorer{prog: prog, fn: fn, name: fn.Name(), tier: tier, assertMsgs: map[string]int64{}, unknowns: map[string]int{}, unsupported: map[string]int{},
		candidates: map[string]int{}, covers: map[string]int64{}, knownSeen: map[string]int64{}, notes: map[string]int{}, rng: rand.New(rand.NewSource(*flagSeed)), maxSteps: *flagSteps}
	ex.cond = sync.NewCond(&ex.mu)
	ex.workers = workers[:nw]
	return ex
}

func (ex *Explorer) expired() bool { return time.Now().After(ex.deadline) || ex.stop }

func (ex *Explorer) workerOf(p *Path) *worker {
	for _, w := range ex.workers {
		if w.cur == p {
			return w
		}
	}
	return ex.workers[0]
}

func (ex *Explorer) push(w *worker, t task) {
	w.mu.Lock()
	w.local = append(w.local, t)
	w.mu.Unlock()
	if ex.idle > 0 {
		ex.cond.Signal()
	}
}

func (ex *Explorer) pop(w *worker) (task, bool) {
	for {
		w.mu.Lock()
		if n := len(w.local); n > 0 {
			t := w.local[n-1]
			w.local = w.local[:n-1]
			w.mu.Unlock()
			return t, true
		}
		w.mu.Unlock()
		// steal the oldest task of another worker
		for _, o := range ex.workers {
			if o == w {
				continue
			}
			o.mu.Lock()
			if len(o.local) > 0 {
				t := o.local[0]
				o.local = o.local[1:]
				o.mu.Unlock()
				return t, true
			}
			o.mu.Unlock()
		}
		ex.mu.Lock()
		ex.idle++
		if ex.idle == len(ex.workers) {
			// confirm nothing is queued
			empty := true
			for _, o := range ex.workers {
				o.mu.Lock()
				if len(o.local) > 0 {
					empty = false
				}
				o.mu.Unlock()
			}
			if empty {
				ex.done = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return task{}, false
			}
			ex.idle--
			ex.mu.Unlock()
			continue
		}
		if ex.done {
			ex.mu.Unlock()
			return task{}, false
		}
		// wake periodically: push signals without the lock
		go func() { time.Sleep(2 * time.Millisecond); ex.cond.Broadcast() }()
		ex.cond.Wait()
		if ex.done {
			ex.mu.Unlock()
			return task{}, false
		}
		ex.idle--
		ex.mu.Unlock()
	}
}

func (ex *Explorer) Run(budget time.Duration) {
	ex.deadline = time.Now().Add(budget)
	ex.workers[0].local = []task{{model: Model{}}}
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for {
				t, ok := ex.pop(w)
				if !ok {
					return
				}
				if ex.expired() {
					ex.mu.Lock()
					ex.unexplored++
					ex.mu.Unlock()
					continue
				}
				ex.runPath(w, t)
			}
		}(w)
	}
	wg.Wait()
}

func (ex *Explorer) runPath(w *worker, t task) {
	ip := w.ip
	if ip.tt.nextID > 3000000 {
		// bound memory: fresh tables (terms of earlier paths are garbage)
		ip.solver.Close()
		ip.reset()
	}
	p := &Path{Interp: ip, ex: ex, prefix: t.prefix, model: t.model, known: map[*Term]bool{}, maxStep: ex.maxSteps, modelOK: true, syncMaps: map[Ptr]*MapObj{}, pools: map[Ptr][]Value{}, locked: map[Ptr]int{}, once: map[Ptr]bool{}}
	p.seqN = 1
	w.cur = p
	outcome := "done"
	var ab pathAbort
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathAbort:
					ab = r
					outcome = "abort"
				case goPanic:
					// uncaught panic of the program under test
					outcome = "panic"
					ab.msg = r.msg
				default:
					if os.Getenv("ENGINE_DEBUG") != "" {
						panic(r)
					}
					outcome = "abort"
					ab = pathAbort{abUnsupported, fmt.Sprintf("engine fault: %v (in %v)", r, p.curFn)}
				}
			}
		}()
		p.callFn(ex.fn, nil, nil)
		if !p.modelOK {
			p.ensureModel()
		}
	}()
	if outcome == "abort" && ab.kind == abSteps && !ex.stop {
		func() {
			defer func() { recover() }()
			p.ensureModel()
			ex.report(p, noTermination, p.model)
		}()
	}
	if outcome == "panic" {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(pathAbort); ok {
						ab = a
						return
					}
					panic(r)
				}
			}()
			p.ensureModel()
			ex.report(p, "uncaught panic: "+ab.msg, p.model)
			ab = pathAbort{abViolation, ab.msg}
		}()
		outcome = "abort"
	}
	ex.mu.Lock()
	ex.steps += int64(p.steps)
	if p.steps > ex.maxStepSeen {
		ex.maxStepSeen = p.steps
	}
	if outcome == "done" {
		ex.completed++
		ex.paths++
		for _, c := range p.covers {
			ex.covers[c]++
		}
	} else {
		switch ab.kind {
		case abPruned, abKnown:
			ex.pruned++
		case abUnsupported, abDeadlock:
			ex.unsupported[ab.msg]++
		case abSteps:
			ex.unknowns["unwinding bound: "+ab.msg]++
		case abUnknown:
			ex.unknowns[ab.msg]++
		case abViolation:
			ex.paths++
		}
	}
	n := ex.paths
	ex.mu.Unlock()
	if outcome == "done" && p.modelOK {
		// reservoir of completed paths, replayed natively afterwards
		ex.mu.Lock()
		k := *flagSamples
		take := len(ex.samples) < k
		idx := len(ex.samples)
		if !take && k > 0 {
			if j := ex.rng.Intn(int(n)); j < k {
				take, idx = true, j
			}
		}
		ex.mu.Unlock()
		for _, nd := range p.nondets {
			if nd.kind == "lazy" && p.tt.Eval(nd.n, p.model) > 1<<24 {
				take = false // too big to run natively in a batch
			}
		}
		if take {
			st := sampleTrace{p.values(p.model), p.obsValues(p.model)}
			ex.mu.Lock()
			if idx >= len(ex.samples) {
				ex.samples = append(ex.samples, st)
			} else {
				ex.samples[idx] = st
			}
			ex.mu.Unlock()
		}
	}
	p.killAll()
	for i := len(p.undo) - 1; i >= 0; i-- {
		p.undo[i]()
	}
	if outcome == "abort" && os.Getenv("ENGINE_TRACE") != "" && ab.kind != abPruned {
		fmt.Fprintln(os.Stderr, "path ended:", ab.kind, ab.msg)
	}
}

func (ex *Explorer) countAssert(msg string, trivial bool) {
	ex.mu.Lock()
	if trivial {
		ex.assertsTrivial++
	} else {
		ex.assertsSolved++
	}
	ex.assertMsgs[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) note(msg string) {
	ex.mu.Lock()
	ex.notes[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnknown(p *Path, msg string) {
	ex.mu.Lock()
	ex.unknowns[msg]++
	ex.mu.Unlock()
}

func (p *Path) values(m Model) []ReplayVal {
	var out []ReplayVal
	ev := func(t *Term) uint64 { return p.tt.Eval(t, m) }
	for _, nd := range p.nondets {
		rv := ReplayVal{Name: nd.name, Kind: nd.kind}
		switch nd.kind {
		case "choose":
			rv.Val = fmt.Sprint(nd.conc)
		case "bytes":
			s := ""
			for _, t := range nd.terms {
				s += fmt.Sprintf("%02x", ev(t))
			}
			rv.Val = s
		case "lazy":
			n := ev(nd.n)
			max := 0
			for i := range nd.lz.bytes {
				if i+1 > max {
					max = i + 1
				}
			}
			s := ""
			for i := 0; i < max && uint64(i) < n; i++ {
				v := uint64(0)
				if t := nd.lz.bytes[i]; t != nil {
					v = ev(t)
				}
				s += fmt.Sprintf("%02x", v)
			}
			rv.Val = fmt.Sprintf("%d:%s", n, s)
		default:
			rv.Val = fmt.Sprint(ev(nd.terms[0]))
		}
		out = append(out, rv)
	}
	return out
}

func (p *Path) obsValues(m Model) []ReplayVal {
	var out []ReplayVal
	for _, o := range p.obs {
		rv := ReplayVal{Name: o.label, Kind: o.kind}
		if o.kind == "bytes" {
			s := ""
			for _, t := range o.terms {
				s += fmt.Sprintf("%02x", p.tt.Eval(t, m))
			}
			rv.Val = s
		} else {
			rv.Val = fmt.Sprint(p.tt.Eval(o.terms[0], m))
		}
		out = append(out, rv)
	}
	return out
}

// report records a violation candidate and has it replayed natively.
func (ex *Explorer) report(p *Path, msg string, m Model) {
	where := ""
	if p.curFn != nil {
		where = p.curFn.String()
	}
	v := &Violation{Harness: ex.name, Msg: msg, Values: p.values(m), Where: where}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.stop {
		return
	}
	key := msg
	ex.candidates[key]++
	if ex.candidates[key] > 5 || msg == noTermination && ex.candidates[key] > 2 {
		return // enough attempts at this one
	}
	if ex.onViolation != nil && ex.onViolation(v) {
		v.Confirmed = true
		ex.violations = append(ex.violations, v)
		ex.stop = true
	} else if msg != noTermination { // else counted as undecided
		ex.unconfirmed = append(ex.unconfirmed, v)
	}
}
