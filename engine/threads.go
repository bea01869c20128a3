package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program run as coroutines: one at a time, each on a Go
// goroutine of its own, switching where they block (channels, locks, wait
// groups), yield or end. Which of several runnable ones goes on is a choice
// of the path. Code between two such places is not interrupted.

type coro struct {
	id     int
	resume chan struct{}
	exited chan struct{}
	dead   bool
	ready  func() bool // nil: runnable
	st     coroState
}

type coroState struct {
	frame            *frame
	curFn            *ssa.Function
	depth            int
	lockDepth, rlock int
	onceDepth        int
	errText          bool
	atomicOp         bool
}

type coroKill struct{}

const maxCoros = 64

func (p *Path) saveState() coroState {
	return coroState{p.frame, p.curFn, p.depth, p.lockDepth, p.rlocks, p.onceDepth, p.errText, p.atomicOp}
}

func (p *Path) loadState(s coroState) {
	p.frame, p.curFn, p.depth, p.lockDepth, p.rlocks, p.onceDepth, p.errText, p.atomicOp = s.frame, s.curFn, s.depth, s.lockDepth, s.rlock, s.onceDepth, s.errText, s.atomicOp
}

// spawn makes f a goroutine, which runs when the others let it.
func (p *Path) spawn(f func()) {
	if len(p.coros) == 0 {
		p.coros = append(p.coros, &coro{resume: make(chan struct{})})
	}
	if len(p.coros) >= maxCoros {
		p.unsupported("more than %d goroutines", maxCoros)
	}
	c := &coro{id: len(p.coros), resume: make(chan struct{}), exited: make(chan struct{})}
	c.st = coroState{}
	p.coros = append(p.coros, c)
	go func() {
		defer close(c.exited)
		<-c.resume
		if p.killing {
			c.dead = true
			return
		}
		defer func() {
			r := recover()
			c.dead = true
			if p.killing {
				return
			}
			func() {
				// what is done here may itself end the path
				defer func() {
					if r := recover(); r != nil {
						p.fault = r
					}
				}()
				switch r := r.(type) {
				case nil:
				case goPanic:
					p.ensureModel()
					p.ex.report(p, "uncaught panic in a goroutine: "+r.msg, p.model)
					panic(pathAbort{abViolation, r.msg})
				case pathAbort:
					panic(r)
				default:
					panic(pathAbort{abUnsupported, fmt.Sprintf("engine fault: %v (in %v)", r, p.curFn)})
				}
			}()
			next := p.coros[0]
			if p.fault == nil {
				if cands := p.runnable(c); len(cands) > 0 {
					func() {
						defer func() {
							if r := recover(); r != nil {
								p.fault = r
							}
						}()
						next = cands[p.ChooseN(len(cands))]
					}()
				} else {
					// main waits for ever
					func() {
						defer func() {
							if r := recover(); r != nil {
								p.fault = r
							}
						}()
						p.loadState(p.coros[0].st)
						p.deadlock(p.coros[0].waits())
					}()
				}
				if p.fault != nil {
					next = p.coros[0]
				}
			}
			p.cur = next.id
			p.loadState(next.st)
			next.resume <- struct{}{}
		}()
		f()
	}()
}

func (c *coro) waits() string { return "all goroutines wait for ever" }

func (p *Path) deadlock(what string) {
	p.ensureModelAny()
	p.ex.report(p, what, p.model)
	p.abort(abDeadlock, "%s", what)
}

// runnable are the goroutines other than c that can go on.
func (p *Path) runnable(c *coro) []*coro {
	var out []*coro
	for _, o := range p.coros {
		if o != c && !o.dead && (o.ready == nil || o.ready()) {
			out = append(out, o)
		}
	}
	return out
}

// handOver lets another goroutine run and returns when this one goes on.
func (p *Path) handOver(next *coro) {
	me := p.coros[p.cur]
	me.st = p.saveState()
	p.cur = next.id
	p.loadState(next.st)
	next.resume <- struct{}{}
	<-me.resume
	if p.killing {
		panic(coroKill{})
	}
	if me.id == 0 && p.fault != nil {
		f := p.fault
		p.fault = nil
		panic(f)
	}
}

// block waits until ready.
func (p *Path) block(ready func() bool, what string) {
	if ready() {
		return
	}
	if len(p.coros) == 0 {
		p.deadlock(what)
	}
	me := p.coros[p.cur]
	me.ready = ready
	for !ready() {
		cands := p.runnable(me)
		if len(cands) == 0 {
			p.deadlock(what)
		}
		p.handOver(cands[p.ChooseN(len(cands))])
	}
	me.ready = nil
}

// yield lets the others run as far as they can.
func (p *Path) yield() {
	if len(p.coros) == 0 {
		return
	}
	me := p.coros[p.cur]
	for n := 0; ; n++ {
		cands := p.runnable(me)
		if len(cands) == 0 || n > 1000 {
			return
		}
		p.handOver(cands[p.ChooseN(len(cands))])
	}
}

// killAll ends the goroutines that are left at the end of a path.
func (p *Path) killAll() {
	p.killing = true
	for _, c := range p.coros {
		if c.id != 0 && !c.dead {
			c.resume <- struct{}{}
		}
		if c.id != 0 {
			<-c.exited
		}
	}
}

func (p *Path) goStmt(fr *frame, in *ssa.Go) {
	c := &in.Call
	var args []Value
	for _, a := range c.Args {
		args = append(args, p.get(fr, a))
	}
	if c.IsInvoke() {
		recv := p.get(fr, c.Value).(Iface)
		if recv.t == nil {
			p.nilDeref()
		}
		m := c.Method
		p.spawn(func() { p.invoke(recv, m, args) })
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		p.spawn(func() { p.callFn2(f, args, nil, nil) })
	case *ssa.Builtin:
		p.spawn(func() { p.builtin(fr, f, args, c) })
	default:
		cl := p.get(fr, c.Value).(*Closure)
		if cl == nil {
			p.nilDeref()
		}
		p.spawn(func() { p.callClosure(cl, args, nil) })
	}
}

// --- channels

// waiter is a goroutine waiting at one or more channels.
type waiter struct {
	done bool
	idx  int
	val  Value
	ok   bool
}

type waiting struct {
	w   *waiter
	idx int
	val Value // to send
}

func popWaiting(q *[]waiting) (waiting, bool) {
	for len(*q) > 0 {
		e := (*q)[0]
		*q = (*q)[1:]
		if !e.w.done {
			return e, true
		}
	}
	return waiting{}, false
}

func hasWaiting(q []waiting) bool {
	for _, e := range q {
		if !e.w.done {
			return true
		}
	}
	return false
}

func (c *ChanObj) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiting(c.recvq) }
func (c *ChanObj) canRecv() bool { return c.closed || len(c.buf) > 0 || hasWaiting(c.sendq) }

// sendNow sends where canSend holds.
func (p *Path) sendNow(c *ChanObj, v Value) {
	if c.closed {
		panic(goPanic{p.plainErr("send on closed channel"), "send on closed channel"})
	}
	if e, ok := popWaiting(&c.recvq); ok {
		*e.w = waiter{done: true, idx: e.idx, val: v, ok: true}
		return
	}
	c.buf = append(c.buf, v)
}

// recvNow receives where canRecv holds.
func (p *Path) recvNow(c *ChanObj, elem types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if e, ok := popWaiting(&c.sendq); ok {
			*e.w = waiter{done: true, idx: e.idx, ok: true}
			c.buf = append(c.buf, e.val)
		}
		return v, true
	}
	if e, ok := popWaiting(&c.sendq); ok {
		*e.w = waiter{done: true, idx: e.idx, ok: true}
		return e.val, true
	}
	return p.zeroVal(elem), false
}

func (p *Path) chanSend(c *ChanObj, v Value) {
	if c == nil {
		p.block(func() bool { return false }, "send on nil channel blocks for ever")
	}
	if c.canSend() {
		p.sendNow(c, v)
		return
	}
	w := &waiter{}
	c.sendq = append(c.sendq, waiting{w, 0, v})
	p.block(func() bool { return w.done || c.closed }, "send on a full channel blocks for ever")
	if !w.done {
		w.done = true
		p.sendNow(c, v) // closed
	}
}

func chanElem(ct types.Type) types.Type { return ct.Underlying().(*types.Chan).Elem() }

func (p *Path) chanRecv(c *ChanObj, commaOk bool, t, ct types.Type) Value {
	if c == nil {
		p.block(func() bool { return false }, "receive from nil channel blocks for ever")
	}
	var v Value
	var ok bool
	if c.canRecv() {
		v, ok = p.recvNow(c, chanElem(ct))
	} else {
		w := &waiter{}
		c.recvq = append(c.recvq, waiting{w, 0, nil})
		p.block(func() bool { return w.done || c.closed }, "receive on an empty channel blocks for ever")
		if w.done {
			v, ok = w.val, w.ok
		} else {
			w.done = true
			v, ok = p.recvNow(c, chanElem(ct))
		}
	}
	if commaOk {
		return Tuple{v, p.tt.B(ok)}
	}
	return v
}

// selectStmt takes any of the cases that are ready.
func (p *Path) selectStmt(fr *frame, in *ssa.Select) Value {
	chans := make([]*ChanObj, len(in.States))
	send := make([]Value, len(in.States))
	for i, st := range in.States {
		chans[i] = p.get(fr, st.Chan).(*ChanObj)
		if st.Dir == types.SendOnly {
			send[i] = p.get(fr, st.Send)
		}
	}
	ready := func() (r []int) {
		for i, st := range in.States {
			c := chans[i]
			if c != nil && (st.Dir == types.SendOnly && c.canSend() || st.Dir == types.RecvOnly && c.canRecv()) {
				r = append(r, i)
			}
		}
		return r
	}
	pick := -1
	var got Value
	gotOK := false
	take := func(i int) {
		pick = i
		if in.States[i].Dir == types.SendOnly {
			p.sendNow(chans[i], send[i])
		} else {
			got, gotOK = p.recvNow(chans[i], chanElem(in.States[i].Chan.Type()))
		}
	}
	if r := ready(); len(r) > 0 {
		take(r[p.ChooseN(len(r))])
	} else if in.Blocking {
		w := &waiter{}
		closed := func() bool {
			for _, c := range chans {
				if c != nil && c.closed {
					return true
				}
			}
			return false
		}
		for i, c := range chans {
			if c == nil {
				continue
			}
			if in.States[i].Dir == types.SendOnly {
				c.sendq = append(c.sendq, waiting{w, i, send[i]})
			} else {
				c.recvq = append(c.recvq, waiting{w, i, nil})
			}
		}
		p.block(func() bool { return w.done || closed() }, "select blocks for ever")
		if w.done {
			pick, got, gotOK = w.idx, w.val, w.ok
		} else {
			w.done = true
			r := ready()
			take(r[p.ChooseN(len(r))])
		}
	}
	tu := Tuple{p.tt.C(64, uint64(int64(pick))), p.tt.False}
	for i, st := range in.States {
		if st.Dir == types.SendOnly {
			continue
		}
		if i == pick {
			tu[1] = p.tt.B(gotOK)
			tu = append(tu, got)
		} else {
			tu = append(tu, p.zeroVal(chanElem(st.Chan.Type())))
		}
	}
	return tu
}
