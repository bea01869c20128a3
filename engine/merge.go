package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pureEval evaluates an instruction that neither forks, panics nor writes.
func (p *Path) pureEval(fr *frame, in ssa.Instruction) bool {
	var r Value
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			y, ok := p.get(fr, in.Y).(*Term)
			if _, _, f, _ := basicInfo(in.X.Type()); !ok || f || !y.isConst() || y.val == 0 {
				return false
			}
		}
		x, ok1 := p.get(fr, in.X).(*Term)
		y, ok2 := p.get(fr, in.Y).(*Term)
		if !ok1 || !ok2 {
			return false
		}
		if in.Op == token.SHL || in.Op == token.SHR {
			if _, s, _, _ := basicInfo(in.Y.Type()); s && (!y.isConst() || sx(y.val, y.w) < 0) {
				return false
			}
		}
		r = p.binop(in.Op, in.X.Type(), in.Y.Type(), x, y)
	case *ssa.UnOp:
		switch in.Op {
		case token.ARROW:
			return false
		case token.MUL:
			a, ok := p.get(fr, in.X).(Ptr)
			if !ok || a.obj == nil || isAgg(in.Type()) {
				return false
			}
			if a.idx != nil {
				if a.n > 512 {
					return false
				}
				v, ok := p.loadSym(a, 1, false)
				if !ok {
					return false
				}
				r = v
			} else {
				if a.off >= len(a.obj.slots) {
					return false
				}
				r = a.obj.slots[a.off]
				if _, bad := r.(Poison); bad {
					return false
				}
			}
		default:
			if _, ok := p.get(fr, in.X).(*Term); !ok {
				return false
			}
			r = p.unop(fr, in)
		}
	case *ssa.Convert:
		w1, _, f1, q1 := basicInfo(in.X.Type())
		w2, _, f2, q2 := basicInfo(in.Type())
		if w1 <= 0 || w2 <= 0 || f1 || f2 || q1 || q2 {
			return false
		}
		r = p.convert(in.X.Type(), in.Type(), p.get(fr, in.X))
	case *ssa.ChangeType:
		r = p.get(fr, in.X)
	case *ssa.FieldAddr:
		a, ok := p.get(fr, in.X).(Ptr)
		if !ok || a.obj == nil {
			return false
		}
		r = p.evalInstr(fr, in)
	case *ssa.Field, *ssa.Extract:
		r = p.evalInstr(fr, in.(ssa.Value))
	case *ssa.IndexAddr:
		idx, ok := p.get(fr, in.Index).(*Term)
		if !ok || !idx.isConst() {
			return false
		}
		switch x := p.get(fr, in.X).(type) {
		case Slice:
			if x.obj == nil || !x.len.isConst() || idx.val >= x.len.val {
				return false
			}
		case Ptr:
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if x.obj == nil || idx.val >= uint64(at.Len()) {
				return false
			}
		default:
			return false
		}
		r = p.evalInstr(fr, in)
	case *ssa.Index:
		idx, ok := p.get(fr, in.Index).(*Term)
		s, ok2 := p.get(fr, in.X).(*Str)
		if !ok || !ok2 || !idx.isConst() || s.n != nil || idx.val >= uint64(s.clen()) {
			return false
		}
		r = p.evalInstr(fr, in)
	case *ssa.Lookup:
		idx, ok := p.get(fr, in.Index).(*Term)
		s, ok2 := p.get(fr, in.X).(*Str)
		if !ok || !ok2 || !idx.isConst() || s.n != nil || idx.val >= uint64(s.clen()) {
			return false
		}
		r = p.evalInstr(fr, in)
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		switch x := p.get(fr, in.Call.Args[0]).(type) {
		case Slice:
			r = x.len
		case *Str:
			r = p.strLen(x)
		default:
			return false
		}
	default:
		return false
	}
	fr.regs[fr.info.idx[in.(ssa.Value)]] = r
	p.steps++
	return true
}

// evalPure evaluates all of x but its final jump or branch.
func (p *Path) evalPure(fr *frame, x *ssa.BasicBlock) bool {
	for _, in := range x.Instrs[:len(x.Instrs)-1] {
		if !p.pureEval(fr, in) {
			return false
		}
	}
	return true
}

func straight(x *ssa.BasicBlock) bool {
	if len(x.Preds) != 1 || len(x.Instrs) > 16 {
		return false
	}
	_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Jump)
	return ok
}

func condBlock(x *ssa.BasicBlock) bool {
	if len(x.Preds) != 1 || len(x.Instrs) > 16 {
		return false
	}
	_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
	return ok
}

// ifConvert merges a branch over side-effect-free blocks into ite terms.
func (p *Path) ifConvert(fr *frame, b *ssa.BasicBlock, c *Term) (next *ssa.BasicBlock, ok bool) {
	s0, s1 := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	p0, p1 := b, b
	switch {
	case s0 != s1 && straight(s0) && straight(s1) && s0.Succs[0] == s1.Succs[0]:
		join, p0, p1 = s0.Succs[0], s0, s1
	case straight(s0) && s0.Succs[0] == s1 && s1 != b:
		join, p0 = s1, s0
	case straight(s1) && s1.Succs[0] == s0 && s0 != b:
		join, p1 = s0, s1
	default:
		return nil, false
	}
	if join == b || len(join.Preds) != 2 {
		return nil, false
	}
	if _, k := join.Instrs[0].(*ssa.Phi); !k {
		return nil, false
	}
	if p0 != b && !p.evalPure(fr, s0) || p1 != b && !p.evalPure(fr, s1) {
		return nil, false
	}
	vals, ok := p.mergePhis(fr, join, []edge{{c, p0}, {nil, p1}})
	if !ok {
		return nil, false
	}
	fr.merged = vals
	return join, true
}

type edge struct {
	guard *Term
	prev  *ssa.BasicBlock
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for k, q := range b.Preds {
		if q == prev {
			return k
		}
	}
	return -1
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || x.b == nil && y.b == nil && x.n == nil && y.n == nil && x.s == y.s)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	}
	return false
}

// mergePhis computes the phis of b for control arriving over one of the edges;
// earlier guards take precedence, the last edge is the default.
func (p *Path) mergePhis(fr *frame, b *ssa.BasicBlock, es []edge) ([]Value, bool) {
	var out []Value
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var r Value
		for k := len(es) - 1; k >= 0; k-- {
			i := predIndex(b, es[k].prev)
			if i < 0 {
				return nil, false
			}
			v := p.get(fr, phi.Edges[i])
			if r == nil {
				r = v
				continue
			}
			if sameVal(r, v) {
				continue
			}
			x, ok1 := v.(*Term)
			y, ok2 := r.(*Term)
			if !ok1 || !ok2 || x.w != y.w {
				return nil, false
			}
			r = p.tt.Ite(es[k].guard, x, y)
		}
		out = append(out, r)
	}
	return out, true
}

// condChain folds a chain of short-circuit conditions sharing a target into
// one condition. It returns where to go on each outcome.
type target struct {
	blk *ssa.BasicBlock
	es  []edge
}

func (p *Path) condChain(fr *frame, b *ssa.BasicBlock, c *Term) (*Term, target, target) {
	tt := p.tt
	T := target{b.Succs[0], []edge{{c, b}}}
	F := target{b.Succs[1], []edge{{tt.Not(c), b}}}
	cond := c
	for n := 0; n < 12; n++ {
		grown := false
		// extend through the false side (||), then through the true side (&&)
		for side := 0; side < 2 && !grown; side++ {
			x, keep := &F, &T
			if side == 1 {
				x, keep = &T, &F
			}
			blk := x.blk
			if len(x.es) != 1 || !condBlock(blk) || blk == b || keep.blk == x.blk {
				continue
			}
			var hit int
			switch keep.blk {
			case blk.Succs[0]:
				hit = 0
			case blk.Succs[1]:
				hit = 1
			default:
				continue
			}
			if blk.Succs[0] == blk.Succs[1] || !p.evalPure(fr, blk) {
				continue
			}
			c2, ok := p.get(fr, blk.Instrs[len(blk.Instrs)-1].(*ssa.If).Cond).(*Term)
			if !ok {
				continue
			}
			toKeep := c2
			if hit == 1 {
				toKeep = tt.Not(c2)
			}
			var xCond *Term // condition of reaching x so far
			if side == 0 {
				xCond = tt.Not(cond)
			} else {
				xCond = cond
			}
			nk := append(append([]edge{}, keep.es...), edge{tt.And(xCond, toKeep), blk})
			if _, ok := p.mergePhis(fr, keep.blk, nk); !ok {
				continue
			}
			nx := target{blk.Succs[1-hit], []edge{{tt.And(xCond, tt.Not(toKeep)), blk}}}
			if side == 0 {
				cond = tt.Or(cond, toKeep)
			} else {
				cond = tt.And(cond, tt.Not(toKeep))
			}
			*keep = target{keep.blk, nk}
			*x = nx
			grown = true
		}
		if !grown {
			break
		}
	}
	return cond, T, F
}

// branchTo follows the If ending block b.
func (p *Path) branchTo(fr *frame, b *ssa.BasicBlock, c *Term) {
	if !c.isConst() && !p.known[c] && !p.known[p.tt.Not(c)] {
		if next, ok := p.ifConvert(fr, b, c); ok {
			fr.prev, fr.block = nil, next
			return
		}
		cond, T, F := p.condChain(fr, b, c)
		t := F
		if p.Branch(cond) {
			t = T
		}
		fr.prev, fr.block = t.es[0].prev, t.blk
		if len(t.es) > 1 {
			if vals, _ := p.mergePhis(fr, t.blk, t.es); len(vals) > 0 {
				fr.merged = vals
			}
		}
		return
	}
	k := 1
	if p.Branch(c) {
		k = 0
	}
	fr.prev, fr.block = b, b.Succs[k]
}
