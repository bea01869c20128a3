package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Runtime values of the symbolic interpreter.
//
//	*Term    bool, integers, floats (bit patterns), uintptr
//	*Str     string
//	Ptr      pointer, unsafe.Pointer
//	Slice    slice
//	Iface    interface
//	*MapObj  map (nil *MapObj is the nil map)
//	*Closure function value (nil *Closure is nil)
//	*ChanObj channel
//	Agg      struct or array, flattened to scalar slots
//	Tuple    multiple results
//	native Go values inside reflect.Type / reflect.Value handles
type Value interface{}

type Agg []Value
type Tuple []Value

type Str struct {
	s   string  // concrete, when b == nil && lz == nil
	b   []*Term // symbolic bytes
	lz  *Lazy   // bytes of symbolic length: lz[off : off+n]
	ob  *Obj    // bytes aliasing memory: ob[off : off+n] (unsafe.String)
	off int
	n   *Term
}

// Lazy is an unbounded read-only byte sequence; byte i is a variable made on
// demand.
type Lazy struct {
	name  string
	bytes map[int]*Term
}

type Obj struct {
	id    int
	slots []Value
	zero  []Value // element template for lazily grown objects (nil: fixed)
	max   int     // most slots a lazily grown object may get
	epoch int     // path epoch that allocated it, 0 = initialisation
	seq   int     // allocation order within the path
	desc  string
	lz    *Lazy
}

type Ptr struct {
	obj *Obj
	off int
	// symbolic element index: address off + idx*stride, idx < n
	idx    *Term
	n      int
	stride int
}

type Slice struct {
	obj      *Obj
	off      int // slot offset of element 0
	len, cap *Term
	es       int // slots per element
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  func(p *Path, args []Value) Value // native closure
}

type MapObj struct {
	epoch int
	keys  []Value
	vals  []Value
	idx   map[string]int
	seq   int
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	epoch  int
	sendq  []waiting
	recvq  []waiting
}

// errors the interpreter raises
type goPanic struct {
	v   Value // Iface
	msg string
}
type abortKind int

const (
	abPruned      abortKind = iota // assumption unsatisfiable
	abUnsupported                  // construct outside the encoder
	abSteps                        // unwinding bound exceeded
	abViolation                    // path ends at a reported violation
	abUnknown                      // solver gave no answer
	abKnown                        // inside a listed known finding
	abDeadlock
)

type pathAbort struct {
	kind abortKind
	msg  string
}

var (
	slotMu    sync.Mutex
	slotCache = map[types.Type]int{}
)

// nslots is the number of scalar slots a value of type t occupies.
func nslots(t types.Type) int {
	switch u := t.(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return 1
	case *types.Array:
		return int(u.Len()) * nslots(u.Elem())
	}
	slotMu.Lock()
	n, ok := slotCache[t]
	slotMu.Unlock()
	if ok {
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += nslots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * nslots(u.Elem())
	case *types.Tuple:
		n = 1
	default:
		n = 1
	}
	slotMu.Lock()
	slotCache[t] = n
	slotMu.Unlock()
	return n
}

var fieldMu sync.Mutex
var fieldCache = map[*types.Struct][]int{}

func fieldOff(s *types.Struct, i int) int {
	fieldMu.Lock()
	defer fieldMu.Unlock()
	o, ok := fieldCache[s]
	if !ok {
		o = make([]int, s.NumFields()+1)
		for j := 0; j < s.NumFields(); j++ {
			o[j+1] = o[j] + nslots(s.Field(j).Type())
		}
		fieldCache[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func basicInfo(t types.Type) (w int, signed, isFloat, isStr bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false, false
	case types.Int32, types.UntypedRune:
		return 32, true, false, false
	case types.Int16:
		return 16, true, false, false
	case types.Int8:
		return 8, true, false, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false, false
	case types.Uint32:
		return 32, false, false, false
	case types.Uint16:
		return 16, false, false, false
	case types.Uint8:
		return 8, false, false, false
	case types.Float64, types.UntypedFloat:
		return 64, true, true, false
	case types.Float32:
		return 32, true, true, false
	case types.String, types.UntypedString:
		return 0, false, false, true
	}
	return -1, false, false, false
}

// zero appends the zero slots of t to out.
func (p *Interp) zeroSlots(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = p.zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		for i := 0; i < int(u.Len()); i++ {
			out = p.zeroSlots(u.Elem(), out)
		}
		return out
	}
	return append(out, p.zeroScalar(t))
}

func (p *Interp) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		w, _, _, str := basicInfo(u)
		if str {
			return emptyStr
		}
		if w < 0 {
			return p.tt.C(64, 0) // complex: never computed with
		}
		return p.tt.C(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return p.nilSlice(u)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	panic(fmt.Sprintf("zero of %v", t))
}

func (p *Interp) zeroVal(t types.Type) Value {
	if isAgg(t) {
		return Agg(p.zeroSlots(t, nil))
	}
	return p.zeroScalar(t)
}

func (p *Interp) nilSlice(t *types.Slice) Slice {
	z := p.tt.C(64, 0)
	return Slice{nil, 0, z, z, nslots(t.Elem())}
}

var emptyStr = &Str{}

func cstr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (s *Str) clen() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
