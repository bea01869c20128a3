package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType stands for a *reflect.rtype.
type RType struct{ t types.Type }

// RVal is the content of a reflect.Value.
type RVal struct {
	t    types.Type
	v    Value // when not addressable
	addr Ptr   // when addressable
	adr  bool
	ro   bool // obtained through an unexported field
}

func (r *RType) str() string {
	return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) rtype(t types.Type) *RType {
	c := p.canon(t)
	r, ok := p.rtypes[c]
	if !ok {
		r = &RType{c}
		p.rtypes[c] = r
	}
	return r
}

func (p *Path) rtIface(t types.Type) Value {
	rt := p.prog.ssa.ImportedPackage("reflect").Type("rtype").Type()
	return Iface{types.NewPointer(rt), p.rtype(t)}
}

func (p *Path) rtOf(v Value) types.Type {
	i := v.(Iface)
	if i.t == nil {
		p.nilDeref()
	}
	return i.v.(*RType).t
}

func (p *Path) rvType() types.Type { return p.prog.ssa.ImportedPackage("reflect").Type("Value").Type() }

func (p *Path) rv(r *RVal) Value { return Agg{r, Ptr{}, p.i64(1)} }
func (p *Path) rvZero() Value    { return Agg{Ptr{}, Ptr{}, p.i64(0)} }
func (p *Path) rvOf(v Value) *RVal {
	a := v.(Agg)
	r, ok := a[0].(*RVal)
	if !ok {
		return nil
	}
	return r
}

func (p *Path) rget(r *RVal) Value {
	if r.adr {
		return p.load(r.addr, r.t)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func kindName(k int) string { return reflect.Kind(k).String() }

type tagRes struct {
	v  string
	ok bool
}

func tagLookup(tag, key string) tagRes {
	v, ok := reflect.StructTag(tag).Lookup(key)
	return tagRes{v, ok}
}

func (p *Path) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	sf := p.prog.ssa.ImportedPackage("reflect").Type("StructField").Type()
	su := sf.Underlying().(*types.Struct)
	out := Agg(p.zeroSlots(sf, nil))
	set := func(name string, v Value) {
		for j := 0; j < su.NumFields(); j++ {
			if su.Field(j).Name() == name {
				out[fieldOff(su, j)] = v
			}
		}
	}
	set("Name", cstr(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", cstr(f.Pkg().Path()))
	}
	set("Type", p.rtIface(f.Type()))
	set("Tag", cstr(st.Tag(i)))
	o := p.newObj([]Value{p.i64(i)}, "field index")
	set("Index", Slice{o, 0, p.i64(1), p.i64(1), 1})
	set("Anonymous", p.tt.B(f.Anonymous()))
	return out
}

func (p *Path) rtypeMethod(r *RType, name string, a []Value) Value {
	tt := p.tt
	u := r.t.Underlying()
	switch name {
	case "Kind":
		return tt.C(64, uint64(kindOf(r.t)))
	case "String":
		return cstr(r.str())
	case "Name":
		if n, ok := r.t.(*types.Named); ok {
			return cstr(n.Obj().Name())
		}
		if b, ok := r.t.(*types.Basic); ok {
			return cstr(b.Name())
		}
		return emptyStr
	case "PkgPath":
		if n, ok := r.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return cstr(n.Obj().Pkg().Path())
		}
		return emptyStr
	case "Elem":
		switch x := u.(type) {
		case *types.Pointer:
			return p.rtIface(x.Elem())
		case *types.Slice:
			return p.rtIface(x.Elem())
		case *types.Array:
			return p.rtIface(x.Elem())
		case *types.Map:
			return p.rtIface(x.Elem())
		case *types.Chan:
			return p.rtIface(x.Elem())
		}
		p.strPanic("reflect: Elem of invalid type " + r.str())
	case "Key":
		return p.rtIface(u.(*types.Map).Key())
	case "Len":
		return p.i64(int(u.(*types.Array).Len()))
	case "NumField":
		st, ok := u.(*types.Struct)
		if !ok {
			p.strPanic("reflect: NumField of non-struct type " + r.str())
		}
		return p.i64(st.NumFields())
	case "Field":
		st, ok := u.(*types.Struct)
		if !ok {
			p.strPanic("reflect: Field of non-struct type " + r.str())
		}
		i := int(p.Concretize(a[0].(*Term), "field index"))
		if i < 0 || i >= st.NumFields() {
			p.strPanic("reflect: Field index out of bounds")
		}
		return p.structField(st, i)
	case "Implements":
		it := p.rtOf(a[0])
		iu, ok := it.Underlying().(*types.Interface)
		if !ok {
			p.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return tt.B(types.Implements(r.t, iu))
	case "AssignableTo":
		return tt.B(types.AssignableTo(r.t, p.rtOf(a[0])))
	case "ConvertibleTo":
		return tt.B(types.ConvertibleTo(r.t, p.rtOf(a[0])))
	case "Comparable":
		return tt.B(types.Comparable(r.t))
	case "Size":
		return tt.C(64, uint64(p.prog.sizes.Sizeof(r.t)))
	case "NumMethod":
		return p.i64(types.NewMethodSet(r.t).Len())
	}
	p.unsupported("reflect.Type.%s", name)
	return nil
}

// assignTo converts x for assignment to a location of type t.
func (p *Path) assignTo(x *RVal, t types.Type) Value {
	if x == nil {
		p.strPanic("reflect: call of reflect.Value.Set on zero Value")
	}
	if x.ro {
		p.strPanic("reflect: using value obtained using unexported field")
	}
	if !types.AssignableTo(x.t, t) {
		p.strPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + t.String())
	}
	v := p.rget(x)
	if types.IsInterface(t) {
		if types.IsInterface(x.t) {
			return v
		}
		return Iface{x.t, v}
	}
	return v
}

func (p *Path) rvalueMethod(name string, a []Value) Value {
	tt := p.tt
	r := p.rvOf(a[0])
	if r == nil {
		switch name {
		case "IsValid":
			return tt.False
		case "Kind":
			return tt.C(64, 0)
		case "String":
			return cstr("<invalid Value>")
		}
		p.strPanic("reflect: call of reflect.Value." + name + " on zero Value")
	}
	u := r.t.Underlying()
	bad := func() {
		p.strPanic("reflect: call of reflect.Value." + name + " on " + kindOf(r.t).String() + " Value")
	}
	switch name {
	case "IsValid":
		return tt.True
	case "Kind":
		return tt.C(64, uint64(kindOf(r.t)))
	case "Type":
		return p.rtIface(r.t)
	case "CanSet":
		return tt.B(r.adr && !r.ro)
	case "CanAddr":
		return tt.B(r.adr)
	case "CanInterface":
		return tt.B(!r.ro)
	case "Addr":
		if !r.adr {
			p.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return p.rv(&RVal{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
	case "Interface":
		if r.ro {
			p.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := p.rget(r)
		if types.IsInterface(r.t) {
			return v
		}
		return Iface{r.t, v}
	case "Elem":
		switch x := u.(type) {
		case *types.Pointer:
			q := p.rget(r).(Ptr)
			if q.obj == nil {
				return p.rvZero()
			}
			return p.rv(&RVal{t: x.Elem(), addr: p.concPtr(q), adr: true, ro: r.ro})
		case *types.Interface:
			i := p.rget(r).(Iface)
			if i.t == nil {
				return p.rvZero()
			}
			return p.rv(&RVal{t: i.t, v: i.v, ro: r.ro})
		}
		bad()
	case "IsNil":
		switch v := p.rget(r).(type) {
		case Ptr:
			return tt.B(v.obj == nil)
		case Slice:
			return tt.B(v.obj == nil)
		case *MapObj:
			return tt.B(v == nil)
		case *Closure:
			return tt.B(v == nil)
		case *ChanObj:
			return tt.B(v == nil)
		case Iface:
			return tt.B(v.t == nil)
		}
		bad()
	case "IsZero":
		v := p.rget(r)
		if types.Comparable(r.t) {
			return p.equal(r.t, v, p.zeroVal(r.t))
		}
		return p.rvalueMethod("IsNil", a)
	case "Len":
		switch v := p.rget(r).(type) {
		case Slice:
			return v.len
		case *Str:
			return p.strLen(v)
		case *MapObj:
			if v == nil {
				return p.i64(0)
			}
			return p.i64(v.length())
		case Agg:
			if at, ok := u.(*types.Array); ok {
				return p.i64(int(at.Len()))
			}
		}
		bad()
	case "Cap":
		if v, ok := p.rget(r).(Slice); ok {
			return v.cap
		}
		bad()
	case "NumField":
		st, ok := u.(*types.Struct)
		if !ok {
			bad()
		}
		return p.i64(st.NumFields())
	case "Field":
		st, ok := u.(*types.Struct)
		if !ok {
			bad()
		}
		i := int(p.Concretize(a[1].(*Term), "field"))
		if i < 0 || i >= st.NumFields() {
			p.strPanic("reflect: Field index out of range")
		}
		f := st.Field(i)
		ro := r.ro || !f.Exported()
		if r.adr {
			q := r.addr
			q.off += fieldOff(st, i)
			return p.rv(&RVal{t: f.Type(), addr: q, adr: true, ro: ro})
		}
		agg := r.v.(Agg)
		o := fieldOff(st, i)
		var v Value = agg[o]
		if isAgg(f.Type()) {
			v = append(Agg{}, agg[o:o+nslots(f.Type())]...)
		}
		return p.rv(&RVal{t: f.Type(), v: v, ro: ro})
	case "Index":
		i := p.ext(a[1].(*Term), true, 64)
		switch x := u.(type) {
		case *types.Slice:
			s := p.rget(r).(Slice)
			if !p.Branch(tt.Ult(i, s.len)) {
				p.strPanic("reflect: slice index out of range")
			}
			k := int(p.Concretize(i, "index"))
			return p.rv(&RVal{t: x.Elem(), addr: Ptr{obj: s.obj, off: s.off + k*s.es}, adr: true, ro: r.ro})
		case *types.Array:
			if !p.Branch(tt.Ult(i, p.i64(int(x.Len())))) {
				p.strPanic("reflect: array index out of range")
			}
			k := int(p.Concretize(i, "index"))
			es := nslots(x.Elem())
			if r.adr {
				return p.rv(&RVal{t: x.Elem(), addr: Ptr{obj: r.addr.obj, off: r.addr.off + k*es}, adr: true, ro: r.ro})
			}
			var v Value = r.v.(Agg)[k*es]
			if isAgg(x.Elem()) {
				v = append(Agg{}, r.v.(Agg)[k*es:k*es+es]...)
			}
			return p.rv(&RVal{t: x.Elem(), v: v, ro: r.ro})
		}
		bad()
	case "Slice":
		i, j := p.ext(a[1].(*Term), true, 64), p.ext(a[2].(*Term), true, 64)
		lo := int(p.Concretize(i, "slice start"))
		switch x := u.(type) {
		case *types.Array:
			if !r.adr {
				p.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			n := p.i64(int(x.Len()))
			if !p.Branch(tt.And(tt.Ule(p.i64(lo), j), tt.Ule(j, n))) {
				p.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			es := nslots(x.Elem())
			return p.rv(&RVal{t: types.NewSlice(x.Elem()), v: Slice{r.addr.obj, r.addr.off + lo*es, tt.Sub(j, p.i64(lo)), tt.Sub(n, p.i64(lo)), es}, ro: r.ro})
		case *types.Slice:
			s := p.rget(r).(Slice)
			if !p.Branch(tt.And(tt.Ule(p.i64(lo), j), tt.Ule(j, s.cap))) {
				p.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return p.rv(&RVal{t: r.t, v: Slice{s.obj, s.off + lo*s.es, tt.Sub(j, p.i64(lo)), tt.Sub(s.cap, p.i64(lo)), s.es}, ro: r.ro})
		}
		bad()
	case "Set":
		if !r.adr {
			p.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if r.ro {
			p.strPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		p.store(r.addr, p.assignTo(p.rvOf(a[1]), r.t))
		return nil
	case "SetZero":
		if !r.adr || r.ro {
			p.strPanic("reflect: reflect.Value.SetZero using unaddressable value")
		}
		p.store(r.addr, p.zeroVal(r.t))
		return nil
	case "SetLen":
		s := p.rget(r).(Slice)
		s.len = a[1].(*Term)
		p.store(r.addr, s)
		return nil
	case "SetInt", "SetUint", "SetBool", "SetString", "SetFloat":
		v := a[1]
		if t, ok := v.(*Term); ok {
			w, s, _, _ := basicInfo(r.t)
			v = p.ext(t, s, w)
		}
		p.store(r.addr, v)
		return nil
	case "Int":
		return p.ext(p.rget(r).(*Term), true, 64)
	case "Uint":
		return p.ext(p.rget(r).(*Term), false, 64)
	case "Bool":
		return p.rget(r)
	case "String":
		if s, ok := p.rget(r).(*Str); ok {
			return s
		}
		return cstr("<" + (&RType{r.t}).str() + " Value>")
	case "Convert":
		t := p.rtOf(a[1])
		if types.IsInterface(t) {
			v := p.rget(r)
			if types.IsInterface(r.t) {
				return p.rv(&RVal{t: t, v: v})
			}
			return p.rv(&RVal{t: t, v: Iface{r.t, v}})
		}
		return p.rv(&RVal{t: t, v: p.convert(r.t, t, p.rget(r))})
	case "MapKeys":
		m, ok := p.rget(r).(*MapObj)
		if !ok {
			bad()
		}
		var keys []Value
		if m != nil {
			p.mapGet(m, p.zeroVal(u.(*types.Map).Key()))
			for _, k := range m.keys {
				if k != nil {
					keys = append(keys, p.rv(&RVal{t: u.(*types.Map).Key(), v: k, ro: r.ro}))
				}
			}
		}
		var slots []Value
		for _, k := range keys {
			if g, ok := k.(Agg); ok {
				slots = append(slots, g...)
			} else {
				slots = append(slots, k)
			}
		}
		if len(keys) == 0 {
			return Slice{p.newObj(nil, "map keys"), 0, p.i64(0), p.i64(0), 1}
		}
		return Slice{p.newObj(slots, "map keys"), 0, p.i64(len(keys)), p.i64(len(keys)), len(slots) / len(keys)}
	case "MapIndex":
		m, ok := p.rget(r).(*MapObj)
		if !ok {
			bad()
		}
		if m == nil {
			return p.rvZero()
		}
		v, ok := p.mapGet(m, p.assignTo(p.rvOf(a[1]), u.(*types.Map).Key()))
		if !ok {
			return p.rvZero()
		}
		return p.rv(&RVal{t: u.(*types.Map).Elem(), v: v, ro: r.ro})
	case "NumMethod":
		return p.i64(types.NewMethodSet(r.t).Len())
	}
	p.unsupported("reflect.Value.%s", name)
	return nil
}

var _ = strings.Contains
var _ *ssa.Function
