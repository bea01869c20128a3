package props

import (
	"bytes"
	"reflect"

	"github.com/codeallergy/value"
	"verif/harness/sym"
)

// taggedV is what is expected at one index of the sparse list of a packed struct.
type taggedV struct {
	tag   int
	check func(v value.Value)
}

func asValue(tag int, want value.Value) taggedV {
	return taggedV{tag, func(v value.Value) { sameValue(want, v) }}
}

// isPacked: v is the sparse list of the fields, or an empty map.
func isPacked(v value.Value, want []taggedV) {
	if len(want) == 0 {
		m, ok := v.(value.Map)
		sym.Assert(ok && m.Len() == 0, "a struct without fields is no empty map")
		return
	}
	l, ok := v.(value.List)
	sym.Assert(ok, "a packed struct is no list")
	items := l.Items()
	sym.Assert(len(items) == len(want), "a packed struct has another number of items")
	for i, w := range want {
		sym.Assert(items[i].Key() == w.tag, "a field is at another index than its tag")
		w.check(items[i].Value())
		if i == 0 || want[i-1].tag != w.tag {
			w.check(l.GetAt(w.tag))
		}
	}
}

func viewOfInner(s *innerS) func(v value.Value) {
	return func(v value.Value) {
		var want []taggedV
		if s.B != nil {
			want = append(want, asValue(1, s.B))
		}
		if s.A != nil {
			want = append(want, asValue(3, s.A))
		}
		isPacked(v, want)
	}
}

func viewOfOuter(s *outerS) func(v value.Value) {
	return func(v value.Value) {
		var want []taggedV
		if s.S != nil {
			want = append(want, asValue(1, s.S))
		}
		if s.N != nil {
			want = append(want, asValue(2, s.N))
		}
		if s.P != nil {
			want = append(want, taggedV{4, viewOfInner(s.P)})
		}
		for _, r := range s.R {
			want = append(want, asValue(5, r))
		}
		if s.L != nil {
			want = append(want, taggedV{7, func(v value.Value) {
				l, ok := v.(value.List)
				sym.Assert(ok && l.Len() == len(s.L), "a list field is another list")
				for i, e := range s.L {
					sameValue(e, l.GetAt(i))
				}
			}})
		}
		for _, x := range s.X {
			want = append(want, taggedV{9, viewOfInner(x)})
		}
		if s.Q != nil {
			want = append(want, taggedV{200, func(v value.Value) {
				l, ok := v.(value.List)
				sym.Assert(ok && l.Len() == len(s.Q), "a list of structs is another list")
				for i, e := range s.Q {
					viewOfInner(e)(l.GetAt(i))
				}
			}})
		}
		isPacked(v, want)
	}
}

// anyOuter has any combination of fields, all with tags of an index.
func anyOuter(name string, set int) *outerS {
	s := &outerS{}
	if set&1 != 0 {
		s.S = value.Utf8(sym.Str(name+".s", 1))
	}
	if set&2 != 0 {
		s.N = value.Long(int64(sym.U8(name + ".n")))
		if sym.Tier() > 0 {
			s.N = value.Long(sym.I64(name + ".n"))
		}
	}
	if set&4 != 0 {
		s.P = anyInner(name + ".p")
	}
	if set&8 != 0 {
		s.R = []value.Number{value.Long(int64(int8(sym.U8(name + ".r")))), value.Double(1)}
	}
	if set&16 != 0 {
		s.L = []value.Value{elem(name + ".l"), value.Null}
	}
	if set&32 != 0 {
		s.X = []*innerS{{A: elem(name + ".x")}, {B: value.Long(int64(int8(sym.U8(name + ".y"))))}}
	}
	if set&64 != 0 {
		s.Q = []*innerS{{}, {A: elem(name + ".q")}}
	}
	return s
}

func sameOuter(a, b *outerS) {
	one := func(set bool, x, y value.Value, yset bool) {
		sym.Assert(set == yset, "an absent field is there, or a present one is not")
		if set {
			sameValue(x, y)
		}
	}
	one(a.S != nil, a.S, b.S, b.S != nil)
	one(a.N != nil, a.N, b.N, b.N != nil)
	one(a.F != nil, a.F, b.F, b.F != nil)
	sameInner(a.P, b.P)
	sym.Assert((a.R == nil) == (b.R == nil) && len(a.R) == len(b.R) && (a.L == nil) == (b.L == nil) && len(a.L) == len(b.L), "a list field has another length")
	for i := range a.R {
		sameValue(a.R[i], b.R[i])
	}
	for i := range a.L {
		sameValue(a.L[i], b.L[i])
	}
	sym.Assert((a.X == nil) == (b.X == nil) && (a.Q == nil) == (b.Q == nil), "an absent field is there, or a present one is not")
	sameInners(a.X, b.X)
	sameInners(a.Q, b.Q)
}

// every packed struct is an ordinary value
func C28_AsValue() {
	s := anyOuter("s", sym.Choose("set", 128))
	b := packStruct(s)
	v := unpack(b)
	viewOfOuter(s)(v)
	sym.Assert(sym.BytesEq(pack(v), b), "the value of a packed struct packs differently")
	r := &outerS{}
	unpackStruct(pack(v), r)
	sameOuter(s, r)
}

// also nested ones
func C28_Nested() {
	n := anyNode("n", 2+sym.Tier())
	var check func(n *nodeS) func(v value.Value)
	check = func(n *nodeS) func(v value.Value) {
		return func(v value.Value) {
			var want []taggedV
			if n.V != nil {
				want = append(want, asValue(1, n.V))
			}
			if n.Next != nil {
				want = append(want, taggedV{2, check(n.Next)})
			}
			if n.Kids != nil {
				want = append(want, taggedV{3, func(v value.Value) {
					l, ok := v.(value.List)
					sym.Assert(ok && l.Len() == len(n.Kids), "a list of structs is another list")
					for i, k := range n.Kids {
						check(k)(l.GetAt(i))
					}
				}})
			}
			for _, k := range n.Rep {
				want = append(want, taggedV{4, check(k)})
			}
			isPacked(v, want)
		}
	}
	b := packStruct(n)
	check(n)(unpack(b))
	// the value of the whole is found by its path
	if n.Next != nil && n.Next.V != nil {
		sameValue(n.Next.V, unpack(b).(value.List).GetListAt(2).GetAt(1))
	}
}

// a struct is made of a list that was built as one
func C28_FromList() {
	l := value.EmptySparseList()
	s := &outerS{}
	order := sym.Choose("order", 2)
	put := func(tag int, v value.Value) { l = l.InsertAt(tag, v) }
	set := sym.Choose("set", 64)
	for k := 0; k < 6; k++ {
		f := k
		if order == 1 {
			f = 5 - k
		}
		if set&(1<<f) == 0 {
			continue
		}
		switch f {
		case 0:
			s.S = value.Raw(sym.Bytes("s", 2), false)
			put(1, s.S)
		case 1:
			s.N = value.Double(sym.F64("n"))
			put(2, s.N)
		case 2:
			s.P = &innerS{A: elem("a"), B: value.Long(sym.I64("b"))}
			put(4, value.EmptySparseList().PutAt(3, s.P.A).PutAt(1, s.P.B))
		case 3:
			s.R = []value.Number{value.Long(int64(int8(sym.U8("r"))))}
			put(5, s.R[0])
		case 4:
			s.L = []value.Value{value.Null, elem("l")}
			put(7, value.MutableList(s.L))
		default:
			s.Q = []*innerS{{A: elem("q")}, {}}
			put(200, value.Tuple(value.EmptySparseList().PutAt(3, s.Q[0].A), value.EmptyMutableMap()))
		}
	}
	b := pack(l)
	if set == 0 {
		b = pack(value.EmptyImmutableMap())
	}
	r := &outerS{}
	unpackStruct(b, r)
	sameOuter(s, r)
	if set != 0 {
		sym.Assert(sym.BytesEq(packStruct(r), b), "a struct packs differently than the list it was made of")
	}
}

// wideLong is any of the formats of a small number.
func wideLong(name string, n int64) []byte {
	switch sym.Choose(name, 7) {
	case 0:
		return refLong(n)
	case 1:
		return hdr(0xcd, uint64(n), 2)
	case 2:
		return hdr(0xce, uint64(n), 4)
	case 3:
		return hdr(0xcf, uint64(n), 8)
	case 4:
		return hdr(0xd1, uint64(n), 2)
	case 5:
		return hdr(0xd2, uint64(n), 4)
	default:
		return hdr(0xd3, uint64(n), 8)
	}
}

func wideMap(name string, n int) []byte {
	switch sym.Choose(name, 3) {
	case 0:
		return refMap(uint64(n))
	case 1:
		return hdr(0xde, uint64(n), 2)
	default:
		return hdr(0xdf, uint64(n), 4)
	}
}

// fields come in any order and in any format
func C28_AnyOrder() {
	wide := sym.Choose("wide", 2) == 1 // formats vary, or the order does
	key := func(name string, n int64) []byte {
		if wide {
			return wideLong(name, n)
		}
		return refLong(n)
	}
	size := func(name string, n int) []byte {
		if wide {
			return wideMap(name, n)
		}
		return refMap(uint64(n))
	}
	s := &outerS{}
	s.N = value.Long(int64(sym.U8("n")))
	s.P = &innerS{A: elem("a"), B: value.Long(int64(sym.U8("b")))}
	s.R = []value.Number{value.Long(int64(int8(sym.U8("r")))), value.Long(int64(int8(sym.U8("t"))))}
	s.Q = []*innerS{{A: elem("q")}}
	var inner [2][]byte
	inner[0] = cat(key("key1", 1), pack(s.P.B))
	inner[1] = cat(refLong(3), pack(s.P.A))
	if sym.Tier() > 0 {
		inner[1] = cat(key("key3", 3), pack(s.P.A))
	}
	first := sym.Choose("first", 2)
	fields := [][]byte{
		cat(refLong(2), pack(s.N)),
		cat(hdr(0xd2, 4, 4), size("map", 2), inner[first], inner[1-first]),
		cat(refLong(5), pack(s.R[0])),
		cat(hdr(0xcd, 5, 2), pack(s.R[1])),
		cat(refLong(200), hdr(0xdc, 1, 2), size("map1", 1), refLong(3), pack(s.Q[0].A)),
	}
	// any order, but that of the repeated field
	perm, left := []byte(nil), []int{0, 1, 2, 3, 4}
	for len(left) > 0 {
		i := 0
		if !wide || sym.Tier() > 0 && len(left) == 5 {
			i = sym.Choose("next", len(left))
		}
		if left[i] == 3 {
			for _, l := range left {
				sym.Assume(l != 2)
			}
		}
		perm = cat(perm, fields[left[i]])
		left = append(append([]int(nil), left[:i]...), left[i+1:]...)
	}
	b := cat(refMap(5), perm)
	r := &outerS{}
	unpackStruct(b, r)
	sameOuter(s, r)
	viewOfOuter(s)(unpack(b))
}

// what follows a struct is still there
func C28_Among() {
	set := sym.Choose("set", 128)
	if sym.Tier() == 0 {
		// at most one field, or all of them but one
		sym.Assume(set&(set-1) == 0 || (127^set)&(126^set) == 0)
	}
	s, t := anyOuter("s", set), anyInner("t")
	b1, b2 := packStruct(s), packStruct(t)
	v := value.Utf8(sym.Str("v", 2))
	all := cat(pack(value.True), b1, pack(v), b2)
	sch := schemaOfInner()
	var u value.Unpacker
	if sym.Choose("reader", 2) == 1 {
		u = value.MessageReader(bytes.NewReader(all))
	} else {
		u = value.MessageUnpacker(all, sym.Choose("copy", 2) == 1)
	}
	p := value.MessageParser()
	x, err := value.Parse(u, p)
	sym.Assert(err == nil, "a value before a struct is not read")
	sameValue(value.True, x)
	x, err = value.Parse(u, p)
	sym.Assert(err == nil, "a struct is not read as a value")
	viewOfOuter(s)(x)
	x, err = value.Parse(u, p)
	sym.Assert(err == nil, "a value after a struct is not read")
	sameValue(v, x)
	r := &innerS{}
	sym.Assert(value.ParseStruct(u, p, reflect.ValueOf(r).Elem(), sch) == nil, "a struct after values is not read")
	sameInner(t, r)
	f, _ := u.Next()
	sym.Assert(f == value.EOF, "a struct takes less or more than its bytes")
}

// schemaOfInner is that of innerS, as doc comments describe it.
func schemaOfInner() *value.Schema {
	cls := reflect.TypeOf(innerS{})
	a := &value.Field{FieldNum: 0, FieldName: "A", FieldType: cls.Field(0).Type, Tag: 3}
	b := &value.Field{FieldNum: 1, FieldName: "B", FieldType: cls.Field(1).Type, Tag: 1}
	return &value.Schema{Fields: map[int]*value.Field{3: a, 1: b}, SortedFields: []*value.Field{b, a}}
}

// structs one after the other, values between them
func C28_Sequence() {
	t := []*innerS{anyInner("t0"), anyInner("t1"), anyInner("t2")}
	var all []byte
	for i, s := range t {
		all = cat(all, packStruct(s))
		if i == 1 {
			all = cat(all, pack(elem("e")))
		}
	}
	var u value.Unpacker
	if sym.Choose("reader", 2) == 1 {
		u = value.MessageReader(bytes.NewReader(all))
	} else {
		u = value.MessageUnpacker(all, sym.Choose("copy", 2) == 1)
	}
	p := value.MessageParser()
	for i, s := range t {
		r := &innerS{}
		sym.Assert(value.ParseStruct(u, p, reflect.ValueOf(r).Elem(), schemaOfInner()) == nil, "a struct in a sequence is not read")
		sameInner(s, r)
		if i == 1 {
			_, err := value.Parse(u, p)
			sym.Assert(err == nil, "a value after a struct is not read")
		}
	}
	f, _ := u.Next()
	sym.Assert(f == value.EOF, "a struct takes less or more than its bytes")
	// input that ends inside of the last one
	cut := all[:len(all)-1]
	u, p = value.MessageUnpacker(cut, false), value.MessageParser()
	var err error
	for i := 0; i < 4 && err == nil; i++ {
		if i == 2 {
			_, err = value.Parse(u, p)
			continue
		}
		err = value.ParseStruct(u, p, reflect.ValueOf(&innerS{}).Elem(), schemaOfInner())
	}
	sym.Assert(err != nil, "a struct that is cut off is read")
}

// large tags and many fields
type farS struct {
	A value.Value   `tag:"0"`
	B value.Value   `tag:"127"`
	C value.Value   `tag:"128"`
	D value.Value   `tag:"65535"`
	E value.Value   `tag:"65536"`
	F value.Value   `tag:"4294967296"`
	G []value.Value `tag:"9223372036854775807" repeated:"true"`
}

func C28_FarTags() {
	s := &farS{}
	var want []taggedV
	set := sym.Choose("set", 128)
	dst := []*value.Value{&s.A, &s.B, &s.C, &s.D, &s.E, &s.F}
	tags := []int{0, 127, 128, 65535, 65536, 4294967296}
	for i, d := range dst {
		if set&(1<<i) != 0 {
			*d = elem("v")
			want = append(want, asValue(tags[i], *d))
		}
	}
	if set&64 != 0 {
		s.G = []value.Value{elem("g"), value.Utf8("g")}
		for _, g := range s.G {
			want = append(want, asValue(1<<63-1, g))
		}
	}
	b := packStruct(s)
	isPacked(unpack(b), want)
	r := &farS{}
	unpackStruct(b, r)
	sym.Assert(sym.BytesEq(packStruct(r), b), "a struct with far tags does not round-trip")
	for i, d := range []*value.Value{&r.A, &r.B, &r.C, &r.D, &r.E, &r.F} {
		sym.Assert((*d != nil) == (*dst[i] != nil), "an absent field is there, or a present one is not")
		if *d != nil {
			sameValue(*dst[i], *d)
		}
	}
}

type sixteenS struct {
	F00 value.Value `tag:"16"`
	F01 value.Value `tag:"15"`
	F02 value.Value `tag:"14"`
	F03 value.Value `tag:"13"`
	F04 value.Value `tag:"12"`
	F05 value.Value `tag:"11"`
	F06 value.Value `tag:"10"`
	F07 value.Value `tag:"9"`
	F08 value.Value `tag:"8"`
	F09 value.Value `tag:"7"`
	F10 value.Value `tag:"6"`
	F11 value.Value `tag:"5"`
	F12 value.Value `tag:"4"`
	F13 value.Value `tag:"3"`
	F14 value.Value `tag:"2"`
	F15 value.Value `tag:"1"`
	F16 value.Value `tag:"0"`
}

// more fields than fit in the shortest header
func C28_ManyFields() {
	s := &sixteenS{}
	n := 14 + sym.Choose("n", 4)
	var want []taggedV
	rv := reflect.ValueOf(s).Elem()
	for i := n - 1; i >= 0; i-- {
		e := elem("e")
		rv.Field(i).Set(reflect.ValueOf(e))
		want = append(want, asValue(16-i, e))
	}
	b := packStruct(s)
	isPacked(unpack(b), want)
	r := &sixteenS{}
	unpackStruct(b, r)
	sym.Assert(sym.BytesEq(packStruct(r), b), "a struct with many fields does not round-trip")
	for i := 0; i < 17; i++ {
		f := reflect.ValueOf(r).Elem().Field(i)
		sym.Assert(f.IsNil() == (i >= n), "an absent field is there, or a present one is not")
	}
}

// fields with more items than fit in the shortest header
func C28_Lengths() {
	n := []int{3, 14, 15, 16, 17, 20, 33, 300}[sym.Choose("n", 8)]
	s := &outerS{}
	for i := 0; i < n; i++ {
		e := value.Number(value.Long(int64(i * 37)))
		if i == 1 || i == n-1 {
			e = elem("e").(value.Number)
		}
		s.R = append(s.R, e)
		s.L = append(s.L, e)
		s.X = append(s.X, &innerS{A: e})
		s.Q = append(s.Q, &innerS{B: e})
	}
	switch sym.Choose("only", 5) {
	case 0:
		s.L, s.X, s.Q = nil, nil, nil
	case 1:
		s.R, s.X, s.Q = nil, nil, nil
	case 2:
		s.R, s.L, s.Q = nil, nil, nil
	case 3:
		s.R, s.L, s.X = nil, nil, nil
	}
	b := packStruct(s)
	viewOfOuter(s)(unpack(b))
	r := &outerS{}
	unpackStruct(b, r)
	sameOuter(s, r)
	// what follows is still there
	sch := schemaOfInner()
	u, p := value.MessageUnpacker(cat(b, packStruct(&innerS{A: value.One})), false), value.MessageParser()
	v, err := value.Parse(u, p)
	sym.Assert(err == nil && v != nil, "a struct is not read as a value")
	i := &innerS{}
	sym.Assert(value.ParseStruct(u, p, reflect.ValueOf(i).Elem(), sch) == nil, "a struct after values is not read")
	sameValue(value.One, i.A)
}

// a struct with only one field, which is repeated, read one after the other
type repS struct {
	V []value.Value `tag:"1" repeated:"true"`
}

func schemaOfRep() *value.Schema {
	f := &value.Field{FieldNum: 0, FieldName: "V", FieldType: reflect.TypeOf(repS{}).Field(0).Type, Array: true, Repeated: true, Tag: 1}
	return &value.Schema{Fields: map[int]*value.Field{1: f}, SortedFields: []*value.Field{f}}
}

func C28_Repeated() {
	sizes := []int{0, 1, 2, 3, 15, 16, 17, 18, 33, 65, 300}
	var all []byte
	var s [2]*repS
	for k := range s {
		s[k] = &repS{}
		for i, n := 0, sizes[sym.Choose("n", len(sizes))]; i < n; i++ {
			e := value.Number(value.Long(int64(i)))
			if i == n-1 {
				e = elem("e").(value.Number)
			}
			s[k].V = append(s[k].V, e)
		}
		all = cat(all, packStruct(s[k]))
	}
	var u value.Unpacker
	if sym.Choose("reader", 2) == 1 {
		u = value.MessageReader(bytes.NewReader(all))
	} else {
		u = value.MessageUnpacker(all, false)
	}
	p := value.MessageParser()
	for k := range s {
		r := &repS{}
		sym.Assert(value.ParseStruct(u, p, reflect.ValueOf(r).Elem(), schemaOfRep()) == nil, "a struct in a sequence is not read")
		sym.Assert(len(r.V) == len(s[k].V), "a repeated field is restored with another length")
		for i, e := range s[k].V {
			sameValue(e, r.V[i])
		}
	}
	f, _ := u.Next()
	sym.Assert(f == value.EOF, "a struct takes less or more than its bytes")
}

// many items of a repeated field, with others between them and in any order,
// keep their order on the way through a value
func C28_RepeatedThroughValue() {
	n := []int{2, 11, 13, 20, 40}[sym.Choose("n", 5)]
	others := [][]byte{
		cat(refLong(1), pack(value.Utf8("s"))),
		cat(refLong(2), pack(value.Long(7))),
		cat(refLong(200), refList(0)),
	}
	if sym.Choose("order", 2) == 1 {
		others[0], others[2] = others[2], others[0]
	}
	b := refMap(uint64(n + len(others)))
	var want []value.Value
	for i := 0; i < n; i++ {
		if at := i * len(others) / n; i > 0 && at != (i-1)*len(others)/n {
			b = append(b, others[at-1]...)
		}
		e := value.Value(value.Long(int64(i)))
		if i == n/2 {
			e = elem("e")
		}
		want = append(want, e)
		b = cat(b, refLong(5), pack(e))
	}
	done := (n - 1) * len(others) / n
	for _, o := range others[done:] {
		b = append(b, o...)
	}
	v := unpack(b)
	sameElems(v.(value.List).Select(5), want, "the items of a repeated field are in another order")
	for _, in := range [][]byte{b, pack(v)} {
		s := &outerS{}
		sym.Assert(value.UnpackStruct(in, s, true) == nil, "a struct is not read")
		sym.Assert(len(s.R) == n, "a repeated field has another number of items")
		for i, r := range s.R {
			sameValue(want[i], r)
		}
		sym.Assert(s.S != nil && s.N != nil && s.N.Long() == 7, "another field is lost")
	}
}

// fields of values of every kind, at any depth
type kindS struct {
	Z value.Value   `tag:"0"`
	F value.Value   `tag:"1"`
	L []value.Value `tag:"2"`
	R []value.Value `tag:"3" repeated:"true"`
	N *kindS        `tag:"4"`
	M []*kindS      `tag:"5"`
}

func someKind() value.Value {
	v := nextKind()
	if v == nil {
		v = nextKind()
	}
	return v
}

func sameKindS(a, b *kindS) {
	one := func(a, b value.Value) {
		sym.Assert((a == nil) == (b == nil), "an absent field is there, or a present one is not")
		if a != nil {
			sym.Assert(sameKind(a, b), "a field is restored as another value")
		}
	}
	one(a.Z, b.Z)
	one(a.F, b.F)
	sym.Assert((a.L == nil) == (b.L == nil) && len(a.L) == len(b.L) && len(a.R) == len(b.R) && len(a.M) == len(b.M) && (a.N == nil) == (b.N == nil), "a field has another length")
	for i := range a.L {
		one(a.L[i], b.L[i])
	}
	for i := range a.R {
		one(a.R[i], b.R[i])
	}
	for i := range a.M {
		sameKindS(a.M[i], b.M[i])
	}
	if a.N != nil {
		sameKindS(a.N, b.N)
	}
}

func viewOfKindS(s *kindS) func(v value.Value) {
	return func(v value.Value) {
		var want []taggedV
		same := func(w value.Value) func(v value.Value) {
			return func(v value.Value) { sym.Assert(sameKind(w, v), "a field is another value") }
		}
		if s.Z != nil {
			want = append(want, taggedV{0, same(s.Z)})
		}
		if s.F != nil {
			want = append(want, taggedV{1, same(s.F)})
		}
		if s.L != nil {
			want = append(want, taggedV{2, func(v value.Value) {
				l, ok := v.(value.List)
				sym.Assert(ok && l.Len() == len(s.L), "a list field is another list")
				for i, e := range s.L {
					same(e)(l.GetAt(i))
				}
			}})
		}
		for _, r := range s.R {
			want = append(want, taggedV{3, same(r)})
		}
		if s.N != nil {
			want = append(want, taggedV{4, viewOfKindS(s.N)})
		}
		if s.M != nil {
			want = append(want, taggedV{5, func(v value.Value) {
				l, ok := v.(value.List)
				sym.Assert(ok && l.Len() == len(s.M), "a list of structs is another list")
				for i, e := range s.M {
					viewOfKindS(e)(l.GetAt(i))
				}
			}})
		}
		isPacked(v, want)
	}
}

func C28_Kinds() {
	rainbowOn()
	set := []int{0, 1, 2, 4, 8, 15, 7, 11, 13, 14, 3, 5, 6, 9, 10, 12}[sym.Choose("set", 6+10*sym.Tier())]
	s := &kindS{}
	if set&1 != 0 {
		s.Z = someKind()
	}
	if set&2 != 0 {
		s.F = someKind()
	}
	if set&4 != 0 {
		s.L = []value.Value{someKind(), someKind()}
	}
	if set&8 != 0 {
		s.R = []value.Value{someKind(), someKind()}
	}
	for i, how := 0, sym.Choose("depth", 9); i < how%3; i++ {
		switch how / 3 {
		case 0:
			s = &kindS{N: s}
		case 1:
			s = &kindS{M: []*kindS{s}}
		default:
			s = &kindS{Z: value.Null, N: &kindS{F: value.False}, M: []*kindS{{}, s}}
		}
	}
	b := packStruct(s)
	v := unpack(b)
	viewOfKindS(s)(v)
	r := &kindS{}
	unpackStruct(b, r)
	sameKindS(s, r)
	r = &kindS{}
	unpackStruct(pack(v), r)
	sameKindS(s, r)
}
