package props

import (
	"github.com/codeallergy/value"
	"verif/harness/sym"
)

type innerS struct {
	A value.Value  `tag:"3"`
	B value.Number `tag:"1"`
}

type outerS struct {
	N value.Number   `tag:"2"`
	S value.String   `tag:"1"`
	L []value.Value  `tag:"7"`
	R []value.Number `tag:"5" repeated:"true"`
	P *innerS        `tag:"4"`
	Q []*innerS      `tag:"200"`
	X []*innerS      `tag:"9" repeated:"1"`
	F value.Bool     `tag:"-3"`
}

type kindsS struct {
	V value.Value     `tag:"1"`
	B value.Bool      `tag:"2"`
	N value.Number    `tag:"3"`
	S value.String    `tag:"4"`
	L value.List      `tag:"5"`
	M value.Map       `tag:"6"`
	E value.Extension `tag:"7"`
}

type nodeS struct {
	V    value.Value `tag:"1"`
	Next *nodeS      `tag:"2"`
	Kids []*nodeS    `tag:"3"`
	Rep  []*nodeS    `tag:"4" repeated:"true"`
}

type arrayS struct {
	A [2]value.Value `tag:"1"`
	P [2]*innerS     `tag:"2"`
}

func anyInner(name string) *innerS {
	s := &innerS{}
	k := sym.Choose(name, 4)
	if k&1 != 0 {
		s.A = elem(name)
	}
	if k&2 != 0 {
		s.B = value.Long(int64(int8(sym.U8(name))))
	}
	return s
}

func refInner(s *innerS) []byte {
	n, out := 0, []byte(nil)
	if s.B != nil {
		n++
		out = cat(out, refLong(1), pack(s.B))
	}
	if s.A != nil {
		n++
		out = cat(out, refLong(3), pack(s.A))
	}
	return cat(refMap(uint64(n)), out)
}

func sameValue(a, b value.Value) {
	if a == nil {
		sym.Assert(b == nil, "an absent field is not absent any more")
		return
	}
	sym.Assert(b != nil && b.Kind() == a.Kind() && sym.BytesEq(pack(a), pack(b)), "a field is restored with another value")
	if !hasNaN(a) {
		sym.Assert(value.Equal(a, b), "a field is restored with another value")
	}
}

func sameInner(a, b *innerS) {
	if a == nil {
		sym.Assert(b == nil, "an absent field is not absent any more")
		return
	}
	sym.Assert(b != nil, "a nested struct is not restored")
	sameValue(a.A, b.A)
	if a.B == nil {
		sym.Assert(b.B == nil, "an absent field is not absent any more")
	} else {
		sameValue(a.B, b.B)
	}
}

func sameInners(a, b []*innerS) {
	sym.Assert(len(a) == len(b), "a list of structs is restored with another length")
	for i := range a {
		sameInner(a[i], b[i])
	}
}

// packStruct also checks that packing is deterministic.
func packStruct(s interface{}) []byte {
	b, err := value.PackStruct(s)
	sym.Assert(err == nil, "packing a struct fails")
	c, err := value.PackStruct(s)
	sym.Assert(err == nil && sym.BytesEq(b, c), "packing a struct again gives other bytes")
	return b
}

func unpackStruct(b []byte, s interface{}) {
	sym.Assert(value.UnpackStruct(b, s, sym.Choose("copy", 2) == 1) == nil, "unpacking a struct fails")
}

// any combination of absent and present fields
func C23_Fields() {
	s := &outerS{}
	set := sym.Choose("set", 256)
	n, want := 0, []byte(nil)
	add := func(tag int64, b ...[]byte) {
		n++
		want = cat(want, refLong(tag), cat(b...))
	}
	if set&128 != 0 {
		s.F = value.Boolean(sym.Bool("f"))
		add(-3, pack(s.F))
	}
	if set&1 != 0 {
		s.S = value.Utf8(sym.Str("s", 1))
		add(1, pack(s.S))
	}
	if set&2 != 0 {
		s.N = value.Long(int64(sym.U8("n")))
		add(2, pack(s.N))
	}
	if set&4 != 0 {
		s.P = &innerS{B: value.Long(int64(int8(sym.U8("b"))))}
		add(4, refInner(s.P))
	}
	if set&8 != 0 {
		s.R = []value.Number{value.Long(int64(int8(sym.U8("r")))), value.Double(1)}
		add(5, pack(s.R[0]))
		add(5, pack(s.R[1]))
	}
	if set&16 != 0 {
		s.L = []value.Value{elem("l"), value.Null}
		add(7, refList(2), pack(s.L[0]), []byte{0xc0})
	}
	if set&32 != 0 {
		s.X = []*innerS{{A: elem("x")}, {}}
		add(9, refInner(s.X[0]))
		add(9, refInner(s.X[1]))
	}
	if set&64 != 0 {
		s.Q = []*innerS{{}, {A: elem("q")}}
		add(200, refList(2), refInner(s.Q[0]), refInner(s.Q[1]))
	}
	b := packStruct(s)
	sym.Assert(sym.BytesEq(b, cat(refMap(uint64(n)), want)), "fields are not written in the order of their tags, each with its tag")
	r := &outerS{}
	unpackStruct(b, r)
	if s.F == nil {
		sym.Assert(r.F == nil, "an absent field is not absent any more")
	} else {
		sameValue(s.F, r.F)
	}
	if s.S == nil {
		sym.Assert(r.S == nil, "an absent field is not absent any more")
	} else {
		sameValue(s.S, r.S)
	}
	if s.N == nil {
		sym.Assert(r.N == nil, "an absent field is not absent any more")
	} else {
		sameValue(s.N, r.N)
	}
	sameInner(s.P, r.P)
	sym.Assert((s.R == nil) == (r.R == nil) && len(s.R) == len(r.R), "a repeated field is restored with another length")
	for i := range s.R {
		sameValue(s.R[i], r.R[i])
	}
	sym.Assert((s.L == nil) == (r.L == nil) && len(s.L) == len(r.L), "a list field is restored with another length")
	for i := range s.L {
		sameValue(s.L[i], r.L[i])
	}
	sym.Assert((s.X == nil) == (r.X == nil) && (s.Q == nil) == (r.Q == nil), "an absent field is not absent any more")
	sameInners(s.X, r.X)
	sameInners(s.Q, r.Q)
}

// lists of any length
func C23_Lengths() {
	n := sym.Choose("n", 5)
	if n == 4 {
		n = []int{15, 16, 17, 300}[sym.Choose("long", 4)]
	}
	s := &outerS{}
	for i := 0; i < n; i++ {
		v := value.Value(value.Long(int64(i)))
		var in *innerS
		if i == 1 {
			v, in = elem("e"), anyInner("in")
		} else {
			in = &innerS{A: v}
		}
		s.L = append(s.L, v)
		s.R = append(s.R, v.(value.Number))
		s.X = append(s.X, in)
		s.Q = append(s.Q, in)
	}
	b := packStruct(s)
	r := &outerS{}
	unpackStruct(b, r)
	sym.Assert(len(r.L) == n && len(r.R) == n, "a list field is restored with another length")
	for i := range s.L {
		sameValue(s.L[i], r.L[i])
		sameValue(s.R[i], r.R[i])
	}
	sameInners(s.X, r.X)
	sameInners(s.Q, r.Q)
	sym.Assert(sym.BytesEq(packStruct(r), b), "packing what was restored gives other bytes")
}

// an empty list is not an absent one
func C23_EmptyList() {
	s := &outerS{L: []value.Value{}, Q: []*innerS{}}
	r := &outerS{}
	unpackStruct(packStruct(s), r)
	sym.Assert(r.L != nil && len(r.L) == 0 && r.Q != nil && len(r.Q) == 0, "an empty list is not restored")
}

// fields of every type with values of every kind
func C23_Kinds() {
	v := anyValue("v")
	s := &kindsS{V: v}
	switch x := v.(type) {
	case value.Bool:
		s.B = x
	case value.Number:
		s.N = x
	case value.String:
		s.S = x
	case value.List:
		s.L = x
	case value.Map:
		s.M = x
	case value.Extension:
		s.E = x
	}
	b := packStruct(s)
	r := &kindsS{}
	unpackStruct(b, r)
	sameValue(s.V, r.V)
	sym.Assert((s.B == nil) == (r.B == nil) && (s.N == nil) == (r.N == nil) && (s.S == nil) == (r.S == nil) && (s.L == nil) == (r.L == nil) && (s.M == nil) == (r.M == nil) && (s.E == nil) == (r.E == nil), "another field is restored")
	sym.Assert(sym.BytesEq(packStruct(r), b), "packing what was restored gives other bytes")
}

// anyNode is a tree of some depth.
func anyNode(name string, depth int) *nodeS {
	n := &nodeS{V: elem(name)}
	if depth == 0 {
		return n
	}
	switch sym.Choose(name, 6) {
	case 1:
		n.Next = anyNode(name, depth-1)
	case 2:
		n.Kids = []*nodeS{anyNode(name, depth-1), {}}
	case 3:
		n.Rep = []*nodeS{{V: elem(name)}, anyNode(name, depth-1)}
	case 4:
		n.Next = anyNode(name, depth-1)
		n.Kids = []*nodeS{{}, {V: elem(name)}}
	case 5:
		n.V = nil
		n.Next = &nodeS{}
		n.Rep = []*nodeS{anyNode(name, depth-1)}
	}
	return n
}

func sameNode(a, b *nodeS) {
	if a == nil {
		sym.Assert(b == nil, "an absent struct is not absent any more")
		return
	}
	sym.Assert(b != nil, "a nested struct is not restored")
	sameValue(a.V, b.V)
	sameNode(a.Next, b.Next)
	sym.Assert(len(a.Kids) == len(b.Kids) && len(a.Rep) == len(b.Rep), "a list of structs is restored with another length")
	for i := range a.Kids {
		sameNode(a.Kids[i], b.Kids[i])
	}
	for i := range a.Rep {
		sameNode(a.Rep[i], b.Rep[i])
	}
}

func C23_Recursive() {
	s := anyNode("n", 3+sym.Tier())
	r := &nodeS{}
	unpackStruct(packStruct(s), r)
	sameNode(s, r)
}

func C23_Arrays() {
	s := &arrayS{}
	s.A = [2]value.Value{elem("a"), value.Utf8(sym.Str("s", 1))}
	s.P = [2]*innerS{anyInner("p"), anyInner("p")}
	b := packStruct(s)
	r := &arrayS{}
	unpackStruct(b, r)
	sameValue(s.A[0], r.A[0])
	sameValue(s.A[1], r.A[1])
	sameInner(s.P[0], r.P[0])
	sameInner(s.P[1], r.P[1])
	// another length does not fit
	n := []int{0, 1, 3, 4}[sym.Choose("n", 4)]
	m := cat(refMap(1), refLong(1), refList(uint64(n)))
	for i := 0; i < n; i++ {
		m = append(m, 1)
	}
	sym.Assert(value.UnpackStruct(m, &arrayS{}, false) != nil, "a list of another length fits an array")
}

func structFails(b []byte, s interface{}) {
	sym.Assert(value.UnpackStruct(b, s, true) != nil, "input that does not fit the struct is accepted")
}

// any tag: only the known ones are accepted
func C23_UnknownTag() {
	tag := sym.I64("tag")
	wide := sym.Choose("format", 3)
	var key []byte
	switch wide {
	case 0:
		key = refLong(tag)
	case 1:
		key = hdr(0xd3, uint64(tag), 8)
	default:
		tag = int64(int16(tag))
		key = hdr(0xd1, uint64(tag), 2)
	}
	v := elem("v")
	s := &kindsS{}
	err := value.UnpackStruct(cat(refMap(1), key, pack(v)), s, true)
	switch tag {
	case 1:
		sym.Assert(err == nil, "a known tag is rejected")
		sameValue(v, s.V)
		sym.Assert(s.N == nil, "another field is set")
	case 3:
		sym.Assert(err == nil, "a known tag is rejected")
		sameValue(v, s.N)
		sym.Assert(s.V == nil, "another field is set")
	default:
		sym.Assert(err != nil, "an unknown tag or a wrong type is accepted")
		sym.Assert(s.V == nil && s.N == nil, "a field is set that has another tag")
	}
}

// keys that are no integers
func C23_NoTag() {
	var key []byte
	switch sym.Choose("key", 8) {
	case 0:
		key = []byte{0xc0}
	case 1:
		key = []byte{0xc2 | sym.U8("b")&1}
	case 2:
		key = hdr(0xcb, sym.U64("d"), 8)
	case 3:
		key = pack(value.Utf8("1"))
	case 4:
		key = pack(value.BigInt(bigOf(int64(int8(sym.U8("z"))))))
	case 5:
		key = pack(value.Tuple(value.Long(1)))
	case 6:
		key = hdr(0xca, uint64(sym.U32("f")), 4)
	default:
		key = pack(value.Raw([]byte("1"), false))
	}
	s := &kindsS{}
	structFails(cat(refMap(1), key, pack(elem("v"))), s)
	sym.Assert(s.V == nil && s.N == nil, "a field is set that has another tag")
}

// a value of any kind for a field of any type
func C23_WrongType() {
	v := anyValue("v")
	tag := 2 + sym.Choose("field", 6)
	s := &kindsS{}
	err := value.UnpackStruct(cat(refMap(1), refLong(int64(tag)), pack(v)), s, true)
	k := v.Kind()
	fits := false
	switch tag {
	case 2:
		fits = k == value.BOOL
	case 3:
		fits = k == value.NUMBER
	case 4:
		fits = k == value.STRING
	case 5:
		fits = k == value.LIST && !(len(v.(value.List).Items()) == 0 && pack(v)[0] == 0x80)
	case 6:
		fits = k == value.MAP || pack(v)[0] == 0x80
	default:
		fits = k == value.UNKNOWN
	}
	sym.Assert((err == nil) == fits, "a value of the wrong type is accepted, or one of the right type is not")
}

// something else than the struct or the list that belongs there
func C23_WrongShape() {
	var other []byte
	switch sym.Choose("other", 7) {
	case 0:
		other = []byte{0xc0}
	case 1:
		other = pack(elem("v"))
	case 2:
		other = pack(value.Utf8(sym.Str("s", 1)))
	case 3:
		other = pack(value.True)
	case 4:
		other = []byte{0xd4, 0x44, sym.U8("x")}
	case 5:
		other = hdr(0xcb, sym.U64("d"), 8)
	default:
		other = pack(value.Raw(sym.Bytes("r", 1), false))
	}
	list := cat(refList(1), other)
	switch sym.Choose("where", 8) {
	case 0:
		structFails(other, &outerS{})
	case 1:
		structFails(list, &outerS{})
	case 2:
		structFails(cat(refMap(1), refLong(4), other), &outerS{}) // a struct
	case 3:
		structFails(cat(refMap(1), refLong(4), list), &outerS{})
	case 4:
		structFails(cat(refMap(1), refLong(7), other), &outerS{}) // a list
	case 5:
		structFails(cat(refMap(1), refLong(200), list), &outerS{}) // a list of structs
	case 6:
		structFails(cat(refMap(1), refLong(9), list), &outerS{}) // a repeated struct
	default:
		structFails(cat(refMap(1), refLong(200), refMap(0)), &outerS{})
	}
}

// every strict prefix
func C23_Truncated() {
	s := &outerS{}
	switch sym.Choose("what", 5) {
	case 0:
		s.N, s.S = value.Long(int64(sym.U16("n"))), value.Utf8(sym.Str("s", 2))
	case 1:
		s.P, s.X = anyInner("p"), []*innerS{anyInner("x"), {}}
	case 2:
		s.L, s.R = []value.Value{elem("l"), value.Tuple(elem("m"))}, []value.Number{value.Long(int64(sym.U8("r")))}
	case 3:
		s.Q = []*innerS{anyInner("q"), anyInner("q")}
	default:
		s.R, s.F = []value.Number{value.Double(2)}, value.True
	}
	b := packStruct(s)
	cut := sym.Choose("cut", len(b))
	structFails(b[:cut], &outerS{})
}

// any bytes
func C23_AnyBytes() {
	n := 1 + sym.Choose("n", 4+sym.Tier())
	b := sym.Bytes("b", n)
	s := &outerS{}
	if value.UnpackStruct(b, s, sym.Choose("copy", 2) == 1) != nil {
		return
	}
	// what was accepted is a struct that can be packed
	p := packStruct(s)
	r := &outerS{}
	sym.Assert(value.UnpackStruct(p, r, true) == nil, "a restored struct does not round-trip")
	sym.Assert(sym.BytesEq(packStruct(r), p), "a restored struct does not round-trip")
}

func C23_NodeBytes() {
	n := 1 + sym.Choose("n", 4+sym.Tier())
	// around the tags
	b := cat([]byte{0x81, 1 + byte(sym.Choose("tag", 4))}, sym.Bytes("b", n))
	s := &nodeS{}
	if value.UnpackStruct(b, s, true) != nil {
		return
	}
	p := packStruct(s)
	r := &nodeS{}
	sym.Assert(value.UnpackStruct(p, r, true) == nil, "a restored struct does not round-trip")
	sameNode(s, r)
}

func packFails(s interface{}) {
	b, err := value.PackStruct(s)
	sym.Assert(err != nil && len(b) == 0, "a struct that can not be packed is packed")
}

type unexportedS struct {
	v value.Value `tag:"1"`
}
type noTagS struct{ V value.Value }
type badTagS struct {
	V value.Value `tag:"one"`
}
type sameTagS struct {
	V value.Value `tag:"1"`
	W value.Value `tag:"1"`
}
type intS struct {
	V int64 `tag:"1"`
}
type intPtrS struct {
	V *int `tag:"1"`
}
type badInnerS struct {
	V *noTagS `tag:"1"`
}

// nil pointers and types that are no schema
type repArrayS struct {
	A [2]value.Value `tag:"1" repeated:"true"`
}

func C23_Invalid() {
	n := 5
	bad := []interface{}{(*outerS)(nil), outerS{}, 5, "x", &n, &noTagS{}, &badTagS{}, &sameTagS{}, &intS{}, &intPtrS{}, &badInnerS{}, &[]int{1}, &repArrayS{}}
	nils := []interface{}{
		&outerS{L: []value.Value{elem("e"), nil}},
		&outerS{R: []value.Number{nil}},
		&outerS{Q: []*innerS{nil}},
		&outerS{X: []*innerS{{}, nil}},
		&nodeS{Kids: []*nodeS{{Next: &nodeS{Kids: []*nodeS{nil}}}}},
		&arrayS{},
		&unexportedS{elem("e")},
	}
	i := sym.Choose("what", len(bad)+len(nils))
	if i < len(bad) {
		packFails(bad[i])
		structFails(refMap(0), bad[i])
		structFails(cat(refMap(1), refLong(1), pack(elem("v"))), bad[i])
	} else {
		packFails(nils[i-len(bad)])
	}
	structFails(refMap(0), nil)
	structFails(cat(refMap(1), refLong(1), pack(elem("v"))), &unexportedS{})
	b, err := value.PackStruct(nil)
	sym.Assert(err == nil && len(b) == 1 && b[0] == 0xc0, "nil is not packed as nil")
}

// values are packed as themselves
func C23_Value() {
	v := anyValue("v")
	b, err := value.PackStruct(v)
	sym.Assert(err == nil && sym.BytesEq(b, pack(v)), "a value is not packed as itself")
}

// no memory is shared with the input when copying
func C23_Copy() {
	s := &outerS{S: value.Utf8(sym.Str("s", 2)), L: []value.Value{value.Raw(sym.Bytes("r", 2), false)}, P: &innerS{A: value.Unknown([]byte{9, sym.U8("u")})}}
	b := packStruct(s)
	keep := append([]byte(nil), b...)
	r := &outerS{}
	sym.Assert(value.UnpackStruct(b, r, true) == nil, "unpacking a struct fails")
	clobber(b)
	sym.Assert(sym.BytesEq(packStruct(r), keep), "a restored struct changes with the input")
}

// a struct that holds values already: what is received replaces them
func C23_Filled() {
	have := sym.Choose("have", 5)
	capacity := have + []int{0, 1, 4}[sym.Choose("spare", 3)]
	n := sym.Choose("n", 4)
	old := value.Long(77)
	r := &outerS{N: old, F: value.False, P: &innerS{B: old}}
	r.L = make([]value.Value, have, capacity)
	r.Q = make([]*innerS, have, capacity)
	r.R = make([]value.Number, have, capacity)
	for i := 0; i < have; i++ {
		r.L[i], r.Q[i], r.R[i] = old, &innerS{B: old, A: old}, old
	}
	s := &outerS{S: value.Utf8(sym.Str("s", 1)), N: value.Long(int64(int8(sym.U8("n")))), P: &innerS{A: elem("p")}, L: []value.Value{}, Q: []*innerS{}}
	for i := 0; i < n; i++ {
		var v value.Value = value.Long(int64(i))
		if i == 0 {
			v = elem("e")
		}
		s.L = append(s.L, v)
		s.Q = append(s.Q, &innerS{A: v})
		s.R = append(s.R, value.Long(int64(i)))
	}
	b := packStruct(s)
	unpackStruct(b, r)
	sameValue(s.S, r.S)
	sameValue(s.N, r.N)
	sameValue(value.False, r.F)
	sym.Assert(r.P.B == old, "a field that is not received is not kept")
	sameValue(s.P.A, r.P.A)
	sym.Assert(len(r.L) == n && len(r.R) == have+n, "a list field is restored with another length")
	for i := range s.L {
		sameValue(s.L[i], r.L[i])
		sameValue(s.R[i], r.R[have+i])
	}
	for i := 0; i < have; i++ {
		sameValue(old, r.R[i])
	}
	sameInners(s.Q, r.Q)
}

// types of the same name
func namedA(v value.Value) (interface{}, func() value.Value) {
	type S struct {
		V value.Value  `tag:"1"`
		N value.Number `tag:"2"`
	}
	s := &S{V: v}
	return s, func() value.Value { return s.V }
}

func namedB(v value.Value) (interface{}, func() value.Value) {
	type S struct {
		N value.Number `tag:"1"`
		V value.Value  `tag:"2"`
	}
	s := &S{V: v}
	return s, func() value.Value { return s.V }
}

func namedC(v value.Value) (interface{}, func() value.Value) {
	type S struct {
		V value.Value `tag:"7"`
	}
	s := &S{V: v}
	return s, func() value.Value { return s.V }
}

func C23_SameName() {
	v := value.Utf8(sym.Str("s", 1))
	mk := []func(value.Value) (interface{}, func() value.Value){namedA, namedB, namedC}
	tags := []int64{1, 2, 7}
	for i := 0; i < 3; i++ {
		j := sym.Choose("type", 3)
		s, _ := mk[j](v)
		b := packStruct(s)
		sym.Assert(sym.BytesEq(b, cat(refMap(1), refLong(tags[j]), pack(v))), "a struct is packed with the tags of another type")
		r, get := mk[j](nil)
		unpackStruct(b, r)
		sameValue(v, get())
	}
}

type manyS struct {
	L []value.Value  `tag:"1"`
	R []value.Number `tag:"2" repeated:"true"`
	Q []*innerS      `tag:"3"`
}

// more elements than fit in the shorter headers
func C23_ManyElements() {
	n := []int{255, 256, 4097, 32767, 32768, 65535, 65536}[sym.Choose("n", 5+2*sym.Tier())]
	s := &manyS{}
	v := value.Long(int64(sym.U8("v") & 0x7f))
	in := &innerS{}
	switch sym.Choose("field", 3) {
	case 0:
		for i := 0; i < n; i++ {
			s.L = append(s.L, value.Null)
		}
		s.L[n-1] = v
	case 1:
		for i := 0; i < n; i++ {
			s.R = append(s.R, value.One)
		}
		s.R[n-1] = v
	default:
		for i := 0; i < n; i++ {
			s.Q = append(s.Q, in)
		}
		s.Q[n-1] = &innerS{B: v}
	}
	b, err := value.PackStruct(s)
	sym.Assert(err == nil, "packing a struct fails")
	r := &manyS{}
	sym.Assert(value.UnpackStruct(b, r, true) == nil, "unpacking a struct fails")
	sym.Assert(len(r.L) == len(s.L) && len(r.R) == len(s.R) && len(r.Q) == len(s.Q), "a list field is restored with another length")
	b2, err := value.PackStruct(r)
	sym.Assert(err == nil && sym.BytesEq(b, b2), "packing what was restored gives other bytes")
}

// every form of field with tags of every size
type wideS struct {
	P0  value.Value   `tag:"-9000000000000000000"`
	P1  value.Value   `tag:"-5000000000"`
	P2  value.Value   `tag:"-40000"`
	P3  value.Value   `tag:"-200"`
	P4  value.Value   `tag:"200"`
	P5  value.Value   `tag:"33000"`
	P6  value.Value   `tag:"40000"`
	P7  value.Value   `tag:"70000"`
	P8  value.Value   `tag:"3000000000"`
	P9  value.Value   `tag:"5000000000"`
	P10 value.Value   `tag:"9000000000000000000"`
	L0  []value.Value `tag:"-8999999999999999999"`
	L1  []value.Value `tag:"-4999999999"`
	L2  []value.Value `tag:"-39999"`
	L3  []value.Value `tag:"-199"`
	L4  []value.Value `tag:"201"`
	L5  []value.Value `tag:"33001"`
	L6  []value.Value `tag:"40001"`
	L7  []value.Value `tag:"70001"`
	L8  []value.Value `tag:"3000000001"`
	L9  []value.Value `tag:"5000000001"`
	L10 []value.Value `tag:"9000000000000000001"`
	R0  []value.Value `tag:"-8999999999999999998" repeated:"true"`
	R1  []value.Value `tag:"-4999999998" repeated:"true"`
	R2  []value.Value `tag:"-39998" repeated:"true"`
	R3  []value.Value `tag:"-198" repeated:"true"`
	R4  []value.Value `tag:"202" repeated:"true"`
	R5  []value.Value `tag:"33002" repeated:"true"`
	R6  []value.Value `tag:"40002" repeated:"true"`
	R7  []value.Value `tag:"70002" repeated:"true"`
	R8  []value.Value `tag:"3000000002" repeated:"true"`
	R9  []value.Value `tag:"5000000002" repeated:"true"`
	R10 []value.Value `tag:"9000000000000000002" repeated:"true"`
	S0  *innerS       `tag:"-8999999999999999997"`
	S1  *innerS       `tag:"-4999999997"`
	S2  *innerS       `tag:"-39997"`
	S3  *innerS       `tag:"-197"`
	S4  *innerS       `tag:"203"`
	S5  *innerS       `tag:"33003"`
	S6  *innerS       `tag:"40003"`
	S7  *innerS       `tag:"70003"`
	S8  *innerS       `tag:"3000000003"`
	S9  *innerS       `tag:"5000000003"`
	S10 *innerS       `tag:"9000000000000000003"`
	T0  []*innerS     `tag:"-8999999999999999996"`
	T1  []*innerS     `tag:"-4999999996"`
	T2  []*innerS     `tag:"-39996"`
	T3  []*innerS     `tag:"-196"`
	T4  []*innerS     `tag:"204"`
	T5  []*innerS     `tag:"33004"`
	T6  []*innerS     `tag:"40004"`
	T7  []*innerS     `tag:"70004"`
	T8  []*innerS     `tag:"3000000004"`
	T9  []*innerS     `tag:"5000000004"`
	T10 []*innerS     `tag:"9000000000000000004"`
	U0  []*innerS     `tag:"-8999999999999999995" repeated:"true"`
	U1  []*innerS     `tag:"-4999999995" repeated:"true"`
	U2  []*innerS     `tag:"-39995" repeated:"true"`
	U3  []*innerS     `tag:"-195" repeated:"true"`
	U4  []*innerS     `tag:"205" repeated:"true"`
	U5  []*innerS     `tag:"33005" repeated:"true"`
	U6  []*innerS     `tag:"40005" repeated:"true"`
	U7  []*innerS     `tag:"70005" repeated:"true"`
	U8  []*innerS     `tag:"3000000005" repeated:"true"`
	U9  []*innerS     `tag:"5000000005" repeated:"true"`
	U10 []*innerS     `tag:"9000000000000000005" repeated:"true"`
}

func C23_Tags() {
	s := &wideS{}
	v := elem("v")
	in := []*innerS{{A: v}, {}}
	vs := []value.Value{v, value.True}
	packed := cat(pack(v), pack(value.True))
	inner := cat(refInner(in[0]), refInner(in[1]))
	var tag int64
	var body []byte
	n := 1
	at := sym.Choose("tag", 11)
	tag = []int64{-9000000000000000000, -5000000000, -40000, -200, 200, 33000, 40000, 70000, 3000000000, 5000000000, 9000000000000000000}[at]
	form := sym.Choose("form", 6)
	tag += int64(form)
	switch form {
	case 0:
		*[]*value.Value{&s.P0, &s.P1, &s.P2, &s.P3, &s.P4, &s.P5, &s.P6, &s.P7, &s.P8, &s.P9, &s.P10}[at] = v
		body = cat(refLong(tag), pack(v))
	case 1:
		*[]*[]value.Value{&s.L0, &s.L1, &s.L2, &s.L3, &s.L4, &s.L5, &s.L6, &s.L7, &s.L8, &s.L9, &s.L10}[at] = vs
		body = cat(refLong(tag), refList(2), packed)
	case 2:
		*[]*[]value.Value{&s.R0, &s.R1, &s.R2, &s.R3, &s.R4, &s.R5, &s.R6, &s.R7, &s.R8, &s.R9, &s.R10}[at] = vs
		body = cat(refLong(tag), pack(v), refLong(tag), pack(value.True))
		n = 2
	case 3:
		*[]**innerS{&s.S0, &s.S1, &s.S2, &s.S3, &s.S4, &s.S5, &s.S6, &s.S7, &s.S8, &s.S9, &s.S10}[at] = in[0]
		body = cat(refLong(tag), refInner(in[0]))
	case 4:
		*[]*[]*innerS{&s.T0, &s.T1, &s.T2, &s.T3, &s.T4, &s.T5, &s.T6, &s.T7, &s.T8, &s.T9, &s.T10}[at] = in
		body = cat(refLong(tag), refList(2), inner)
	case 5:
		*[]*[]*innerS{&s.U0, &s.U1, &s.U2, &s.U3, &s.U4, &s.U5, &s.U6, &s.U7, &s.U8, &s.U9, &s.U10}[at] = in
		body = cat(refLong(tag), refInner(in[0]), refLong(tag), refInner(in[1]))
		n = 2
	}
	b := packStruct(s)
	sym.Assert(sym.BytesEq(b, cat(refMap(uint64(n)), body)), "a field is not written with its tag")
	r := &wideS{}
	unpackStruct(b, r)
	sym.Assert(sym.BytesEq(packStruct(r), b), "packing what was restored gives other bytes")
}

type wideArrayS struct {
	A [1]value.Value `tag:"5000000000"`
	B [1]value.Value `tag:"70000"`
	C [1]value.Value `tag:"40000"`
	D [1]value.Value `tag:"200"`
	E [1]value.Value `tag:"-200"`
	F [1]value.Value `tag:"-40000"`
	G [1]value.Value `tag:"-5000000000"`
	H [1]*innerS     `tag:"70001"`
	I [1]*innerS     `tag:"5000000001"`
}

func C23_ArrayTags() {
	s := &wideArrayS{}
	v := elem("v")
	in := &innerS{B: value.Long(1)}
	one := [1]value.Value{v}
	s.A, s.B, s.C, s.D, s.E, s.F, s.G = one, one, one, one, one, one, one
	s.H[0], s.I[0] = in, in
	want := refMap(9)
	for _, tag := range []int64{-5000000000, -40000, -200, 200, 40000, 70000, 70001, 5000000000, 5000000001} {
		want = cat(want, refLong(tag), refList(1))
		if tag%10 == 1 {
			want = cat(want, refInner(in))
		} else {
			want = cat(want, pack(v))
		}
	}
	b := packStruct(s)
	sym.Assert(sym.BytesEq(b, want), "fields are not written in the order of their tags, each with its tag")
	r := &wideArrayS{}
	unpackStruct(b, r)
	sym.Assert(sym.BytesEq(packStruct(r), b), "packing what was restored gives other bytes")
}
