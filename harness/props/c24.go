package props

import (
	"crypto/rand"
	"io"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
	"verif/harness/sym"
)

// pair is a key pair; any two of them differ at least in their number.
func pair(number byte) (pub, priv *[32]byte) {
	b := make([]byte, 32)
	b[5], b[6], b[7] = sym.U8("key"), number, sym.U8("key")
	pub, priv, err := box.GenerateKey(&chunks{data: b})
	sym.Assert(err == nil, "no key")
	return pub, priv
}

// random replaces the random source; it has n seals' worth of bytes.
func random(n int) *chunks {
	c := &chunks{data: sym.Bytes("random", 24*n), fail: errReader}
	rand.Reader = c
	return c
}

// shortValue is a value with a short packed form.
func shortValue(name string) value.Value {
	switch sym.Choose(name, 7) {
	case 0:
		return value.Long(sym.I64(name))
	case 1:
		return value.Utf8(sym.Str(name, 3))
	case 2:
		return value.Raw(sym.Bytes(name, 4), false)
	case 3:
		return value.Tuple(elem(name), value.Null)
	case 4:
		return value.EmptyMutableMap().Put("k", elem(name))
	case 5:
		return value.Unknown([]byte{0x40, sym.U8(name)})
	default:
		return value.Boolean(sym.Bool(name))
	}
}

func seal(v value.Value, to, from *[32]byte) []byte {
	enc, err := value.Seal(v, to, from)
	sym.Assert(err == nil, "sealing fails")
	return enc
}

// opens: the value comes out.
func opens(enc []byte, from, to *[32]byte, v value.Value) {
	w, err := value.Unseal(enc, from, to)
	sym.Assert(err == nil && w != nil, "a sealed value does not open")
	sym.Assert(w.Kind() == kindOf(v) && sym.BytesEq(pack(w), pack(v)), "another value comes out than was sealed")
	if v == nil || !hasNaN(v) {
		sym.Assert(value.Equal(w, v), "another value comes out than was sealed")
	}
}

// closed: the unseal error and no value.
func closed(enc []byte, from, to *[32]byte) {
	w, err := value.Unseal(enc, from, to)
	sym.Assert(err == value.ErrUnseal, "something that was not sealed like this does not give the unseal error")
	sym.Assert(w == nil, "something that was not sealed like this gives a value")
}

func C24_RoundTrip() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	v := anyOrNil("v")
	enc := seal(v, bPub, aPriv)
	keep := append([]byte(nil), enc...)
	opens(enc, aPub, bPriv, v)
	sym.Assert(sym.BytesEq(enc, keep), "unsealing changes the sealed bytes")
	opens(enc, aPub, bPriv, v)
}

// longer values
func C24_Sizes() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	n := []int{31, 32, 63, 64, 65, 255, 256, 1000}[sym.Choose("n", 8)]
	b := make([]byte, n)
	b[0], b[n/2], b[n-1] = sym.U8("b"), sym.U8("b"), sym.U8("b")
	v := value.Raw(b, false)
	opens(seal(v, bPub, aPriv), aPub, bPriv, v)
}

func C24_NoSharing() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(2)
	v := anyValue("v")
	enc := seal(v, bPub, aPriv)
	keep := append([]byte(nil), enc...)
	w, err := value.Unseal(enc, aPub, bPriv)
	sym.Assert(err == nil, "a sealed value does not open")
	s := snapshot(w)
	seal(value.Null, aPub, bPriv)
	sym.Assert(sym.BytesEq(enc, keep), "sealed bytes change later")
	clobber(enc)
	sym.Assert(sym.BytesEq(snapshot(w), s), "an unsealed value changes with the sealed bytes")
}

// any change of the sealed bytes
func C24_Tampered() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	enc := seal(shortValue("v"), bPub, aPriv)
	mask := sym.Bytes("mask", len(enc))
	var all byte
	for i, m := range mask {
		enc[i] ^= m
		all |= m
	}
	sym.Assume(all != 0)
	closed(enc, aPub, bPriv)
}

// one changed byte
func C24_OneByte() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	enc := seal(shortValue("v"), bPub, aPriv)
	d := sym.U8("d")
	sym.Assume(d != 0)
	enc[sym.Choose("i", len(enc))] ^= d
	closed(enc, aPub, bPriv)
}

// cut at either side
func C24_Truncated() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	enc := seal(shortValue("v"), bPub, aPriv)
	cut := 1 + sym.Choose("cut", len(enc))
	switch sym.Choose("side", 3) {
	case 0:
		enc = enc[:len(enc)-cut]
	case 1:
		enc = enc[cut:]
	default:
		// in the middle
		i := sym.Choose("at", len(enc)-cut+1)
		sym.Assume(i == 24 || i == 40 || i == 23 || i == len(enc)-cut)
		enc = append(append([]byte(nil), enc[:i]...), enc[i+cut:]...)
	}
	closed(enc, aPub, bPriv)
}

// more bytes at either side or in between
func C24_Extended() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	enc := seal(shortValue("v"), bPub, aPriv)
	more := sym.Bytes("more", 1+sym.Choose("n", 3))
	at := []int{0, 24, 40, len(enc)}[sym.Choose("at", 4)]
	closed(cat(enc[:at], more, enc[at:]), aPub, bPriv)
}

// bytes that nobody sealed
func C24_Garbage() {
	aPub, _ := pair(1)
	_, bPriv := pair(2)
	closed(sym.Bytes("b", sym.Choose("n", 90)), aPub, bPriv)
	closed(nil, aPub, bPriv)
}

// parts of two sealed values
func C24_Mixed() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(2)
	v, w := value.Long(int64(sym.U8("v")&0x7f)), value.Long(int64(sym.U8("w")&0x7f))
	x, y := seal(v, bPub, aPriv), seal(w, bPub, aPriv)
	sym.Assume(!sym.BytesEq(x[:24], y[:24]))
	opens(x, aPub, bPriv, v)
	opens(y, aPub, bPriv, w)
	closed(cat(x[:24], y[24:]), aPub, bPriv)
	closed(cat(y[:24], x[24:]), aPub, bPriv)
}

// every combination of keys
func C24_Keys() {
	var pub, priv [4]*[32]byte
	for i := range pub {
		pub[i], priv[i] = pair(byte(i))
	}
	random(1)
	v := value.Long(int64(sym.U8("v")))
	i, j := sym.Choose("from", 3), sym.Choose("to", 3)
	sym.Assume(i != j)
	keep := [2][32]byte{*pub[j], *priv[i]}
	enc := seal(v, pub[j], priv[i])
	sym.Assert(*pub[j] == keep[0] && *priv[i] == keep[1], "sealing changes a key")
	x, y := sym.Choose("sender", 4), sym.Choose("recipient", 4)
	keep = [2][32]byte{*pub[x], *priv[y]}
	switch {
	case x == i && y == j:
		opens(enc, pub[x], priv[y], v)
	case x == j && y == i:
		// the sender can read it as well
	default:
		closed(enc, pub[x], priv[y])
	}
	sym.Assert(*pub[x] == keep[0] && *priv[y] == keep[1], "unsealing changes a key")
}

// a key that is wrong in any way in two of its bytes
func C24_OtherKey() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	enc := seal(shortValue("v"), bPub, aPriv)
	other := *bPriv
	other[5], other[7] = sym.U8("other"), sym.U8("other")
	sym.Assume(other != *bPriv)
	closed(enc, aPub, &other)
}

// every seal has all of its nonce from the random source
func C24_Nonce() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	r := random(3)
	r.step = sym.Choose("step", 25)
	var seen [3][]byte
	for i := range seen {
		from := r.pos
		v := elem("v")
		enc := seal(v, bPub, aPriv)
		sym.Assert(r.pos >= from+24, "a seal does not use a fresh nonce")
		sym.Assert(len(enc) > 24 && sym.BytesEq(enc[:24], r.data[from:from+24]), "the random nonce is not in front")
		seen[i] = enc
		opens(enc, aPub, bPriv, v)
	}
}

// breaks is a reader that stops short at two positions, and may return
// nothing there once.
type breaks struct {
	chunks
	at    [2]int
	empty bool
}

func (r *breaks) Read(p []byte) (int, error) {
	for _, b := range r.at {
		if r.empty && r.pos == b {
			r.empty = false
			return 0, nil
		}
		if r.pos < b && r.pos+len(p) > b {
			p = p[:b-r.pos]
		}
	}
	return r.chunks.Read(p)
}

func C24_NonceInPieces() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	r := &breaks{chunks: *random(1)}
	r.at[0] = sym.Choose("first", 24)
	r.at[1] = r.at[0] + sym.Choose("second", 24-r.at[0])
	r.empty = sym.Choose("empty", 2) == 1
	rand.Reader = r
	v := elem("v")
	enc := seal(v, bPub, aPriv)
	sym.Assert(r.pos == 24 && sym.BytesEq(enc[:24], r.data), "the random nonce is not in front")
	opens(enc, aPub, bPriv, v)
}

// the random source fails
func C24_RandomFails() {
	_, aPriv := pair(1)
	bPub, _ := pair(2)
	c := &chunks{data: sym.Bytes("random", sym.Choose("bytes", 24)), step: sym.Choose("step", 25), fail: []error{errReader, io.EOF}[sym.Choose("how", 2)], withEOF: sym.Choose("with data", 2) == 1}
	rand.Reader = c
	enc, err := value.Seal(shortValue("v"), bPub, aPriv)
	sym.Assert(err != nil, "a failing random source is not reported")
	sym.Assert(len(enc) == 0, "a failing random source gives sealed bytes")
}

// what the other side sealed need not be a value
func C24_AnyPlaintext() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	msg := sym.Bytes("msg", sym.Choose("n", 5+sym.Tier()))
	var nonce [24]byte
	copy(nonce[:], sym.Bytes("nonce", 24))
	enc := box.Seal(append([]byte(nil), nonce[:]...), msg, &nonce, bPub, aPriv)
	v, err := value.Unseal(enc, aPub, bPriv)
	w, want := value.Unpack(append([]byte(nil), msg...), false)
	sym.Assert((err == nil) == (want == nil), "unsealing and unpacking disagree")
	if want != nil {
		sym.Assert(v == nil || w != nil, "a failed unsealing gives a value")
		return
	}
	sym.Assert(sym.BytesEq(snapshot(v), snapshot(w)), "unsealing and unpacking disagree")
}

// changes of longer ones
func C24_TamperedSizes() {
	aPub, aPriv := pair(1)
	bPub, bPriv := pair(2)
	random(1)
	n := []int{15, 16, 17, 31, 32, 63, 64, 65, 256, 1000}[sym.Choose("n", 10)]
	b := make([]byte, n)
	b[0], b[n/2], b[n-1] = sym.U8("b"), sym.U8("b"), sym.U8("b")
	enc := seal(value.Raw(b, false), bPub, aPriv)
	all := len(enc)
	switch sym.Choose("how", 5) {
	case 0:
		enc = append(enc, sym.Bytes("more", 1+sym.Choose("more.n", 3))...)
	case 1:
		enc = append(enc, make([]byte, []int{1, 8, 16, 64}[sym.Choose("zeros", 4)])...)
	case 2:
		enc = enc[:all-[]int{1, 2, 15, 16, 17, all - 40, all - 24}[sym.Choose("cut", 7)]]
	case 3:
		d := sym.U8("d")
		sym.Assume(d != 0)
		enc[[]int{0, 23, 24, 39, 40, 41, all / 2, all - 2, all - 1}[sym.Choose("at", 9)]] ^= d
	default:
		enc = cat(enc, enc)
	}
	closed(enc, aPub, bPriv)
}
