// Package props holds the property harnesses. Every harness is a Go function
// over the public API of the target; the symbolic executor runs it with
// unknown inputs, the native replayer runs it with recorded ones.
package props

import (
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"verif/harness/sym"
)

// Kinds of generated scalars.
const (
	gNull = iota
	gBool
	gLong
	gDouble
	gUtf8
	gRaw
	gBigInt
	gDecimal
	gUnknown
	gScalars
)

// anyScalar is an arbitrary value of the given kind; strings have up to n
// bytes, big numbers up to 64 bits and a sign.
func anyScalar(name string, kind, n int) value.Value {
	switch kind {
	case gNull:
		return value.Null
	case gBool:
		return value.Boolean(sym.Bool(name))
	case gLong:
		return value.Long(sym.I64(name))
	case gDouble:
		return value.Double(sym.F64(name))
	case gUtf8:
		return value.Utf8(sym.Str(name, sym.Choose(name+".len", n+1)))
	case gRaw:
		return value.Raw(sym.Bytes(name, sym.Choose(name+".len", n+1)), false)
	case gBigInt:
		return value.BigInt(anyBig(name))
	case gDecimal:
		return value.Decimal(anyDecimal(name))
	default:
		tag := sym.U8(name + ".tag")
		sym.Assume(sym.And(tag != uint8(value.BigIntExt), tag != uint8(value.DecimalExt)))
		b := append([]byte{tag}, sym.Bytes(name, sym.Choose(name+".len", n+1))...)
		return value.Unknown(b)
	}
}

// anyBig is any integer of 64 bits and a sign.
func anyBig(name string) *big.Int {
	z := new(big.Int).SetUint64(sym.U64(name))
	if sym.Choose(name+".neg", 2) == 1 {
		z.Neg(z)
	}
	return z
}

func anyDecimal(name string) decimal.Decimal {
	return decimal.NewFromBigInt(anyBig(name), int32(sym.U32(name+".exp")))
}

// elem is a cheap arbitrary element: a long that packs into one byte.
func elem(name string) value.Value {
	if rainbow {
		return nextKind()
	}
	return value.Long(int64(sym.U8(name) & 0x7f))
}

func elems(name string, n int) []value.Value {
	out := make([]value.Value, n)
	for i := range out {
		out[i] = elem(name)
	}
	return out
}

// shortElem is an element of one of a few kinds.
func shortElem(name string) value.Value {
	switch sym.Choose(name+".kind", 6) {
	case 0:
		return elem(name)
	case 1:
		return value.Boolean(sym.Bool(name))
	case 2:
		return value.Utf8(sym.Str(name, 1))
	case 3:
		return value.Raw(sym.Bytes(name, 1), false)
	case 4:
		return value.Null
	default:
		return nil
	}
}

func same(a, b value.Value) bool { return value.Equal(a, b) }

func isNaN(v value.Value) bool {
	n, ok := v.(value.Number)
	return ok && n.IsNaN()
}

func pack(v value.Value) []byte {
	b, err := value.Pack(v)
	sym.Assert(err == nil, "packing failed")
	return b
}

func unpack(b []byte) value.Value {
	v, err := value.Unpack(b, true)
	sym.Assert(err == nil, "unpacking failed")
	sym.Assert(v != nil, "unpacking gave nothing")
	return v
}

// intOf is the payload of a long, used by the sequence models.
func intOf(v value.Value) (int64, bool) {
	n, ok := v.(value.Number)
	if !ok || n.Type() != value.LONG {
		return 0, false
	}
	return n.Long(), true
}

var _ = math.NaN
