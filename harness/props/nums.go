package props

import (
	"math/big"

	"github.com/shopspring/decimal"
	"verif/harness/sym"
)

func bigOf(n int64) *big.Int { return big.NewInt(n) }

func decOf(n int64, exp int32) decimal.Decimal { return decimal.NewFromBigInt(big.NewInt(n), exp) }

// big128 is hi*2^64+lo with a sign.
func big128(hi, lo uint64, neg bool) *big.Int {
	z := new(big.Int).SetUint64(hi)
	z.Lsh(z, 64)
	z.Or(z, new(big.Int).SetUint64(lo))
	if neg {
		z.Neg(z)
	}
	return z
}

func decBig(z *big.Int, exp int32) decimal.Decimal { return decimal.NewFromBigInt(z, exp) }

var wideSizes = []int{17, 24, 25, 33, 64, 100, 127, 128, 129, 254, 255, 256, 257, 300, 513, 1000, 4097}

// wideBig is a big integer of n bytes, some of which are arbitrary.
func wideBig(name string, n int) *big.Int {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	b[0] = []byte{1, 0x7f, 0x80, 0xff}[sym.Choose(name+".top", 4)]
	b[n/2], b[n-1] = sym.U8(name+".mid"), sym.U8(name+".low")
	z := new(big.Int).SetBytes(b)
	if sym.Choose(name+".neg", 2) == 1 {
		z.Neg(z)
	}
	return z
}

func pow10(e int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)
}
