package props

import (
	"crypto"
	"hash"
)

// sumHash is a hash that is cheap to execute: all sums depend on all input.
type sumHash struct{ data []byte }

func (h *sumHash) Write(p []byte) (int, error) { h.data = append(h.data, p...); return len(p), nil }
func (h *sumHash) Reset()                      { h.data = nil }
func (h *sumHash) Size() int                   { return 4 }
func (h *sumHash) BlockSize() int              { return 1 }
func (h *sumHash) Sum(b []byte) []byte {
	var s [4]byte
	for i, c := range h.data {
		s[i%4] = s[i%4]*3 + c
	}
	return append(append(b, s[:]...), byte(len(h.data)))
}

const testHash = crypto.MD4

func registerHash() {
	crypto.RegisterHash(testHash, func() hash.Hash { return new(sumHash) })
}
