package props

import (
	"errors"
	"io"

	"verif/harness/sym"
)

// chunks is a reader that returns its data in arbitrary legal pieces.
type chunks struct {
	data    []byte
	pos     int
	anySize bool  // arbitrary piece sizes
	empties int   // how many empty reads may happen
	withEOF bool  // io.EOF may come together with the last bytes
	fail    error // after the data, instead of io.EOF
	reads   int
	step    int // at most that many bytes at once
}

var errReader = errors.New("reader failed")

// endLike is an error that says that it is the end of input.
type endLike struct{}

func (endLike) Error() string        { return "connection reset: EOF" }
func (endLike) Cause() error         { return io.EOF }
func (endLike) Unwrap() error        { return io.EOF }
func (endLike) Is(target error) bool { return true }

// otherEnd is the end of input by its text alone.
var otherEnd = errors.New("EOF")

func failure(name string) error {
	return []error{errReader, endLike{}, otherEnd, io.ErrUnexpectedEOF, io.ErrNoProgress}[sym.Choose(name, 5)]
}

func (r *chunks) end() error {
	if r.fail != nil {
		return r.fail
	}
	return io.EOF
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rem := len(r.data) - r.pos
	if rem == 0 {
		return 0, r.end()
	}
	n := len(p)
	if n > rem {
		n = rem
	}
	if r.step > 0 && n > r.step {
		n = r.step
	}
	if r.anySize {
		max := n
		if max > 3 {
			max = 3
		}
		k := sym.Choose("chunk", max+1)
		if k == 0 {
			sym.Assume(r.empties > 0)
			r.empties--
			return 0, nil
		}
		if k < 3 {
			n = k
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withEOF && r.pos == len(r.data) {
		return n, r.end()
	}
	return n, nil
}

// byteChunks can also read single bytes.
type byteChunks struct{ chunks }

func (r *byteChunks) ReadByte() (byte, error) {
	if r.pos == len(r.data) {
		return 0, r.end()
	}
	c := r.data[r.pos]
	r.pos++
	return c, nil
}

func anyReader(data []byte, fail error) (io.Reader, *chunks) {
	c := chunks{data: data, anySize: true, empties: 1, fail: fail, withEOF: sym.Choose("eof with data", 2) == 1}
	if sym.Choose("byte reader", 2) == 1 {
		b := &byteChunks{c}
		return b, &b.chunks
	}
	return &c, &c
}
