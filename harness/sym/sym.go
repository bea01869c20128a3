// Package sym is the harness interface. The symbolic executor replaces these
// functions; the bodies here replay recorded values against the real code.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Val struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

// Failure is thrown by a failed assertion, Pruned by a false assumption,
// Diverged when the run asks for values the recording does not have.
type Failure struct{ Msg string }
type Pruned struct{}
type Diverged struct{ Msg string }

var (
	vals []Val
	pos  int
	Obs  []Val
	tier int
	Race bool
)

func Load(v []Val, t int) { vals, pos, Obs, tier = v, 0, nil, t }

func next(name, kind string) string {
	if pos >= len(vals) {
		panic(Diverged{"no value left for " + name})
	}
	v := vals[pos]
	pos++
	if v.Name != name || v.Kind != kind {
		panic(Diverged{fmt.Sprintf("asked for %s %s, recorded %s %s", kind, name, v.Kind, v.Name)})
	}
	return v.Val
}

func u(name, kind string) uint64 {
	n, err := strconv.ParseUint(next(name, kind), 10, 64)
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return n
}

// Any values of the type.
func Bool(name string) bool   { return u(name, "bool") == 1 }
func U8(name string) uint8    { return uint8(u(name, "u8")) }
func U16(name string) uint16  { return uint16(u(name, "u16")) }
func U32(name string) uint32  { return uint32(u(name, "u32")) }
func U64(name string) uint64  { return u(name, "u64") }
func I64(name string) int64   { return int64(u(name, "u64")) }
func Int(name string) int     { return int(u(name, "u64")) }
func F64(name string) float64 { return f64(u(name, "u64")) }
func F32(name string) float32 { return f32(uint32(u(name, "u32"))) }

// Bytes is n arbitrary bytes, Str a string of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(next(name, "bytes"))
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// LazyBytes is an arbitrary byte sequence of arbitrary length up to max.
func LazyBytes(name string, max uint64) []byte {
	s := next(name, "lazy")
	l, h, _ := strings.Cut(s, ":")
	n, _ := strconv.ParseUint(l, 10, 64)
	if n > 1<<33 {
		panic(Diverged{"too long to replay"})
	}
	out := make([]byte, n)
	b, _ := hex.DecodeString(h)
	copy(out, b)
	return out
}
func LazyStr(name string, max uint64) string { return string(LazyBytes(name, max)) }

// Choose is an arbitrary number below n, decided by case split.
func Choose(name string, n int) int { return int(u(name, "choose")) }

// Concrete splits on every feasible value of x.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(Pruned{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}
func Fail(msg string)    { panic(Failure{msg}) }
func Cover(label string) {}

func ObserveU64(label string, v uint64) { Obs = append(Obs, Val{label, "u64", fmt.Sprint(v)}) }
func ObserveBool(label string, v bool) {
	Obs = append(Obs, Val{label, "bool", map[bool]string{true: "1", false: "0"}[v]})
}
func ObserveBytes(label string, b []byte) {
	Obs = append(Obs, Val{label, "bytes", hex.EncodeToString(b)})
}
func ObserveStr(label string, s string) {
	Obs = append(Obs, Val{label, "bytes", hex.EncodeToString([]byte(s))})
}

// Non-forking connectives.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func BytesEq(a, b []byte) bool { return string(a) == string(b) }
func StrEq(a, b string) bool   { return a == b }
func StrLess(a, b string) bool { return a < b }

// Yield lets other goroutines run as far as they can.
func Yield() {
	time.Sleep(3 * time.Millisecond)
}

// Tier is 0 for quick, 1 for thorough runs.
func Tier() int { return tier }

// MapOrders makes the iteration order of Go maps in the code under test an
// unknown.
func MapOrders(on bool) {}

// ReadOnly asserts that f writes to no memory that existed before it started,
// except under a lock or atomically; natively, two goroutines run it at once
// for the race detector.
func ReadOnly(f func()) {
	if !Race {
		f()
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			<-start
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintln(os.Stderr, "panic in read-only region:", r)
				}
			}()
			for k := 0; k < 20; k++ {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
}

// Allocated is the number of bytes allocated so far (at least those in
// slices).
func Allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// MaxDepth is how many frames deep recursion may get.
func MaxDepth(n int) {}

// MaxAlloc asserts that no single allocation from here on exceeds n bytes.
func MaxAlloc(n uint64) {}

// Known excludes a listed known finding from the claim.
func Known(id string, cond bool) {
	if cond && known[id] {
		panic(Pruned{})
	}
}

var known = map[string]bool{}

func SetKnown(ids []string) {
	for _, i := range ids {
		known[i] = true
	}
}

// Native reports whether the harness runs natively.
func Native() bool { return true }

var _ = json.Marshal
