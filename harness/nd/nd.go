// Package nd provides the nondeterministic primitives of the harnesses.  The
// symbolic executor intercepts every Sym* function; compiled natively they
// replay a recorded vector of values.
package nd

import (
	"runtime"
	"sync/atomic"
)

type Violation struct{ Msg string }
type AssumeFailed struct{}

var (
	Vec      []uint64
	Pos      int
	Thorough bool
	Obs      []string
	Reached  map[string]bool
)

func Reset(vec []uint64, thorough bool) {
	Vec, Pos, Thorough, Obs, Reached = vec, 0, thorough, nil, map[string]bool{}
}

func next() uint64 {
	if Pos < len(Vec) {
		Pos++
		return Vec[Pos-1]
	}
	Pos++
	return 0
}

func SymU8() uint8      { return uint8(next()) }
func SymU16() uint16    { return uint16(next()) }
func SymU32() uint32    { return uint32(next()) }
func SymU64() uint64    { return next() }
func SymHidden() uint32 { panic("not native") }
func SymBool() bool     { return next() != 0 }
func SymChoose(n int) int {
	v := int(next())
	if v >= n {
		v = 0
	}
	return v
}
func SymBranch(b bool) bool { return b }
func SymConc(i int) int     { return i }
func SymThorough() bool     { return Thorough }
func SymNative() bool       { return true }
func SymMapMode(mode int)   {}
func SymReach(label string) {
	if Reached != nil {
		Reached[label] = true
	}
}
func SymObserve(l, v string) { Obs = append(Obs, l+"="+v) }
func SymSkip()               { panic(AssumeFailed{}) }
func SymUnsupported(string)  { panic("not native") }
func SymField(data interface{}, name string) (string, bool) {
	panic("not native")
}
func SymAssume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}
func SymAssert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// ---- convenience layer (interpreted like any other code) ----

func Assume(c bool)             { SymAssume(c) }
func Assert(c bool, msg string) { SymAssert(c, msg) }
func Reach(l string)            { SymReach(l) }
func Observe(l, v string)       { SymObserve(l, v) }
func Choose(n int) int          { return SymChoose(n) }
func Byte() byte                { return SymU8() }
func Bool() bool                { return SymBool() }

// Flip returns a concrete boolean (both values are explored as separate paths).
func Flip() bool { return SymChoose(2) == 1 }

// Range returns a symbolic int in [lo,hi], hi-lo < 256.
func Range(lo, hi int) int {
	v := SymU8()
	SymAssume(int(v) <= hi-lo)
	return lo + int(v)
}

// Pick selects one of the given strings (a path each).
func Pick(ss ...string) string { return ss[SymChoose(len(ss))] }

// Bytes returns n symbolic bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = SymU8()
	}
	return b
}

// Str returns a string of n symbolic bytes.
func Str(n int) string { return string(Bytes(n)) }

// StrUpTo returns a symbolic string of length lo..hi (a path per length).
func StrUpTo(lo, hi int) string { return Str(lo + SymChoose(hi-lo+1)) }

// From returns a string of n symbolic bytes, each drawn from set.
func From(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		c := SymU8()
		ok := false
		for j := 0; j < len(set); j++ {
			ok = ok || c == set[j]
		}
		SymAssume(ok)
		b[i] = c
	}
	return string(b)
}

// Q returns q in the quick tier and t in the thorough tier.
func Q(q, t int) int {
	if SymThorough() {
		return t
	}
	return q
}

// Hash is the digest of data; the executor treats it as a collision-free function.
func Hash(alg string, data []byte) []byte { return SymHash(alg, data) }

// SymPar runs the functions as threads; symbolically every interleaving with at
// most the given number of preemptions is explored, natively they are started
// together.
func SymPar(preemptions int, fs ...func()) {
	var ready, goOn int32
	errs := make(chan interface{}, len(fs))
	for _, f := range fs {
		go func(f func()) {
			defer func() { errs <- recover() }()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&goOn) == 0 {
			}
			f()
		}(f)
	}
	for int(atomic.LoadInt32(&ready)) < len(fs) {
		runtime.Gosched()
	}
	atomic.StoreInt32(&goOn, 1)
	var bad interface{}
	for range fs {
		if e := <-errs; e != nil {
			bad = e
		}
	}
	if bad != nil {
		panic(bad)
	}
}
