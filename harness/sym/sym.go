// Package sym is the interface between harnesses and the symbolic executor.
//
// Under gosym every function here is interpreted by the engine: inputs become
// symbolic variables and Assert becomes a solver query. Compiled natively the
// same functions read the inputs from one assignment (a solver model).
package sym

import (
	"fmt"
	"runtime"
	"strconv"
	"sync"
)

// Session is one native run.
type Session struct {
	Assign   map[string]uint64
	names    map[string]int
	Obs      []string
	Reached  map[string]bool
	thorough bool
	fresh    int
}

type assumeFailed struct{}
type assertFailed struct{ msg string }

var cur *Session

// Run executes f natively on an assignment.
func Run(f func(), assign map[string]uint64, thorough bool) (s *Session, status, msg string) {
	s = &Session{Assign: assign, names: map[string]int{}, Reached: map[string]bool{}, thorough: thorough}
	cur = s
	status = "ok"
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case freshDone:
				status = "fresh"
			case assumeFailed:
				status = "assume"
			case assertFailed:
				status, msg = "assert", x.msg
			default:
				status, msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	return
}

func (s *Session) uniq(name string) string {
	s.names[name]++
	if k := s.names[name]; k > 1 {
		return fmt.Sprintf("%s~%d", name, k)
	}
	return name
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(cur.Assign[cur.uniq(name)+"@8"]) }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return cur.Assign[cur.uniq(name)+"@0"]&1 == 1 }

// Uint64 is an arbitrary 64-bit value.
func Uint64(name string) uint64 { return cur.Assign[cur.uniq(name)+"@64"] }

// Int64 is an arbitrary 64-bit value.
func Int64(name string) int64 { return int64(cur.Assign[cur.uniq(name)+"@64"]) }

func bitsFor(n uint64) int {
	w := 1
	for w < 64 && n > uint64(1)<<w-1 {
		w++
	}
	return w
}

// Int is an arbitrary integer lo..hi.
func Int(name string, lo, hi int) int {
	span := uint64(hi) - uint64(lo)
	v := cur.Assign[fmt.Sprintf("%s@%d", cur.uniq(name), bitsFor(span))]
	if v > span {
		panic(assumeFailed{})
	}
	return lo + int(v)
}

// Choose explores every value 0..n-1 on separate paths.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// String is n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	name = cur.uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.Assign[name+"["+strconv.Itoa(i)+"]@8"])
	}
	return b
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFailed{msg})
	}
}

// Concrete splits the paths on the value of x.
func Concrete(x int) int { return x }

// ConcreteString splits the paths on the value of every byte of s.
func ConcreteString(s string) string { return s }

// And, Or and Not build conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Ite selects without branching.
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// IsSymbolic tells whether the engine is running.
func IsSymbolic() bool { return false }

// Thorough selects larger bounds.
func Thorough() bool { return cur.thorough }

// Reach records that a point of interest was reached.
func Reach(tag string) { cur.Reached[tag] = true }

// RaceMode makes Concurrently use goroutines (for a build with -race).
var RaceMode bool

// Concurrently runs f and g at the same time. Under the engine they run one
// after the other and a write to package-level state of the code under test by
// either is a candidate for a data race, which the race detector confirms.
// They must not use this package and must be repeatable.
func Concurrently(f, g func()) {
	if !RaceMode {
		f()
		g()
		return
	}
	for i := 0; i < 20; i++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, h := range []func(){f, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 5; k++ {
					h()
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}

// RunFresh runs the harness up to its n-th Fresh call in a new process and sets
// what result points to to what that call has set it to.
var RunFresh func(n int, result any) error

// FreshOnly makes Run end at the given Fresh call with its result in FreshResult.
var (
	FreshOnly   int
	FreshResult any
)

type freshDone struct{}

// Fresh runs f, which sets what result points to, as if the program had just
// started. Calls of the code under test before it must be in a Fresh, too.
func Fresh(f func(), result any) {
	cur.fresh++
	switch {
	case FreshOnly == cur.fresh:
		f()
		FreshResult = result
		panic(freshDone{})
	case FreshOnly > 0:
	case RunFresh != nil:
		if err := RunFresh(cur.fresh, result); err != nil {
			panic("fresh process: " + err.Error())
		}
	default:
		f()
	}
}

// Observe records a value for comparing the engine with the compiled code.
func Observe(name string, v any) {
	var s string
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = strconv.Quote(x)
	case []byte:
		s = strconv.Quote(string(x))
	case bool:
		s = strconv.FormatBool(x)
	case int:
		s = strconv.Itoa(x)
	case int64:
		s = strconv.FormatInt(x, 10)
	case uint64:
		s = strconv.FormatUint(x, 10)
	default:
		s = "?"
	}
	cur.Obs = append(cur.Obs, name+"="+s)
}

// Memory runs f, which must not allocate more than limit bytes in total.
func Memory(limit int64, msg string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > uint64(limit) {
		panic(assertFailed{msg})
	}
}
