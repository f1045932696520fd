// Package nd is the interface between a harness and the symbolic executor.
// Under the engine every function here is intercepted. Natively (replay), the
// values come from a JSON file produced by the solver.
package nd

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
)

type rec struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Vals []uint64 `json:"vals"`
}

var (
	mu     sync.Mutex
	vals   map[string][]uint64
	counts = map[string]int{}
	tier   = os.Getenv("VERIF_TIER")
)

// Load reads the replay file (native only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f struct {
		Inputs []rec `json:"inputs"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	vals = map[string][]uint64{}
	for _, r := range f.Inputs {
		vals[r.Name] = r.Vals
	}
	return nil
}

func get(name string, n int) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	counts[name]++
	k := name
	if c := counts[name]; c > 1 {
		k = fmt.Sprintf("%s#%d", name, c)
	}
	v := vals[k]
	for len(v) < n {
		v = append(v, 0)
	}
	return v
}
func get1(name string) uint64 { return get(name, 1)[0] }

func Bool(name string) bool       { return get1(name) == 1 }
func Int(name string) int         { return int(get1(name)) }
func Int8(name string) int8       { return int8(get1(name)) }
func Int16(name string) int16     { return int16(get1(name)) }
func Int32(name string) int32     { return int32(get1(name)) }
func Int64(name string) int64     { return int64(get1(name)) }
func Uint(name string) uint       { return uint(get1(name)) }
func Uint8(name string) uint8     { return uint8(get1(name)) }
func Uint16(name string) uint16   { return uint16(get1(name)) }
func Uint32(name string) uint32   { return uint32(get1(name)) }
func Uint64(name string) uint64   { return get1(name) }
func Float64(name string) float64 { return math.Float64frombits(get1(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get1(name))) }

// Range is a symbolic int in [lo,hi].
func Range(name string, lo, hi int) int { return int(get1(name)) }

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(get1(name)) }

// Concrete forks over all feasible values of v.
func Concrete(v int) int { return v }

// Bytes is a slice of n symbolic bytes (n concrete).
func Bytes(name string, n int) []byte {
	v := get(name, n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

// String is a string of n symbolic bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

type stopT struct{ msg string }

// Assume cuts executions where c is false.
func Assume(c bool) {
	if !c {
		fmt.Println("ND-ASSUME-FALSE")
		os.Exit(3)
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("ND-VIOLATION " + msg)
		if os.Getenv("ND_STACK") != "" {
			buf := make([]byte, 4096)
			fmt.Println(string(buf[:runtime.Stack(buf, false)]))
		}
		os.Exit(4)
	}
}

func Fail(msg string) { Assert(false, msg) }

// Known registers a recorded finding: violations under cond are reported as known.
func Known(id string, cond bool) {}

// Reach marks a point that must be reachable (vacuity witness).
func Reach(label string) {}

// Observe records a value to be compared between the encoding and the real code.
func Observe(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	s := ""
	switch x := v.(type) {
	case bool:
		if x {
			s = "1"
		} else {
			s = "0"
		}
	case int:
		s = fmt.Sprint(uint64(x))
	case int8:
		s = fmt.Sprint(uint8(x))
	case int16:
		s = fmt.Sprint(uint16(x))
	case int32:
		s = fmt.Sprint(uint32(x))
	case int64:
		s = fmt.Sprint(uint64(x))
	case uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	case float64:
		s = fmt.Sprint(math.Float64bits(x))
	case string:
		for i := 0; i < len(x); i++ {
			s += fmt.Sprintf("%d ", x[i])
		}
	case []byte:
		for i := 0; i < len(x); i++ {
			s += fmt.Sprintf("%d ", x[i])
		}
	case error:
		s = "1"
	case nil:
		s = "0"
	default:
		s = "?"
	}
	fmt.Printf("ND-OBS %s = %s\n", label, strings.TrimSpace(s))
}

// And/Or/Implies/Ite combine conditions without forking.
func And(a ...bool) bool {
	r := true
	for _, x := range a {
		r = r && x
	}
	return r
}
func Or(a ...bool) bool {
	r := false
	for _, x := range a {
		r = r || x
	}
	return r
}
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// BytesEq / StrEq compare without forking.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }
func StrEq(a, b string) bool   { return a == b }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return tier == "thorough" }

// Q picks a bound by tier.
func Q(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Preemptions bounds the number of preemptive context switches.
func Preemptions(n int) {}

// RoundRobin replaces the exploration of schedules by a single one, in which
// goroutines take turns: at blocking operations and, unless slice is 0, every
// slice visible operations. A negative slice explores schedules again.
func RoundRobin(slice int) {}

// SpreadHashes makes maphash a certain good hash function instead of any, so
// that different inputs hash to values that have nothing to do with each other.
func SpreadHashes() {}

// EarlyTimers lets timers expire at any scheduling point.
func EarlyTimers(on bool) {}

// RacesAreBugs makes a data race inside the target a violation.
func RacesAreBugs() {}

// NoMerge explores every branch separately instead of merging pure ones.
func NoMerge() {}

// MapOrder makes map iteration order nondeterministic.
func MapOrder(on bool) {}

// MaxSteps raises the per-path step bound (in thousands).
func MaxSteps(k int) {}

// MaxMake bounds symbolic make() sizes.
func MaxMake(n int) {}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Pages gives the bytes of b consecutive addresses starting at a page boundary.
func Pages(b []byte) {}

// Addr is the address of b's first byte.
func Addr(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// Point is a scheduling point.
func Point(what string) {}

// Idle waits until every other goroutine is blocked or finished (engine),
// natively a short sleep.
func Idle() { time.Sleep(30 * time.Millisecond) }

// Advance moves the virtual clock by ms milliseconds, firing due timers.
func Advance(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// Atomic runs f without scheduling points.
func Atomic(f func()) { f() }

// UF is an uninterpreted function of its arguments.
func UF(name string, args ...uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	for _, a := range args {
		for i := 0; i < 8; i++ {
			h = (h ^ (a >> (8 * i) & 255)) * 1099511628211
		}
	}
	return h
}

// Unsupported ends the path: the model does not cover this case.
func Unsupported(what string) { panic("unsupported: " + what) }

// ModelOnly declares that counterexamples of this check involve modelled
// effects (faults, crashes, hash values) which a plain native run cannot
// reproduce; they are reported with the engine's own trace.
func ModelOnly(reason string) {}

// Field is the (also unexported) boolean or integer field of the struct p
// points to.
func Field(p any, name string) int64 {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	switch {
	case f.Kind() == reflect.Bool && f.Bool():
		return 1
	case f.CanInt():
		return f.Int()
	case f.CanUint():
		return int64(f.Uint())
	}
	return 0
}

// AssignErr sets *target to err if its type allows that.
func AssignErr(err error, target any) bool {
	t := reflect.ValueOf(target).Elem()
	if !reflect.TypeOf(err).AssignableTo(t.Type()) {
		return false
	}
	t.Set(reflect.ValueOf(err))
	return true
}

// Certain tells whether the engine sees without a solver that b holds; for
// shortcuts in models that do not change what they compute.
func Certain(b bool) bool { return b }

// Big gives n bytes in a pattern without a short period, some of them symbolic.
func Big(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 1, 127, 511, 1023, 1024, 4095, 4096, n - 1} {
		if i >= 0 && i < n {
			b[i] = Uint8(name)
		}
	}
	return b
}

// Mix is a fixed sequence of well spread numbers below n.
func Mix(i, n int) int {
	x := uint64(i+1) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return int((x >> 33) % uint64(n))
}

// Crowd runs f(0) … f(n-1) in n goroutines that take turns, with one of
// several time slices, and waits for them.
func Crowd(n int, f func(int)) {
	slices := []int{0, 1, 2, 3, 5, 7, 11, 13, 17, 19}
	RoundRobin(slices[Choose("slice", Q(6, 10))])
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(g)
		}()
	}
	wg.Wait()
}

// Both runs f and g in two goroutines and waits for them.
func Both(f, g func()) {
	done := make(chan bool, 1)
	go func() {
		f()
		done <- true
	}()
	g()
	<-done
}
