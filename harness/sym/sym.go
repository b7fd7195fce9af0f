// Package sym is the interface between the harnesses and the symbolic engine.
//
// Under the engine these functions are intercepted. Compiled natively they read
// the solver's assignment (a JSON object on stdin) so that a counterexample runs
// against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

var (
	inputs = map[string]uint64{}
	used   = map[string]int{}
	mu     sync.Mutex
	tmp    string
	covers = map[string]int{}
	guards = map[unsafe.Pointer]*guard{}
)

type guard struct {
	all  []byte
	body []byte
}

// Setup reads the assignment; the returned function cleans up.
func Setup() func() {
	_ = json.NewDecoder(os.Stdin).Decode(&inputs)
	signal.Ignore(syscall.SIGXFSZ)
	var lim uint64
	if fmt.Sscan(os.Getenv("SYM_MEM"), &lim); lim > 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	d, err := os.MkdirTemp("", "vh")
	if err != nil {
		panic(err)
	}
	tmp = d
	try := 0
	fmt.Sscan(os.Getenv("SYM_TRY"), &try)
	rand.Seed(int64(try))
	return func() { os.RemoveAll(d) }
}

func next(name string, w int) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := used[name]
	used[name] = k + 1
	return inputs[fmt.Sprintf("%s#%d/%d", name, k, w)]
}

func U8(name string) uint8    { return uint8(next(name, 8)) }
func U32(name string) uint32  { return uint32(next(name, 32)) }
func U64(name string) uint64  { return next(name, 64) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name, 32))) }
func F64(name string) float64 { return math.Float64frombits(next(name, 64)) }
func Bool(name string) bool   { return next(name, 8) == 1 }

// Int is a value in [lo,hi].
func Int(name string, lo, hi int) int { return lo + int(next(name, 64)) }

// Pick is Int, with one execution path per value.
func Pick(name string, lo, hi int) int { return lo + int(next(name, 64)) }

// Conc splits the execution into one path per value of v.
func Conc(v int) int { return v }

func Assume(b bool) {
	if !b {
		fmt.Println("assumption does not hold")
		exit(77)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("ASSERTION FAILED:", msg)
		exit(1)
	}
}

func exit(n int) {
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(n)
}

func Cover(label string) {
	mu.Lock()
	covers[label]++
	mu.Unlock()
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func IteF32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}
func IteF64(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IsNaN32(x float32) bool    { return x != x }
func IsNaN64(x float64) bool    { return x != x }
func IsFinite32(x float32) bool { return x-x == 0 }
func IsFinite64(x float64) bool { return x-x == 0 }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Explore lets the scheduler preempt at every visible operation, n times.
func Explore(n int) {}

// Yield lets others run. Natively it delays a little, differently in every try.
func Yield() {
	if os.Getenv("SYM_TRY") == "" {
		return
	}
	switch rand.Intn(4) {
	case 0:
		time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
	case 1:
		runtime.Gosched()
	}
}

// TrackRaces turns on race checking.
func TrackRaces() {}

// MaxProcs sets the number of processors the code sees.
func MaxProcs(n int) { runtime.GOMAXPROCS(n) }

// MemLimit bounds a single allocation.
func MemLimit(n int) {}

// TempDir is a private scratch directory.
func TempDir() string { return tmp }

// FileLimit makes writes beyond n bytes fail (-1: no limit).
func FileLimit(n int) {
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	if n < 0 {
		r.Cur = r.Max
	} else {
		r.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

// GuardAlloc returns n zero bytes that end at an inaccessible page.
func GuardAlloc(n int) unsafe.Pointer {
	pg := os.Getpagesize()
	if n == 0 {
		n = 1
	}
	// keep 8 byte alignment: the last bytes before the guard page may be padding
	m := (n + 7) &^ 7
	k := (m + pg - 1) / pg * pg
	b, err := syscall.Mmap(-1, 0, k+pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(b[k:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	p := unsafe.Pointer(&b[k-m])
	mu.Lock()
	guards[p] = &guard{all: b, body: b[:k]}
	mu.Unlock()
	return p
}

// GuardFree makes the block inaccessible for good.
func GuardFree(p unsafe.Pointer) {
	mu.Lock()
	g := guards[p]
	mu.Unlock()
	if g != nil {
		if err := syscall.Mprotect(g.body, syscall.PROT_NONE); err != nil {
			panic(err)
		}
	}
}

// GuardReadOnly (un)protects the block against writes.
func GuardReadOnly(p unsafe.Pointer, ro bool) {
	mu.Lock()
	g := guards[p]
	mu.Unlock()
	if g == nil {
		return
	}
	prot := syscall.PROT_READ
	if !ro {
		prot |= syscall.PROT_WRITE
	}
	if err := syscall.Mprotect(g.body, prot); err != nil {
		panic(err)
	}
}

// FileSize is the size of a file, -1 if there is none.
func FileSize(path string) int {
	st, err := os.Stat(path)
	if err != nil {
		return -1
	}
	return int(st.Size())
}

// OpenHandles is the number of open files below TempDir.
func OpenHandles() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && len(l) > len(tmp) && l[:len(tmp)] == tmp {
			n++
		}
	}
	return n
}

// OpenMappings is the number of live mappings of files below TempDir.
func OpenMappings() int {
	b, _ := os.ReadFile("/proc/self/maps")
	n := 0
	for i := 0; i+len(tmp) <= len(b); i++ {
		if string(b[i:i+len(tmp)]) == tmp {
			n++
		}
	}
	return n
}

// MemEq compares n bytes.
func MemEq(a, b unsafe.Pointer, n int) bool {
	return string(unsafe.Slice((*byte)(a), n)) == string(unsafe.Slice((*byte)(b), n))
}
