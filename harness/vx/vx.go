// Package vx is the harness interface. Under the symbolic executor every
// function here is an intrinsic; compiled natively it replays one recorded
// counterexample (the file named by VX_INPUT).
package vx

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

var (
	mu     sync.Mutex
	loaded bool
	ins    []input
	params map[string]int
	pos    int
	jitter bool
)

func load() {
	if loaded {
		return
	}
	loaded = true
	b, err := os.ReadFile(os.Getenv("VX_INPUT"))
	if err != nil {
		fmt.Println("VX-NOINPUT", err)
		os.Exit(5)
	}
	var f struct {
		Inputs []input        `json:"inputs"`
		Params map[string]int `json:"params"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("VX-NOINPUT", err)
		os.Exit(5)
	}
	for _, i := range f.Inputs {
		if i.Kind == "sched" {
			jitter = true
		} else {
			ins = append(ins, i)
		}
	}
	params = f.Params
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	if pos >= len(ins) {
		fmt.Println("VX-EXHAUSTED at", name)
		os.Exit(6)
	}
	v := ins[pos]
	if v.Name != name {
		fmt.Printf("VX-MISMATCH want %s have %s\n", name, v.Name)
		os.Exit(6)
	}
	pos++
	return v.Val
}

func Bool(name string) bool   { return next(name) == 1 }
func U8(name string) uint8    { return uint8(next(name)) }
func U16(name string) uint16  { return uint16(next(name)) }
func U32(name string) uint32  { return uint32(next(name)) }
func U64(name string) uint64  { return next(name) }
func Int(name string) int     { return int(next(name)) }
func I64(name string) int64   { return int64(next(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name))) }
func F64(name string) float64 { return math.Float64frombits(next(name)) }

// IntRange is an integer in [lo,hi].
func IntRange(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next(name))
}

// Choice forks over 0..n-1.
func Choice(name string, n int) int { return int(next(name)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }
func Assume(b bool) {
	if !b {
		fmt.Println("VX-ASSUME-FAILED")
		os.Exit(4)
	}
}
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("VX-FAIL: " + msg)
		buf := make([]byte, 1<<14)
		fmt.Println(string(buf[:runtime.Stack(buf, false)]))
		os.Exit(3)
	}
}
func Cover(string) {}
func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
func Symbolic() bool { return false }
func Preempt(n int)  {}

// Races reports, while on, accesses to the same memory or map by different
// goroutines that nothing orders.
func Races(b bool) {}

// Schedules forks over which goroutine runs next whenever one blocks or ends.
func Schedules(b bool) {}

// Order chooses whether goroutines from here on start in the order they were
// made or the other way round.
func Order() {}

// Jitter, called at storage operations, spreads the goroutines of a native
// replay of an interleaving-dependent counterexample over other interleavings.
func Jitter() {
	mu.Lock()
	load()
	j := jitter
	mu.Unlock()
	if j {
		time.Sleep(time.Duration(rand.IntN(2000)) * time.Microsecond)
	}
}
func MapOrder(b bool)        {}
func Yield()                 { runtime.Gosched() }
func SyncPoint()             {}
func Concrete(i int) int     { return i }
func Note(v any)             {}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteF32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}

// FireTickers lets the periodic jobs of the index run once (they run every 3 s).
func FireTickers() { time.Sleep(3300 * time.Millisecond) }
