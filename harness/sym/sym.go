// Package sym is the harness interface. The symbolic executor intercepts these
// functions; compiled natively they replay a recorded assignment.
package sym

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"time"
)

type assign struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

var (
	vals   = map[string]uint64{}
	names  = map[string]int{}
	params = map[string]int{}
	failed bool
)

var loaded bool

// the assignment is needed as early as package initialisation (see RandReader)
func init() {
	if len(os.Args) > 1 {
		Load(os.Args[1])
	}
}

// Load reads the assignment to replay.
func Load(path string) {
	if loaded {
		return
	}
	loaded = true
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f struct {
		Inputs []assign       `json:"inputs"`
		Params map[string]int `json:"params"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	for _, a := range f.Inputs {
		vals[a.Name] = a.Val
	}
	if f.Params != nil {
		params = f.Params
	}
}

// Reset restarts the input stream (used by repeated concurrent replays).
func Reset() { names = map[string]int{} }

func next(base string) uint64 {
	k := names[base]
	names[base]++
	return vals[fmt.Sprintf("%s#%d", base, k)]
}

func Byte(name string) byte       { return byte(next(name)) }
func Uint16(name string) uint16   { return uint16(next(name)) }
func Int32(name string) int32     { return int32(next(name)) }
func Uint32(name string) uint32   { return uint32(next(name)) }
func Int64(name string) int64     { return int64(next(name)) }
func Uint64(name string) uint64   { return next(name) }
func Int(name string) int         { return int(next(name)) }
func Bool(name string) bool       { return next(name) != 0 }
func Float64(name string) float64 { return math.Float64frombits(next(name)) }

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Range is an arbitrary int in [lo, hi], explored value by value.
func Range(name string, lo, hi int) int {
	v := int(int64(next(name)))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// IntIn is an arbitrary int in [lo, hi], kept symbolic.
func IntIn(name string, lo, hi int) int {
	v := Int(name)
	Assume(And(v >= lo, v <= hi))
	return v
}

// Param is a bound taken from the check configuration.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

type assumeFailed struct{}

func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAILED")
		os.Exit(0)
	}
}

func Assert(c bool, label string) {
	if !c {
		failed = true
		fmt.Println("ASSERT-FAILED " + label)
	}
}

// Failed reports whether an assertion failed.
func Failed() bool { return failed }

func Cover(label string)            { fmt.Println("OBS cover:" + label) }
func ObsInt(label string, v int64)  { fmt.Printf("OBS %s=%d\n", label, v) }
func ObsBool(label string, v bool)  { fmt.Printf("OBS %s=%v\n", label, v) }
func ObsStr(label string, v string) { fmt.Printf("OBS %s=%x\n", label, v) }
func MapOrder(on bool)              {}
func Explore()                      {}
func StopExplore()                  {}
func Quiesce()                      { time.Sleep(20 * time.Millisecond) }
func Symbolic() bool                { return false }
func And(a, b bool) bool            { return a && b }
func Or(a, b bool) bool             { return a || b }
func Implies(a, b bool) bool        { return !a || b }
func EqBytes(a, b []byte) bool      { return string(a) == string(b) }

// IteInt selects without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// ---- environment: the native build of the module has time.Now, time.Since,
// runtime.ReadMemStats, runtime.NumGoroutine, runtime.NumCgoCall and
// crypto/rand.Reader redirected here.

var (
	clockSet bool
	clock    int64
	memStats *runtime.MemStats
	numGo    = -1
	numCgo   = int64(-1)
)

var started = time.Now()

// SetClock fixes the instant (in nanoseconds after an arbitrary base) every
// later time.Now in the module returns.
func SetClock(ns int64) { clockSet, clock = true, ns }

// Now is what time.Now returns in the module.
func Now() time.Time {
	if clockSet {
		return time.Unix(1700000000, clock).UTC()
	}
	return time.Unix(1700000000, 0).UTC().Add(time.Since(started))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// SetMemStats makes runtime.ReadMemStats copy *m.
func SetMemStats(m *runtime.MemStats) { memStats = m }

func ReadMemStats(m *runtime.MemStats) {
	if memStats != nil {
		*m = *memStats
		return
	}
	runtime.ReadMemStats(m)
}

func SetNumGoroutine(n int) { numGo = n }
func SetNumCgoCall(n int64) { numCgo = n }
func NumGoroutine() int {
	if numGo >= 0 {
		return numGo
	}
	return runtime.NumGoroutine()
}
func NumCgoCall() int64 {
	if numCgo >= 0 {
		return numCgo
	}
	return runtime.NumCgoCall()
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(next("crand"))
	}
	return len(b), nil
}

// RandReader replaces crypto/rand.Reader.
var RandReader io.Reader = randReader{}

func RandRead(b []byte) (int, error) { return RandReader.Read(b) }

// SymRand makes the bytes read from crypto/rand from now on arbitrary (they
// come from the recorded assignment in a native replay).
func SymRand() {}

var fast time.Duration = 1

// FastTicks makes native tickers run a thousand times faster.
func FastTicks() { fast = 1000 }

var period time.Duration

// Period is the period of the latest ticker.
func Period() time.Duration { return period }

func NewTicker(d time.Duration) *time.Ticker {
	period = d
	if d > 0 {
		if d /= fast; d == 0 {
			d = 1
		}
	}
	return time.NewTicker(d)
}

// Fire makes every running ticker tick (natively: waits for ticks).
func Fire() { time.Sleep(3 * time.Millisecond) }
