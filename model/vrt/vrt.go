// Package zz_vrt is the harness interface. Under the symbolic engine every function here is
// intercepted; the bodies below are the native ones used to replay a counterexample.
package zz_vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type schedRec struct {
	T    int    `json:"t"`
	Op   string `json:"op"`
	Pos  string `json:"pos"`
	P    int    `json:"p"`
	Ppos string `json:"ppos"`
}

type recording struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Scenario string            `json:"scenario"`
	Inputs   map[string]uint64 `json:"inputs"`
	Bounds   map[string]int    `json:"bounds"`
	Schedule []schedRec        `json:"schedule"`
	Gap      int               `json:"gap_ms"`
}

type slot struct {
	t   int
	pos string
}

var (
	mu     sync.Mutex
	rec    recording
	occ    = map[string]int{}
	logf   *os.File
	order  []slot
	next   int
	gmap   = map[uint64]int{} // goroutine -> engine thread
	taken  = map[int]bool{}
	gating int32 // read by goroutines started before Main
)

// Main runs the recorded scenario.
func Main(scen map[string]func()) {
	if b, err := os.ReadFile(os.Getenv("ZZ_REPLAY")); err == nil {
		if err := json.Unmarshal(b, &rec); err != nil {
			fmt.Println(err)
			os.Exit(9)
		}
	}
	if p := os.Getenv("ZZ_LOG"); p != "" {
		logf, _ = os.Create(p)
	}
	for _, r := range rec.Schedule {
		order = append(order, slot{r.T, r.Pos})
		if r.P >= 0 {
			order = append(order, slot{r.P, r.Ppos})
		}
	}
	mu.Lock()
	gmap[gid()] = 0
	taken[0] = true
	mu.Unlock()
	if rec.Gap > 0 && len(order) > 0 {
		atomic.StoreInt32(&gating, 1)
	}
	baseG = runtime.NumGoroutine()
	f := scen[rec.Scenario]
	if f == nil {
		fmt.Println("no scenario", rec.Scenario)
		os.Exit(9)
	}
	f()
	os.Exit(0)
}

func gid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	v, _ := strconv.ParseUint(f[1], 10, 64)
	return v
}

// At holds a goroutine until the recorded schedule lets it proceed.
func At(pos string) {
	if atomic.LoadInt32(&gating) == 0 {
		return
	}
	g := gid()
	mu.Lock()
	t, ok := gmap[g]
	if !ok {
		// a new goroutine: the thread whose first remaining entry is here
		seen := map[int]bool{}
		for i := 0; i < len(order); i++ {
			s := order[i]
			if seen[s.t] || taken[s.t] {
				continue
			}
			seen[s.t] = true
			if s.pos == pos {
				t, ok = s.t, true
				break
			}
		}
		if !ok {
			mu.Unlock()
			return
		}
		gmap[g] = t
		taken[t] = true
	}
	// my next entry
	mine := -1
	for i := next; i < len(order); i++ {
		if order[i].t == t {
			mine = i
			break
		}
	}
	if mine < 0 || order[mine].pos != pos {
		mu.Unlock()
		return
	}
	gap := time.Duration(rec.Gap) * time.Millisecond
	limit := time.Now().Add(gap * time.Duration(4+mine-next))
	for next < mine && time.Now().Before(limit) {
		mu.Unlock()
		time.Sleep(time.Millisecond / 2)
		mu.Lock()
	}
	if next <= mine {
		next = mine + 1
	}
	mu.Unlock()
	// let the operation take effect before the next one is released
	if mine+1 < len(order) && order[mine+1].t != t {
		go func() {}()
	}
	time.Sleep(gap / 4)
}

func take(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := occ[name]
	occ[name] = k + 1
	return rec.Inputs[name+"#"+strconv.Itoa(k)]
}

func Int64(name string) int64   { return int64(take(name)) }
func Uint64(name string) uint64 { return take(name) }
func AnyInt(name string) int    { return int(take(name)) }
func Uint32(name string) uint32 { return uint32(take(name)) }
func Byte(name string) byte     { return byte(take(name)) }
func Bool(name string) bool     { return take(name) == 1 }

func Int(name string, lo, hi int) int {
	v := int(int64(take(name)))
	Assume(lo <= v && v <= hi)
	return v
}

func Choose(name string, n int) int {
	Assume(n > 0)
	v := int(take(name))
	Assume(v < n)
	return v
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take(name + "[" + strconv.Itoa(i) + "]"))
	}
	return b
}

func Assume(b bool) {
	if !b {
		fmt.Println("ZZ-ASSUME")
		os.Exit(4)
	}
}

func Assert(b bool, label string) {
	if !b {
		fmt.Println("ZZ-ASSERT", label)
		os.Exit(3)
	}
}

func Cover(label string) {}

func Bound(name string, quick, thorough int) int {
	if v, ok := rec.Bounds[name]; ok {
		return v
	}
	if rec.Tier == "thorough" {
		return thorough
	}
	return quick
}

func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vals {
		sb.WriteByte(' ')
		switch x := v.(type) {
		case nil:
			sb.WriteString("<nil>")
		case string:
			sb.WriteString(strconv.Quote(x))
		case []byte:
			sb.WriteString(strconv.Quote(string(x)))
		case []string:
			var p []string
			for _, s := range x {
				p = append(p, strconv.Quote(s))
			}
			sb.WriteString("[" + strings.Join(p, " ") + "]")
		default:
			fmt.Fprintf(&sb, "%d", boolOr(v))
		}
	}
	sb.WriteByte('\n')
	mu.Lock()
	if logf != nil {
		logf.WriteString(sb.String())
	}
	mu.Unlock()
}

type lit string

func (l lit) Format(f fmt.State, c rune) { f.Write([]byte(l)) }

func boolOr(v interface{}) interface{} {
	if b, ok := v.(bool); ok {
		return lit(strconv.FormatBool(b))
	}
	return v
}

// Point is a scheduling point on the named object.
func Point(obj string) { At("point:" + obj) }

var baseG = runtime.NumGoroutine()

// Settle waits until every other goroutine has ended or is blocked for good and tells how many
// there are beyond those of package initialisation.
func Settle() int {
	At("point:settle")
	n := 0
	for i := 0; i < 400; i++ {
		if n = runtime.NumGoroutine() - baseG; n <= 0 {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}

func Symbolic() bool     { return false }
func MapOrder(bool)      {}
func RaceOn()            {}
func Concrete(n int) int { return n }
func Stop()              { os.Exit(0) }
func Prune()             { os.Exit(4) }

// And, Or, Implies, IteInt and IteByte build one formula instead of branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func ConcreteString(s string) string { return s }

func Comparable(x interface{}) bool { return true }

func TypeName(x interface{}) string { return fmt.Sprintf("%T", x) }

func Plain(x interface{}) interface{} { return x }

func Kids(x interface{}) (string, []interface{}, []string) { return "other", nil, nil }

// Fields gives pointers to the fields of the struct p points to, with their names and tags.
func Fields(p interface{}) (ptrs []interface{}, names, tags []string) {
	e := reflect.ValueOf(p).Elem()
	for i := 0; i < e.NumField(); i++ {
		ptrs = append(ptrs, e.Field(i).Addr().Interface())
		names = append(names, e.Type().Field(i).Name)
		tags = append(tags, string(e.Type().Field(i).Tag))
	}
	return
}

var modelMu sync.Mutex

// Enter and Leave bracket a model operation; natively they make it atomic.
func Enter() { modelMu.Lock() }
func Leave() { modelMu.Unlock() }

// Touch reads a caller's buffer.
func Touch(b []byte) { touch(b) }

//go:noinline
func touch(b []byte) (x byte) {
	for _, c := range b {
		x ^= c
	}
	return
}

func SliceLen(x interface{}) int        { return 0 }
func SwapElems(x interface{}, i, j int) {}
