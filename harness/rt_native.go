package main

// The harness runtime for native replay: inputs, random draws and faults come
// from a file written by the engine; claims are evaluated on the real code.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	xrand "golang.org/x/exp/rand"
)

type zIn struct {
	K string `json:"k"`
	N string `json:"n"`
	V uint64 `json:"v"`
}

type zFail struct {
	Label  string `json:"label"`
	Soft   bool   `json:"soft"`
	Detail string `json:"detail"`
}

type zState struct {
	Harness string `json:"harness"`
	Tier    int    `json:"tier"`
	Inputs  []zIn  `json:"inputs"`
	Draws   []zIn  `json:"draws"`
}

type zResult struct {
	Status string  `json:"status"` // done, exhausted, mismatch, assume, panic
	Detail string  `json:"detail"`
	Fails  []zFail `json:"fails"`
	Claims int     `json:"claims"`
	Reach  []string `json:"reach"`
}

var (
	zS       zState
	zR       zResult
	zOut     string
	zi, zd   int
	zTemp    []string
	zOff     bool // hooks off
	zFaulty  int
	zDidFail bool
	zBudget  int64 = -1
	zBase    uint64
	zCap     *os.File
	zSeeds   []uint64
)

func zFinish(status, detail string) {
	zOff = true
	zCheckAlloc()
	zR.Status, zR.Detail = status, detail
	for _, d := range zTemp {
		os.RemoveAll(d)
	}
	b, _ := json.Marshal(zR)
	os.WriteFile(zOut, b, 0644)
	os.Exit(0)
}

func zRun(args []string, table map[string]func()) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &zS); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	zOut = args[1]
	f := table[zS.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", zS.Harness)
		os.Exit(3)
	}
	rand.ZZHook = zDraw
	xrand.ZZHook = zDraw
	rand.ZZSeed = func(s uint64) { zSeeds = append(zSeeds, s) }
	xrand.ZZSeed = rand.ZZSeed
	os.ZZFault = zFault
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			zR.Fails = append(zR.Fails, zFail{"panic", false, fmt.Sprint(r) + "\n" + string(buf)})
			zFinish("panic", fmt.Sprint(r))
		}
	}()
	f()
	zFinish("done", "")
}

func zNext(k, name string) zIn {
	for zi < len(zS.Inputs) && strings.HasPrefix(zS.Inputs[zi].N, "fault:") && zS.Inputs[zi].V == 0 {
		zi++ // an operation the real code did not perform
	}
	if zi >= len(zS.Inputs) {
		zFinish("exhausted", k+":"+name)
	}
	in := zS.Inputs[zi]
	if in.K != k || in.N != name {
		zFinish("mismatch", fmt.Sprintf("want %s:%s have %s:%s", k, name, in.K, in.N))
	}
	zi++
	return in
}

func vFloat(name string) float64 { return math.Float64frombits(zNext("f", name).V) }
func vFinite(name string) float64 {
	f := math.Float64frombits(zNext("f", name).V)
	vAssume(!math.IsNaN(f) && !math.IsInf(f, 0))
	return f
}
func vInt(name string, lo, hi int) int {
	v := int(zNext("i", name).V)
	vAssume(lo <= v && v <= hi)
	return v
}
func vByte(name string) byte { return byte(zNext("y", name).V) }
func vBool(name string) bool { return zNext("b", name).V != 0 }
func vPick(name string, n int) int {
	v := int(zNext("p", name).V)
	vAssume(0 <= v && v < n)
	return v
}
func vAssume(c bool) {
	if !c {
		zFinish("assume", "")
	}
}
func vGiven(c bool) { vAssume(c) }
func vAssert(c bool, label string) {
	zR.Claims++
	if !c {
		zR.Fails = append(zR.Fails, zFail{label, false, "false"})
	}
}
func vEq(a, b float64, label string) {
	zR.Claims++
	if !zClose(a, b, 3e-9, 1e-9) {
		zR.Fails = append(zR.Fails, zFail{label, true, fmt.Sprintf("got %v want %v", a, b)})
	}
}
func zClose(a, b, rel, abs float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}
func vSame(a, b float64, label string) {
	zR.Claims++
	if math.Float64bits(a) != math.Float64bits(b) && !(math.IsNaN(a) && math.IsNaN(b)) {
		zR.Fails = append(zR.Fails, zFail{label, false, fmt.Sprintf("got %v want %v", a, b)})
	}
}
func vGrad(label string, cell *float64, f func() float64, g float64) {
	zR.Claims++
	x := *cell
	h := 1e-5
	*cell = x + h
	fp := f()
	*cell = x - h
	fm := f()
	*cell = x
	d := (fp - fm) / (2 * h)
	if !(math.Abs(d-g) <= 1e-4*(1+math.Abs(g))) {
		zR.Fails = append(zR.Fails, zFail{label, true, fmt.Sprintf("gradient %v, difference quotient %v", g, d)})
	}
}
func vReach(label string) { zR.Reach = append(zR.Reach, label) }
func vTier() int          { return zS.Tier }
func vSymbolic() bool     { return false }

func zCheckAlloc() {
	if zBudget < 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if used := int64(m.TotalAlloc - zBase); used > 2*zBudget+65536 {
		zR.Fails = append(zR.Fails, zFail{"alloc", false, fmt.Sprintf("%d bytes allocated, budget %d", used, zBudget)})
	}
	zBudget = -1
}

func vAllocBudget(n int) {
	zCheckAlloc()
	if n < 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	zBudget, zBase = int64(n), m.TotalAlloc
}

// ---- random draws

func zDraw(kind string, n int64) (float64, uint64) {
	if zd >= len(zS.Draws) {
		zFinish("exhausted", "draw "+kind)
	}
	d := zS.Draws[zd]
	if d.K != kind || kind == "i" && d.N != fmt.Sprint(n) {
		zFinish("mismatch", fmt.Sprintf("draw %s(%d), have %s(%s)", kind, n, d.K, d.N))
	}
	zd++
	f := math.Float64frombits(d.V)
	if kind == "u" && !(0 <= f && f < 1) || kind == "i" && d.V >= uint64(n) {
		zFinish("assume", "draw")
	}
	return f, d.V
}
func vDrawCount() int { return zd }
func vDrawSeek(k int) { zd = k }
func vDraw(k int) float64 {
	if k < 0 || k >= len(zS.Draws) || k >= len(zS.Draws) {
		zFinish("exhausted", "vDraw")
	}
	return math.Float64frombits(zS.Draws[k].V)
}
func vUndecided(why string) { zFinish("assume", why) }
func vSeeds() int              { return len(zSeeds) }
func vSeedSame(i, j int) bool  { return zSeeds[i] == zSeeds[j] }
func vDrawKind(k int) string {
	if k < 0 || k >= len(zS.Draws) {
		return ""
	}
	return zS.Draws[k].K
}

// ---- files

func zFault(op, name string) int {
	if zOff || zFaulty <= 0 || name == "/dev/stdout" || name == "/dev/stderr" || zCap != nil && name == zCap.Name() {
		return 0
	}
	// the next input decides, if it is about an operation of this kind
	j := zi
	for j < len(zS.Inputs) && strings.HasPrefix(zS.Inputs[j].N, "fault:") && zS.Inputs[j].N != "fault:"+op && zS.Inputs[j].V == 0 {
		j++
	}
	if j >= len(zS.Inputs) || zS.Inputs[j].N != "fault:"+op {
		return 0
	}
	zi = j + 1
	if zS.Inputs[j].V == 0 {
		return 0
	}
	zFaulty--
	k := 0
	if op == "write" || op == "read" {
		k = int(zNext("p", "short").V)
	}
	if op != "read" || k == 0 {
		zDidFail = true
	}
	return 1 + k
}
func vTempDir() string {
	zOff = true
	d, err := os.MkdirTemp("", "zzv")
	if err != nil {
		zFinish("mismatch", err.Error())
	}
	zTemp = append(zTemp, d)
	zOff = false
	return d
}
func vFaults(n int)  { zFaulty = n }
func vFaulted() bool { return zDidFail }
func vCaptureStdout() {
	d := vTempDir()
	zOff = true
	f, err := os.Create(filepath.Join(d, "stdout"))
	if err != nil {
		zFinish("mismatch", err.Error())
	}
	zCap = f
	os.Stdout = f
	zOff = false
}
func vStdoutLen() int {
	if zCap == nil {
		return 0
	}
	st, err := zCap.Stat()
	if err != nil {
		return 0
	}
	return int(st.Size())
}
func vConc(x int) int         { return x }
func vIsVar(x float64) bool { return true }
