package main

// Path exploration: decisions, the path condition, assertions, the work list.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	K byte // B branch, C concretise, P choice, M merge, A assertion
	V uint64
	E bool // C: equal / different
}

type Input struct {
	Kind string // f float, i int, b bool, p pick, y byte; draws: u uniform, n normal, e exp, i int
	Name string
	T    *Term
	V    uint64 // p
}

// Harness is one entry function, explored completely per mode.
type Harness struct {
	fn       *ssa.Function
	name     string
	opts     map[string]string
	mu       sync.Mutex
	noIf     map[*ssa.If]int
	deadline time.Time

	// results of the current mode
	res  *ModeResult
	only map[string]bool // labels to decide (nil: all)
	stop int32
}

type ModeResult struct {
	Mode       Mode
	Paths      int64
	Steps      int64
	Merges     int64
	Ended      map[string]int64
	Asserts    int64
	Trivial    int64
	Discharged int64
	Soft       map[string]bool
	Open       map[string]int // label -> number of paths where it is not discharged
	Unknown    map[string]int // label -> solver gave up
	Cands      []*Cand
	Unsupp     map[string]int64
	Reached    map[string]int64
	Witness    []*Cand
	Dropped    int64 // work items dropped (deadline)
	Fns        map[string]bool
	QueryLog   []string
	CrossOK    int64
	CrossBad   []string
	labels     map[string]bool
}

// Cand is a candidate counterexample (or a witness) with concrete inputs.
type Cand struct {
	Label  string
	Msg    string
	Mode   string
	Inputs []CI
	Draws  []CI
	prefix []Dec
	kind   string
	tried  bool
}

type CI struct {
	K string  `json:"k"`
	N string  `json:"n"`
	V uint64  `json:"v"`
	F float64 `json:"-"`
	S string  `json:"s,omitempty"`
}

// picks shows the choices made on a path.
func (p *Path) picks() string {
	s := ""
	for _, in := range p.inputs {
		if in.Kind == "p" {
			s += fmt.Sprintf(" %s=%d", in.Name, in.V)
		}
	}
	return s
}

func (h *Harness) memoNo(in *ssa.If) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.noIf[in] >= 2
}

func (h *Harness) noteNo(in *ssa.If) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.noIf[in]++
}

// ---- path

type Path struct {
	eng  *Engine
	prog *ssa.Program
	h    *Harness
	b    *Builder
	s    *Solver
	w    *Worker

	curIf         *ssa.If // the branch being decided
	splits        map[*ssa.If]*split
	forkLow       bool
	prefix        []Dec
	pos           int
	trace         []Dec
	pc            []*Term
	inputs        []Input
	draws         []Input
	seeds, clocks []*Term // what random sources were seeded with; clock readings
	clocked       int     // readings whose order the solver knows

	drawPos int // replaying recorded draws (vRewind)

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	logs       [][]logEnt
	mergeStack []*ssa.If
	specMaps   []int
	mapSerial  int
	noMerge    bool
	mapOrder   string

	steps, maxSteps int64
	merges          int64
	alloc           int64
	allocBudget     int64
	fs              *fsModel
	counter         map[string]int
	sentinels       map[string]Iface
	stdLog          *Value
	once            map[*Value]bool
	facts           *facts
	pcGen           int
	builders        map[*Value]Str
}

func (p *Path) note(fn *ssa.Function) {
	if fn.Pkg == p.eng.target {
		p.w.fns[fn] = true
	}
}

func (p *Path) fork(d Dec) {
	alt := make([]Dec, len(p.trace)+1)
	copy(alt, p.trace)
	alt[len(p.trace)] = d
	p.eng.put(&Work{h: p.h, prefix: alt, mode: p.b.mode, low: p.forkLow})
}

// nextDec returns the recorded decision, if the path is still being replayed.
func (p *Path) nextDec(k byte) (Dec, bool) {
	if p.pos >= len(p.prefix) {
		return Dec{}, false
	}
	d := p.prefix[p.pos]
	if d.K != k {
		unsupported("replay mismatch: want %c have %c", k, d.K)
	}
	p.pos++
	p.trace = append(p.trace, d)
	return d, true
}

func (p *Path) check(extra ...*Term) int {
	return p.s.Feasible(p.pc, extra)
}

// decide picks a side of c, forking when both are possible.
func (p *Path) decide(c *Term) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	if k := p.known(c); k.isConst() {
		return k.isTrue()
	}
	nc := p.b.Not(c)
	if d, ok := p.nextDec('B'); ok {
		if d.V == 1 {
			p.pc = append(p.pc, c)
		} else {
			p.pc = append(p.pc, nc)
		}
		return d.V == 1
	}
	p.deadline()
	r := p.check(c)
	if r == Unsat {
		p.trace = append(p.trace, Dec{K: 'B', V: 0})
		p.pc = append(p.pc, nc)
		return false
	}
	if p.check(nc) == Unsat {
		p.trace = append(p.trace, Dec{K: 'B', V: 1})
		p.pc = append(p.pc, c)
		return true
	}
	if len(p.logs) > 0 {
		panic(mergeAbort{"undecided condition"})
	}
	// a path that keeps deciding one branch the same way is probably in a loop
	// whose end is symbolic: take the other side first and the rest last
	v := true
	if in := p.curIf; in != nil {
		if p.splits == nil {
			p.splits = map[*ssa.If]*split{}
		}
		sp := p.splits[in]
		if sp == nil {
			sp = &split{last: true}
			p.splits[in] = sp
		}
		if sp.n++; sp.n > 24 {
			v = !sp.last
		}
		sp.last = v
		p.forkLow = sp.n > 24
	}
	if v {
		p.fork(Dec{K: 'B', V: 0})
		p.trace = append(p.trace, Dec{K: 'B', V: 1})
		p.pc = append(p.pc, c)
	} else {
		p.fork(Dec{K: 'B', V: 1})
		p.trace = append(p.trace, Dec{K: 'B', V: 0})
		p.pc = append(p.pc, nc)
	}
	p.forkLow = false
	return v
}

type split struct {
	n    int
	last bool
}

func (p *Path) deadline() {
	if atomic.LoadInt32(&p.h.stop) != 0 || atomic.LoadInt32(&p.eng.halt) != 0 || time.Now().After(p.h.deadline) {
		if len(p.logs) > 0 {
			// let the merge machinery unwind first
		}
		panic(pathEnd{"deadline"})
	}
}

// concretize forks over the values of t.
func (p *Path) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.c
		}
		if d, ok := p.nextDec('C'); ok {
			v := p.b.BV(d.V, t.s.W)
			if d.E {
				p.pc = append(p.pc, p.b.Eq(t, v))
				return d.V
			}
			p.pc = append(p.pc, p.b.Not(p.b.Eq(t, v)))
			continue
		}
		p.deadline()
		r, m := p.s.Check(p.pc, []*Term{p.b.True}, []*Term{t})
		if r != Sat {
			panic(pathEnd{"infeasible"})
		}
		v, ok := m[t].(uint64)
		if !ok {
			unsupported("no value for %s", t)
		}
		eq := p.b.Eq(t, p.b.BV(v, t.s.W))
		if p.check(p.b.Not(eq)) != Unsat {
			if len(p.logs) > 0 {
				panic(mergeAbort{"concretisation"})
			}
			p.fork(Dec{K: 'C', V: v, E: false})
		}
		p.trace = append(p.trace, Dec{K: 'C', V: v, E: true})
		p.pc = append(p.pc, eq)
		return v
	}
}

// choose forks n ways.
func (p *Path) choose(n int) int {
	if d, ok := p.nextDec('P'); ok {
		return int(d.V)
	}
	p.effect("choice")
	p.deadline()
	for k := n - 1; k > 0; k-- {
		p.fork(Dec{K: 'P', V: uint64(k)})
	}
	p.trace = append(p.trace, Dec{K: 'P', V: 0})
	return 0
}

func (p *Path) fresh(kind, name string, s Sort) *Term {
	p.effect("input")
	k := kind + ":" + name
	n := p.counter[k]
	p.counter[k] = n + 1
	return p.b.Var(fmt.Sprintf("%s#%d", k, n), s)
}

func (p *Path) addAssume(t *Term) {
	if t.isTrue() {
		return
	}
	for _, c := range p.pc {
		if c == t {
			return
		}
	}
	p.pc = append(p.pc, t)
}

// ---- assertions

// assert decides a claim on this path. soft: equality up to rounding.
func (p *Path) assert(c *Term, label string, soft bool, margin *Term) {
	res := p.h.res
	p.w.asserts++
	p.w.labels[label] = true
	if soft {
		p.w.soft[label] = true
	}
	if p.h.only != nil && !p.h.only[label] {
		return
	}
	if d, ok := p.nextDec('A'); ok {
		// decided before on a shared prefix
		if d.V == 1 {
			if !c.isTrue() && len(p.pc) < 400 {
				p.addAssume(c)
			}
		}
		return
	}
	p.deadline()
	if !c.isTrue() && p.known(c).isTrue() {
		c = p.b.True
	}
	if c.isTrue() {
		p.w.trivialN++
		p.trace = append(p.trace, Dec{K: 'A', V: 1})
		return
	}
	neg := p.b.Not(c)
	want := p.inputTerms()
	r, m := p.s.Check(p.pc, []*Term{neg}, nil)
	switch r {
	case Unsat:
		p.w.discharged++
		p.trace = append(p.trace, Dec{K: 'A', V: 1})
		if p.eng.thorough && p.w.discharged%7 == 1 && p.eng.crossLeft() {
			switch p.s.Cross(p.pc, []*Term{neg}, 20000) {
			case Unsat:
				atomic.AddInt64(&res.CrossOK, 1)
			case Sat:
				p.h.mu.Lock()
				res.CrossBad = append(res.CrossBad, label)
				p.h.mu.Unlock()
			}
		}
		if len(p.pc) < 400 {
			p.addAssume(c)
		}
		return
	case Unknown:
		p.h.mu.Lock()
		res.Unknown[label]++
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%s %s: %s unknown at %s\n", p.h.name, p.b.mode, label, p.picks())
		}
		p.h.mu.Unlock()
	}
	if len(p.logs) > 0 && r == Sat {
		panic(mergeAbort{"assertion"})
	}
	p.trace = append(p.trace, Dec{K: 'A', V: 0})
	p.h.mu.Lock()
	res.Open[label]++
	n := res.Open[label]
	p.h.mu.Unlock()
	if r == Sat && n <= 12 || r == Unknown && n <= 6 {
		if p.b.mode == FU && soft {
			return // decided in mode R
		}
		p.candidates(label, neg, soft, margin, want)
		_ = m
	}
}

// candidates asks for good counterexamples, nicest first.
func (p *Path) candidates(label string, neg *Term, soft bool, margin *Term, want []*Term) {
	b := p.b
	if b.mode == R {
		var bound, nice []*Term
		for _, t := range want {
			if t.s.K == SF {
				lim := b.Float(4)
				bound = append(bound, b.FLe(t, lim), b.FLe(b.FNeg(lim), t))
			}
		}
		if margin != nil {
			nice = append(nice, margin)
		} else {
			nice = append(nice, neg)
		}
		got := 0
		try := func(ex []*Term) {
			r, m := p.s.Check(p.pc, ex, want)
			if r == Sat {
				p.emit(label, m)
				got++
			}
		}
		if ufs := p.curves(nice); len(ufs) > 0 {
			got += p.refine(label, nice, ufs, want)
		}
		try(append(append([]*Term{}, nice...), bound...))
		// several different points: forbid small neighbourhoods by fixing signs of inputs
		rng := newRng(p.eng.seed + int64(len(label)))
		for k := 0; k < 6; k++ {
			ex := append(append([]*Term{}, nice...), bound...)
			// fix most inputs to concrete values to make the query easy
			for i, t := range want {
				if t.s.K == SF && (k >= 2 || i%3 == k) {
					if rng.intn(4) == 0 && k < 5 {
						continue
					}
					v := b.Rat(big.NewRat(int64(rng.intn(33)-16), 8))
					ex = append(ex, b.mk(OEq, bS, 0, "", t, v))
				}
			}
			try(ex)
		}
		if got == 0 {
			try([]*Term{neg})
		}
		return
	}
	// IEEE modes: prefer tame values
	var tame []*Term
	for _, t := range want {
		if t.s.K == SF {
			tame = append(tame, b.FLe(b.FAbs(t), b.Float(1024)), b.Or(b.FEq(t, b.Float(0)), b.FLe(b.Float(1.0/1024), b.FAbs(t))))
		}
	}
	for _, ex := range [][]*Term{append([]*Term{neg}, tame...), {neg}} {
		r, m := p.s.Check(p.pc, ex, want)
		if r == Sat {
			p.emit(label, m)
		}
	}
}

type rngT struct{ s uint64 }

func newRng(seed int64) *rngT { return &rngT{uint64(seed)*2862933555777941757 + 3037000493} }
func (r *rngT) intn(n int) int {
	r.s ^= r.s << 13
	r.s ^= r.s >> 7
	r.s ^= r.s << 17
	return int(r.s % uint64(n))
}

func (p *Path) inputTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range [][]Input{p.inputs, p.draws} {
		for _, in := range l {
			if in.T != nil && !in.T.isConst() && !seen[in.T] {
				seen[in.T] = true
				out = append(out, in.T)
			}
		}
	}
	return out
}

func (p *Path) concreteInputs(l []Input, m Model) []CI {
	var out []CI
	for _, in := range l {
		c := CI{K: in.Kind, N: in.Name, V: in.V}
		if in.Kind == "i" && in.Name == "draw" {
			c.N = fmt.Sprint(in.V) // the bound of an integer draw
		}
		if in.T != nil {
			t := in.T
			var v interface{}
			if t.isConst() {
				if t.s.K == SF && p.b.mode == R {
					v = t.rat
				} else {
					v = t.c
				}
			} else {
				v = m[t]
			}
			switch v := v.(type) {
			case bool:
				if v {
					c.V = 1
				} else {
					c.V = 0
				}
			case uint64:
				c.V = v
				if t.s.K == SBV {
					c.V = uint64(signed(v, t.s.W))
				}
			case *big.Rat:
				f, _ := v.Float64()
				c.V = math.Float64bits(f)
			}
			if t.s.K == SF {
				c.S = fmt.Sprint(math.Float64frombits(c.V))
			} else {
				c.S = fmt.Sprint(int64(c.V))
			}
		}
		out = append(out, c)
	}
	return out
}

func (p *Path) emit(label string, m Model) {
	c := &Cand{Label: label, Mode: p.b.mode.String(), prefix: append([]Dec{}, p.trace...)}
	c.Inputs = p.concreteInputs(p.inputs, m)
	c.Draws = p.concreteInputs(p.draws, m)
	p.h.mu.Lock()
	p.h.res.Cands = append(p.h.res.Cands, c)
	p.h.mu.Unlock()
	p.eng.onCand(p.h, c, p.b.mode)
}

// violation reports the current path as violating.
func (p *Path) violation(label, msg string, extra *Term) {
	p.h.mu.Lock()
	p.h.res.Open[label]++
	n := p.h.res.Open[label]
	p.w.labels[label] = true
	p.h.mu.Unlock()
	if n > 12 {
		return
	}
	want := p.inputTerms()
	if os.Getenv("VDUMP") != "" {
		os.WriteFile(os.Getenv("VDUMP"), []byte(Script(p.b, p.s.axioms, p.pc, nil, false)), 0644)
	}
	b := p.b
	var tame []*Term
	for _, t := range want {
		if t.s.K == SF {
			tame = append(tame, b.FLe(b.FAbs(t), b.Float(64)))
		}
		if t.s.K == SBV && t.s.W == 64 {
			tame = append(tame, b.cmp(OSle, t, b.BV(1000, 64)), b.cmp(OSle, b.BV(^uint64(999), 64), t))
		}
	}
	for _, ex := range [][]*Term{tame, {b.True}} {
		if extra != nil {
			ex = append(ex, extra)
		}
		r, m := p.s.Check(p.pc, ex, want)
		if r == Sat {
			c := &Cand{Label: label, Msg: msg, Mode: p.b.mode.String(), prefix: append([]Dec{}, p.trace...)}
			c.Inputs = p.concreteInputs(p.inputs, m)
			c.Draws = p.concreteInputs(p.draws, m)
			p.h.mu.Lock()
			p.h.res.Cands = append(p.h.res.Cands, c)
			p.h.mu.Unlock()
			p.eng.onCand(p.h, c, p.b.mode)
			if label != "hang" && label != "alloc" {
				return
			}
		}
	}
}

// ---- engine

type Work struct {
	h      *Harness
	mode   Mode
	prefix []Dec
	low    bool
}

type Engine struct {
	prog       *ssa.Program
	target     *ssa.Package // the package under test
	harn       *ssa.Package
	seed       int64
	thorough   bool
	tier       int
	mu         sync.Mutex
	cond       *sync.Cond
	queue      map[*Harness][]*Work
	lowq       []*Work
	on         map[*Harness]int // workers on each
	active     int
	pending    int
	workers    int
	qto, qlong int
	cross      int64
	halt       int32 // a confirmed violation ends a quick check
	onCand     func(*Harness, *Cand, Mode)

	// library types the models build values of
	opaque      types.Type
	errorString types.Type
	wrapError   types.Type
	osFile      types.Type
	fileStat    types.Type
}

func (e *Engine) crossLeft() bool { return atomic.AddInt64(&e.cross, 1) < 400 }

func (e *Engine) put(w *Work) {
	e.mu.Lock()
	if w.low {
		e.lowq = append(e.lowq, w)
	} else {
		e.queue[w.h] = append(e.queue[w.h], w)
	}
	e.pending++
	e.mu.Unlock()
	e.cond.Signal()
}

type Worker struct {
	since time.Time
	e     *Engine
	h     *Harness
	b     *Builder
	s     *Solver

	fns                           map[*ssa.Function]bool
	labels                        map[string]bool
	reached                       map[string]bool
	soft                          map[string]bool
	asserts, trivialN, discharged int64
}

func (e *Engine) take(w *Worker) *Work {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.pending > 0 {
			// stay with the current harness for a while if it has work
			if q := e.queue[w.h]; len(q) > 0 && time.Since(w.since) < 4*time.Second {
				x := q[len(q)-1]
				e.queue[w.h] = q[:len(q)-1]
				e.pending--
				e.active++
				return x
			}
			var hs []*Harness
			for h, q := range e.queue {
				if len(q) > 0 {
					hs = append(hs, h)
				}
			}
			e.on[w.h]--
			if len(hs) == 0 {
				x := e.lowq[0]
				e.lowq = e.lowq[1:]
				e.on[x.h]++
				w.since = time.Now()
				e.pending--
				e.active++
				return x
			}
			sort.Slice(hs, func(i, j int) bool {
				if x, y := e.on[hs[i]], e.on[hs[j]]; x != y {
					return x < y
				}
				if len(e.queue[hs[i]]) != len(e.queue[hs[j]]) {
					return len(e.queue[hs[i]]) > len(e.queue[hs[j]])
				}
				return hs[i].name < hs[j].name
			})
			q := e.queue[hs[0]]
			x := q[0]
			e.queue[hs[0]] = q[1:]
			if hs[0] == w.h {
				x, e.queue[hs[0]] = q[len(q)-1], q[:len(q)-1]
			}
			e.on[hs[0]]++
			w.since = time.Now()
			e.pending--
			e.active++
			return x
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && e.pending == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// Run explores all harnesses in the given mode.
func (e *Engine) Run(hs []*Harness, mode Mode) {
	e.queue = map[*Harness][]*Work{}
	e.lowq = nil
	e.on = map[*Harness]int{}
	for _, h := range hs {
		h.res = newResult(mode)
		h.noIf = map[*ssa.If]int{}
		e.put(&Work{h: h, mode: mode})
	}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{e: e}
			for {
				x := e.take(w)
				if x == nil {
					break
				}
				if w.h != x.h || w.b == nil || w.b.n > 4000000 {
					if w.s != nil {
						w.s.Close()
					}
					w.h = x.h
					w.b = NewBuilder(mode)
					w.b.lemmas = x.h.opts["lemmas"] != ""
					w.b.fold = x.h.opts["fold"] != ""
					qto, ql := e.qto, e.qlong
					w.s = NewSolver(w.b, qto, ql)
				}
				e.runPath(w, x)
				e.done()
			}
			if w.s != nil {
				w.s.Close()
			}
		}()
	}
	wg.Wait()
}

func newResult(m Mode) *ModeResult {
	return &ModeResult{Mode: m, Soft: map[string]bool{}, Ended: map[string]int64{}, Open: map[string]int{}, Unknown: map[string]int{}, Unsupp: map[string]int64{}, Reached: map[string]int64{}, Fns: map[string]bool{}, labels: map[string]bool{}}
}

func (e *Engine) runPath(w *Worker, x *Work) {
	h := x.h
	if time.Now().After(h.deadline) || atomic.LoadInt32(&h.stop) != 0 || atomic.LoadInt32(&e.halt) != 0 {
		h.mu.Lock()
		h.res.Dropped++
		h.mu.Unlock()
		return
	}
	p := &Path{eng: e, prog: e.prog, h: h, b: w.b, s: w.s, w: w, prefix: x.prefix,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, counter: map[string]int{},
		maxSteps: 4000000, allocBudget: -1, fs: newFS(), mapOrder: h.opts["maporder"], noMerge: h.opts["merge"] == "off", drawPos: -1,
		sentinels: map[string]Iface{}, once: map[*Value]bool{}, builders: map[*Value]Str{}}
	if s := h.opts["steps"]; s != "" {
		fmt.Sscan(s, &p.maxSteps)
	}
	w.fns = map[*ssa.Function]bool{}
	w.labels = map[string]bool{}
	w.reached = map[string]bool{}
	w.soft = map[string]bool{}
	w.asserts, w.trivialN, w.discharged = 0, 0, 0
	w.b.assume = p.addAssume
	w.b.noSplit = false
	end := "completed"
	detail := ""
	if os.Getenv("VTRACE") != "" {
		fmt.Fprintf(os.Stderr, "path %s %v\n", h.name, x.prefix)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r.why
				case targetPanic:
					end = "panic"
					p.logs = nil
					func() {
						defer func() {
							if q := recover(); q != nil {
								end = "deadline"
							}
						}()
						p.violation("panic", r.msg, nil)
					}()
				case engErr:
					end = r.kind
					detail = r.msg
					if os.Getenv("VDEBUG") == "2" {
						debug.PrintStack()
						for _, t := range p.pc {
							fmt.Fprintln(os.Stderr, "  pc", t)
						}
					}
				case mergeAbort:
					end = "engine"
					detail = "merge abort outside a region: " + r.why
				default:
					if os.Getenv("VDEBUG") != "" {
						panic(r)
					}
					end = "engine"
					detail = fmt.Sprint(r)
				}
			}
		}()
		p.initGlobals()
		p.callFn(nil, h.fn, nil, nil)
	}()
	w.b.assume = nil
	if (detail != "" || end == "deadline") && os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s %s: %s at %s\n", h.name, end, detail, p.picks())
	}
	if end == "steps" {
		func() {
			defer func() { recover() }()
			p.violation("hang", "step limit reached", nil)
		}()
	}
	if end == "completed" {
		// one solver query re-decides the claims that simplification settled
		need := false
		h.mu.Lock()
		need = len(h.res.Witness) < 3
		h.mu.Unlock()
		if need && x.mode != FE {
			p.witness()
		}
	}
	h.mu.Lock()
	r := h.res
	r.Paths++
	r.Steps += p.steps
	r.Merges += p.merges
	r.Ended[end]++
	if detail != "" {
		r.Unsupp[detail]++
	}
	r.Asserts += w.asserts
	r.Trivial += w.trivialN
	r.Discharged += w.discharged
	for f := range w.fns {
		r.Fns[shortFn(f)] = true
	}
	for l := range w.labels {
		r.labels[l] = true
	}
	for l := range w.soft {
		r.Soft[l] = true
	}
	if end == "completed" {
		for l := range w.reached {
			r.Reached[l]++
		}
	}
	h.mu.Unlock()
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), "github.com/cubeflix/nn.", ""), "github.com/cubeflix/", "")
}

func (p *Path) witness() {
	want := p.inputTerms()
	if os.Getenv("VDUMP") != "" {
		os.WriteFile(os.Getenv("VDUMP"), []byte(Script(p.b, p.s.axioms, p.pc, nil, false)), 0644)
	}
	b := p.b
	var tame []*Term
	for _, t := range want {
		if t.s.K == SF {
			tame = append(tame, b.FLe(b.FAbs(t), b.Float(8)), b.FLe(b.Float(1.0/64), b.FAbs(t)))
		}
	}
	for _, ex := range [][]*Term{tame, {b.True}} {
		r, m := p.s.Check(p.pc, ex, want)
		if r == Sat {
			c := &Cand{Label: "witness", Mode: b.mode.String()}
			c.Inputs = p.concreteInputs(p.inputs, m)
			c.Draws = p.concreteInputs(p.draws, m)
			p.h.mu.Lock()
			p.h.res.Witness = append(p.h.res.Witness, c)
			p.h.mu.Unlock()
			return
		}
	}
}

// ---- globals and initialisers

func (p *Path) initGlobals() {
	p.inited[p.eng.target] = true
	p.inited[p.eng.harn] = true
	p.runInit(p.eng.target)
	p.runInit(p.eng.harn)
}

var skipInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "reflect": true, "time": true, "internal/poll": true, "log": true, "math/rand": true, "golang.org/x/exp/rand": true, "sync": true, "unicode": true, "internal/godebug": true, "fmt": true, "encoding/binary": true}

func (p *Path) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	p.callBody(nil, fn, nil, nil)
}

func (p *Path) global(g *ssa.Global) Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	v := new(Value)
	*v = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.globals[g] = v
	pkg := g.Pkg
	if pkg == nil || p.inited[pkg] {
		return v
	}
	path := pkg.Pkg.Path()
	if p.specialGlobal(g, path, v) {
		return v
	}
	if skipInit[path] {
		*v = &Native{kind: "uninit", data: g.String()}
		return v
	}
	p.inited[pkg] = true
	// run the initialiser of this package only, outside any merge log
	logs := p.logs
	p.logs = nil
	pos := len(p.trace)
	p.runInit(pkg)
	if len(p.trace) != pos {
		unsupported("symbolic decision in the initialiser of %s", path)
	}
	p.logs = logs
	return v
}
