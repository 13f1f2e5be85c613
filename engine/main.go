package main

// symgo: decide properties of github.com/cubeflix/nn by symbolic execution of
// its SSA form, with an SMT solver deciding every claim and native replay
// confirming every counterexample.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
	os.Exit(2)
}

type Report struct {
	prop      string
	tier      string
	start     time.Time
	scratch   string
	rep       *Replayer
	viol      []*Violation
	known     []string
	incon     []string
	validated int
	warned    []string
	samples   []interface{}
	nmu       sync.Mutex
	all       bool // do not stop at the first violation
	fin       sync.Once
}

type Violation struct {
	h      *Harness
	label  string
	detail string
	file   string
	cand   *Cand
}

type hState struct {
	nearby   map[string]int
	h        *Harness
	status   map[string]string // label -> exact, real, fe, violated, inconclusive
	soft     map[string]bool
	open     map[string]bool
	modes    []*ModeResult
	note     []string
	complete map[Mode]bool
	done     map[string]bool // labels with a confirmed failure
}

func (e *Engine) prepare(h *Harness, d time.Duration) {
	h.deadline = time.Now().Add(d)
	h.stop = 0
}

func badEnds(r *ModeResult) []string {
	var out []string
	for k, n := range r.Ended {
		switch k {
		case "completed", "assume", "infeasible":
		case "panic":
		default:
			out = append(out, fmt.Sprintf("%s×%d", k, n))
		}
	}
	for k, n := range r.Unsupp {
		out = append(out, fmt.Sprintf("[%s]×%d", k, n))
	}
	if r.Dropped > 0 {
		out = append(out, fmt.Sprintf("time limit, %d branches unexplored", r.Dropped))
	}
	sort.Strings(out)
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "this directory")
	only := fs.String("only", "", "only this harness (debugging)")
	verbose := fs.Bool("v", false, "verbose")
	all := fs.Bool("all", false, "do not stop a quick check at the first violation")
	fs.Parse(args)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	rp := &Report{prop: *prop, tier: *tier, start: time.Now(), all: *all}
	hdir := filepath.Join(*verif, "harness")
	l, err := load(*repo, hdir, *prop)
	if err != nil {
		if len(bridgeFiles(hdir, *prop)) > 0 {
			fmt.Printf("INCONCLUSIVE property=%s the harness does not fit the current source: %v\n", *prop, err)
			rp.incon = append(rp.incon, err.Error())
			rp.evidence(*verif, seed, nil, nil)
			return 0
		}
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	e := l.eng
	e.seed = seed
	e.thorough = *tier == "thorough"
	if e.thorough {
		e.tier = 1
	}
	e.workers = runtime.NumCPU()
	if e.workers > 8 {
		e.workers = 8
	}
	e.qto, e.qlong = 4000, 20000
	budget := map[Mode]time.Duration{FU: 150 * time.Second, R: 240 * time.Second, FE: 60 * time.Second}
	if e.thorough {
		e.qto, e.qlong = 20000, 120000
		budget = map[Mode]time.Duration{FU: 40 * time.Minute, R: 60 * time.Minute, FE: 20 * time.Minute}
	}
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	rp.scratch = scratch
	hs := l.harnesses
	if *only != "" {
		var f []*Harness
		for _, h := range hs {
			if strings.Contains(h.name, *only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if !e.thorough {
		var f []*Harness
		for _, h := range hs {
			if h.opts["tier"] != "thorough" {
				f = append(f, h)
			}
		}
		hs = f
	}
	var names []string
	st := map[*Harness]*hState{}
	for _, h := range hs {
		names = append(names, h.name)
		st[h] = &hState{nearby: map[string]int{}, h: h, status: map[string]string{}, soft: map[string]bool{}, open: map[string]bool{}, complete: map[Mode]bool{}, done: map[string]bool{}}
	}
	// the native build runs while the first exploration does
	repDone := make(chan bool)
	go func() {
		rp.rep = newReplayer(*repo, hdir, *prop, names, scratch)
		close(repDone)
	}()

	// candidates are replayed while the exploration goes on
	onl := make(chan func(), 256)
	var onw sync.WaitGroup
	for i := 0; i < 2; i++ {
		go func() {
			<-repDone
			for f := range onl {
				f()
				onw.Done()
			}
		}()
	}
	e.onCand = func(h *Harness, c *Cand, mode Mode) {
		onw.Add(1)
		select {
		case onl <- func() { rp.try(e, st[h], h, c, mode, *verif, *verbose) }:
		default:
			onw.Done()
		}
	}
	if !e.thorough {
		time.AfterFunc(840*time.Second, func() {
			rp.fin.Do(func() {
				fmt.Printf("INCONCLUSIVE property=%s out of time\n", *prop)
				rp.nmu.Lock()
				rc := 0
				for _, v := range rp.viol {
					fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.file)
					rc = 1
				}
				rp.incon = append(rp.incon, "out of time")
				rp.nmu.Unlock()
				rp.evidence(*verif, seed, nil, nil)
				os.RemoveAll(scratch)
				os.Exit(rc)
			})
			select {}
		})
	}
	run := func(mode Mode, sel []*Harness) {
		if len(sel) == 0 || atomic.LoadInt32(&e.halt) != 0 {
			for _, h := range sel {
				h.res = newResult(mode)
			}
			return
		}
		for _, h := range sel {
			d := budget[mode]
			if s := h.opts["time"]; s != "" && !e.thorough {
				if v, err := strconv.Atoi(s); err == nil {
					d = time.Duration(v) * time.Second
				}
			}
			if left := 600*time.Second - time.Since(rp.start); !e.thorough && d > left {
				d = left
			}
			e.prepare(h, d)
		}
		t0 := time.Now()
		e.Run(sel, mode)
		onw.Wait()
		if *verbose {
			fmt.Fprintf(os.Stderr, "-- mode %s: %.1fs\n", mode, time.Since(t0).Seconds())
		}
		<-repDone
		for _, h := range sel {
			s := st[h]
			r := h.res
			s.modes = append(s.modes, r)
			bad := badEnds(r)
			s.complete[mode] = len(bad) == 0
			if *verbose {
				fmt.Fprintf(os.Stderr, "%s %s: paths %d steps %d merges %d ended %v asserts %d trivial %d discharged %d open %v unknown %v cands %d %s\n",
					h.name, mode, r.Paths, r.Steps, r.Merges, r.Ended, r.Asserts, r.Trivial, r.Discharged, r.Open, r.Unknown, len(r.Cands), strings.Join(bad, " "))
			}
		}
		rp.confirm(e, st, sel, mode, *verif, *verbose)
	}

	var fu, rr, fe []*Harness
	for _, h := range hs {
		if h.opts["mode"] == "R" {
			rr = append(rr, h)
		} else {
			fu = append(fu, h)
		}
	}
	run(FU, fu)
	for _, h := range fu {
		s := st[h]
		r := h.res
		h.only = nil
		for l := range r.labels {
			switch {
			case s.status[l] == "violated" || s.status[l] == "known":
			case r.Open[l] == 0 && s.complete[FU]:
				s.status[l] = "exact"
			case r.Open[l] == 0:
				s.status[l] = "inconclusive"
			default:
				s.open[l] = true
			}
			if r.Soft[l] {
				s.soft[l] = true
			}
		}
		if !s.complete[FU] {
			s.note = append(s.note, "exploration in mode FU incomplete: "+strings.Join(badEnds(r), " "))
		}
		if len(s.open) > 0 && h.opts["real"] != "no" {
			h.only = s.open
			rr = append(rr, h)
		}
	}
	run(R, rr)
	for _, h := range rr {
		s := st[h]
		r := h.res
		for l := range r.Soft {
			s.soft[l] = true
		}
		for l := range r.labels {
			if h.opts["mode"] != "R" && !s.open[l] {
				continue
			}
			switch {
			case s.status[l] == "violated" || s.status[l] == "known":
				delete(s.open, l)
			case r.Open[l] == 0 && s.complete[R] && (h.opts["mode"] == "R" || s.complete[FU]):
				s.status[l] = "real"
				delete(s.open, l)
			default:
				s.status[l] = "inconclusive"
				s.open[l] = true
			}
		}
		if !s.complete[R] {
			s.note = append(s.note, "exploration in mode R incomplete: "+strings.Join(badEnds(r), " "))
		}
	}
	for _, h := range fu {
		s := st[h]
		hard := map[string]bool{}
		for l := range s.open {
			if !s.soft[l] && l != "panic" && l != "hang" && l != "alloc" {
				hard[l] = true
			}
		}
		if len(hard) > 0 {
			h.only = hard
			fe = append(fe, h)
		}
	}
	run(FE, fe)
	for _, h := range fe {
		s := st[h]
		r := h.res
		for l := range h.only {
			switch {
			case s.status[l] == "violated" || s.status[l] == "known":
				delete(s.open, l)
			case r.Open[l] == 0 && s.complete[FE] && s.complete[FU]:
				s.status[l] = "fe"
				delete(s.open, l)
			default:
				s.status[l] = "inconclusive"
			}
		}
	}
	<-repDone
	if rp.rep.err != nil {
		fmt.Fprintln(os.Stderr, "warning: no native replay:", rp.rep.err)
		rp.warned = append(rp.warned, "no native replay: "+rp.rep.err.Error())
	}
	// outcomes that must be reachable
	for _, h := range hs {
		s := st[h]
		need := h.opts["need"]
		if need == "" {
			continue
		}
		if len(s.modes) == 0 {
			continue
		}
		m := s.modes[0]
		if !s.complete[m.Mode] {
			continue
		}
		for _, l := range strings.Split(need, ",") {
			if m.Reached[l] == 0 {
				rp.violate(h, "reach:"+l, "no execution reaches this outcome, although the exploration was complete", &Cand{Mode: m.Mode.String()}, *verif)
				s.status["reach:"+l] = "violated"
			} else {
				s.status["reach:"+l] = "exact"
			}
		}
	}
	for _, h := range hs {
		s := st[h]
		var inc []string
		for l, x := range s.status {
			if x == "inconclusive" {
				inc = append(inc, l)
			}
		}
		for l := range s.open {
			if s.status[l] == "" {
				inc = append(inc, l)
				s.status[l] = "inconclusive"
			}
		}
		sort.Strings(inc)
		if len(inc) > 0 {
			rp.incon = append(rp.incon, fmt.Sprintf("%s: %s", h.name, strings.Join(inc, ",")))
		}
		for _, n := range s.note {
			rp.incon = append(rp.incon, h.name+": "+n)
		}
		if len(s.modes) > 0 && s.modes[0].Ended["completed"] == 0 && s.modes[0].Ended["panic"] == 0 {
			rp.incon = append(rp.incon, h.name+": no path completes")
		}
	}
	rp.fin.Do(func() {})
	rp.evidence(*verif, seed, hs, st)
	if atomic.LoadInt32(&e.halt) != 0 {
		rp.incon = nil // stopped at the first violation
	}
	for _, k := range rp.known {
		fmt.Println("KNOWN-FINDING: property=" + *prop + " " + k)
	}
	for _, i := range rp.incon {
		fmt.Println("INCONCLUSIVE property=" + *prop + " " + i)
	}
	if len(rp.viol) > 0 {
		for _, v := range rp.viol {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.file)
			fmt.Printf("  %s: claim %q: %s\n", v.h.name, v.label, firstLine(v.detail))
		}
		return 1
	}
	nl := 0
	for _, s := range st {
		nl += len(s.status)
	}
	fmt.Printf("OK property=%s %d harnesses, %d claims, %d traces replayed, %d queries, %.1fs\n", *prop, len(hs), nl, rp.validated, gstats.queries, time.Since(rp.start).Seconds())
	return 0
}

// confirm replays candidates and witnesses natively.
func (rp *Report) confirm(e *Engine, st map[*Harness]*hState, sel []*Harness, mode Mode, verif string, verbose bool) {
	if rp.rep.err != nil {
		return
	}
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for _, h := range sel {
		s := st[h]
		r := h.res
		for _, c := range r.Cands {
			h, c := h, c
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				rp.try(e, s, h, c, mode, verif, verbose)
			}()
		}
		for _, c := range r.Witness {
			h, c := h, c
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				if atomic.LoadInt32(&e.halt) != 0 || rp.late(e) {
					return
				}
				nr := rp.rep.Run(h.name, e.tier, c.Inputs, c.Draws, 20*time.Second)
				rp.nmu.Lock()
				defer rp.nmu.Unlock()
				if nr.Status == "done" && len(nr.Fails) == 0 {
					rp.validated++
					if len(rp.samples) < 4 {
						rp.samples = append(rp.samples, map[string]interface{}{"harness": h.name, "mode": mode.String(), "inputs": showCI(c.Inputs), "draws": showCI(c.Draws), "claims_checked": nr.Claims})
					}
					return
				}
				hard := ""
				det := ""
				for _, f := range nr.Fails {
					if !f.Soft && f.Label != "hang" {
						hard, det = f.Label, f.Detail
					}
				}
				if hard != "" && nr.Status != "mismatch" {
					if !rp.isKnown(verif, h, hard, det) {
						c2 := *c
						c2.Label = hard
						rp.violate(h, hard, det, &c2, verif)
						s.status[hard] = "violated"
					}
					return
				}
				if nr.Status != "done" {
					rp.warned = append(rp.warned, fmt.Sprintf("%s: witness replay: %s %s", h.name, nr.Status, nr.Detail))
				} else if len(rp.warned) < 20 {
					rp.warned = append(rp.warned, fmt.Sprintf("%s: witness replay outside the tolerance: %s", h.name, short(nr.Fails)))
				}
			}()
		}
		wg.Wait()
	}
}

// try replays one candidate, once.
func (rp *Report) try(e *Engine, s *hState, h *Harness, c *Cand, mode Mode, verif string, verbose bool) {
	rp.nmu.Lock()
	skip := c.tried || s.done[c.Label] || rp.rep == nil || rp.rep.err != nil
	c.tried = true
	rp.nmu.Unlock()
	if skip || atomic.LoadInt32(&e.halt) != 0 || rp.late(e) {
		return
	}
	n := 1
	if h.opts["maporder"] != "" {
		n = 40
	}
	for i := 0; i < n; i++ {
		nr := rp.rep.Run(h.name, e.tier, c.Inputs, c.Draws, 20*time.Second)
		if verbose && i == 0 {
			fmt.Fprintf(os.Stderr, "  replay %s %s %s %s: %s %s fails %v inputs %s draws %s\n", h.name, mode, c.Label, c.Msg, nr.Status, nr.Detail, short(nr.Fails), showCI(c.Inputs), showCI(c.Draws))
		}
		ok, label, det := genuine(c, nr, mode)
		if !ok && i == n-1 && nr.Status == "done" {
			c, ok, label, det = rp.nearby(e, s, h, c, mode)
		}
		if !ok {
			continue
		}
		rp.nmu.Lock()
		dup := s.done[label]
		s.done[label], s.done[c.Label] = true, true
		if !dup {
			if rp.isKnown(verif, h, label, det) {
				s.status[label] = "known"
				s.status[c.Label] = "known"
			} else {
				rp.violate(h, label, det, c, verif)
				s.status[label] = "violated"
				s.status[c.Label] = "violated"
				if !e.thorough && !rp.all {
					atomic.StoreInt32(&e.halt, 1)
				}
			}
		}
		rp.nmu.Unlock()
		return
	}
}

// nearby replays a candidate that the reals or uninterpreted operations allow and
// the numbers the solver chose do not show, as when a sum is rounded and they need
// no rounding: with the same choices, but numbers beside these.
func (rp *Report) nearby(e *Engine, s *hState, h *Harness, c *Cand, mode Mode) (*Cand, bool, string, string) {
	rp.nmu.Lock()
	k := s.nearby[c.Label]
	s.nearby[c.Label]++
	rp.nmu.Unlock()
	if k >= 4 {
		return c, false, "", ""
	}
	rng := rand.New(rand.NewSource(int64(k) + 1))
	for i := 0; i < 3; i++ {
		d := *c
		d.Inputs = append([]CI{}, c.Inputs...)
		some := false
		for j, x := range d.Inputs {
			if x.K != "f" {
				continue
			}
			v := math.Float64frombits(x.V)
			if v == 0 || math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) < 1e-300 || math.Abs(v) > 1e300 {
				continue
			}
			v *= 1 + (rng.Float64()-0.5)*[]float64{1e-2, 1e-4, 0.5}[i]
			d.Inputs[j].V = math.Float64bits(v)
			d.Inputs[j].S = fmt.Sprint(v)
			some = true
		}
		if !some {
			break
		}
		nr := rp.rep.Run(h.name, e.tier, d.Inputs, d.Draws, 20*time.Second)
		if nr.Status != "done" && nr.Status != "panic" {
			continue
		}
		if ok, label, det := genuine(&d, nr, mode); ok {
			return &d, ok, label, det
		}
	}
	return c, false, "", ""
}

// late: a quick check answers in time, with what it has.
func (rp *Report) late(e *Engine) bool {
	return !e.thorough && time.Since(rp.start) > 720*time.Second
}

// genuine decides whether a native run confirms the candidate.
func genuine(c *Cand, nr *NatResult, mode Mode) (bool, string, string) {
	switch nr.Status {
	case "mismatch", "nobuild", "error":
		return false, "", ""
	}
	for _, f := range nr.Fails {
		if f.Label == c.Label && (!f.Soft || mode == R) {
			return true, f.Label, f.Detail
		}
	}
	for _, f := range nr.Fails {
		if f.Soft {
			continue
		}
		if f.Label == "hang" && c.Label != "hang" {
			continue
		}
		return true, f.Label, f.Detail
	}
	return false, "", ""
}

func short(f []NatFail) string {
	s := ""
	for i, x := range f {
		if i > 3 {
			s += " ..."
			break
		}
		s += fmt.Sprintf("{%s %v %s} ", x.Label, x.Soft, firstLine(x.Detail))
	}
	return s
}

func showCI(l []CI) string {
	var s []string
	for i, c := range l {
		if i > 40 {
			s = append(s, "...")
			break
		}
		v := c.S
		if v == "" {
			v = fmt.Sprint(c.V)
		}
		s = append(s, c.N+"="+v)
	}
	return strings.Join(s, " ")
}

func (rp *Report) violate(h *Harness, label, detail string, c *Cand, verif string) {
	dir := filepath.Join(verif, "replays", rp.prop)
	os.MkdirAll(dir, 0755)
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-' {
			return r
		}
		return '_'
	}, label)
	f := filepath.Join(dir, h.name+"_"+clean+".json")
	t := 0
	if rp.tier == "thorough" {
		t = 1
	}
	b, _ := json.MarshalIndent(ReplayFile{Property: rp.prop, Label: label, Message: c.Msg, Harness: h.name, Tier: t, Mode: c.Mode, Inputs: nz(c.Inputs), Draws: nz(c.Draws), Observed: detail}, "", " ")
	os.WriteFile(f, b, 0644)
	rp.viol = append(rp.viol, &Violation{h, label, detail, f, c})
}

// isKnown looks the failure up in the known-findings file.
func (rp *Report) isKnown(verif string, h *Harness, label, det string) bool {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return false
	}
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) < 4 || f[0] != "known:" {
			continue
		}
		if f[1] == "property="+rp.prop && f[2] == "harness="+h.name && f[3] == "claim="+label {
			msg := strings.Join(f[2:], " ")
			for _, k := range rp.known {
				if k == msg {
					return true
				}
			}
			rp.known = append(rp.known, msg)
			return true
		}
	}
	return false
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "this directory")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(scratch)
	r := newReplayer(*repo, filepath.Join(*verif, "harness"), rf.Property, []string{rf.Harness}, scratch)
	if r.err != nil {
		fmt.Fprintln(os.Stderr, r.err)
		return 2
	}
	res := r.Run(rf.Harness, rf.Tier, rf.Inputs, rf.Draws, 30*time.Second)
	o, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(o))
	for _, f := range res.Fails {
		if f.Label == rf.Label {
			fmt.Println("the violation is reproduced")
			return 1
		}
	}
	return 0
}

var _ *ssa.Function

func (rp *Report) evidence(verif string, seed int64, hs []*Harness, st map[*Harness]*hState) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	var paths, steps, merges, asserts, trivial, disch, crossOK int64
	fns := map[string]bool{}
	bounds := map[string]interface{}{}
	byStatus := map[string][]string{}
	reach := map[string]int64{}
	var crossBad []string
	modes := map[string]map[string]int64{}
	for _, h := range hs {
		s := st[h]
		for _, r := range s.modes {
			paths += r.Paths
			steps += r.Steps
			merges += r.Merges
			asserts += r.Asserts
			trivial += r.Trivial
			disch += r.Discharged
			crossOK += r.CrossOK
			crossBad = append(crossBad, r.CrossBad...)
			for f := range r.Fns {
				fns[f] = true
			}
			for l, n := range r.Reached {
				reach[l] += n
			}
			m := modes[r.Mode.String()]
			if m == nil {
				m = map[string]int64{}
				modes[r.Mode.String()] = m
			}
			m["harnesses"]++
			m["paths"] += r.Paths
			m["claims_evaluated"] += r.Asserts
			m["claims_closed_by_simplification"] += r.Trivial
			m["claims_closed_by_solver"] += r.Discharged
		}
		for l, x := range s.status {
			byStatus[x] = append(byStatus[x], h.name+":"+l)
		}
		b := map[string]interface{}{}
		if h.opts["doc"] != "" {
			b["about"] = h.opts["doc"]
		}
		bounds[h.name] = b
	}
	for _, v := range byStatus {
		sort.Strings(v)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(rp.samples) == 0 {
		rp.samples = append(rp.samples, "no trace was replayed in this run")
	}
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": rp.validated,
		"samples":                       rp.samples,
		"what_is_counted":               "states: symbolic paths explored to their end; transitions: SSA instructions of /repo and the standard library executed symbolically; traces: solver models of completed paths replayed on the natively compiled code with every claim re-checked",
		"functions_encoded":             fl,
		"harnesses":                     bounds,
		"modes":                         modes,
		"merged_branches":               merges,
		"claims_evaluated":              asserts,
		"claims_closed_by_simplification": trivial,
		"claims_closed_by_solver":       disch,
		"queries":                       gstats.queries,
		"solver_time_s":                 float64(gstats.timeNS) / 1e9,
		"solver_unknown":                gstats.unknown,
		"solver":                        "z3-new (cvc5 as fallback and cross-check)",
		"cross_checked_with_cvc5":       crossOK,
		"cross_check_disagreements":     crossBad,
		"claims_bit_exact":              byStatus["exact"],
		"claims_exact_reals":            byStatus["real"],
		"claims_ieee_arithmetic":        byStatus["fe"],
		"claims_inconclusive":           byStatus["inconclusive"],
		"claims_violated":               byStatus["violated"],
		"outcomes_reached":              reach,
		"inconclusive":                  rp.incon,
		"replay_warnings":               rp.warned,
		"exhaustive":                    len(rp.incon) == 0 && len(hs) > 0,
	}
	ev := map[string]interface{}{
		"property": rp.prop, "tier": rp.tier, "seed": seed, "level": "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"the bounds written in each harness's description",
			"the engine's semantics of go/ssa and its models of math, math/rand, os, log, fmt, encoding/binary (validated by replaying solver models natively)",
			"claims listed under claims_exact_reals hold over the real numbers, not bit for bit in IEEE arithmetic",
			"exp, log, pow are uninterpreted functions with sound axioms",
		},
		"wall_s":     time.Since(rp.start).Seconds(),
		"violations": len(rp.viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, rp.prop+".json"), append(b, '\n'), 0644)
}
