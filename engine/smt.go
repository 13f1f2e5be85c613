package main

// SMT-LIB 2 output and solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type engErr struct {
	kind string
	msg  string
}

func (e engErr) Error() string { return e.kind + ": " + e.msg }

func unsupported(f string, a ...interface{}) {
	panic(engErr{kind: "unsupported", msg: fmt.Sprintf(f, a...)})
}

func (b *Builder) sortName(s Sort) string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if b.mode == R {
		return "Real"
	}
	return "(_ FloatingPoint 11 53)"
}

func bvLit(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func ratLit(r *big.Rat) string {
	n, d := new(big.Int).Abs(r.Num()), r.Denom()
	s := n.String() + ".0"
	if !d.IsInt64() || d.Int64() != 1 {
		s = fmt.Sprintf("(/ %s.0 %s.0)", n, d)
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func fpLit(bits uint64) string {
	f := math.Float64frombits(bits)
	if f != f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", bits>>63, (bits>>52)&0x7ff, bits&(1<<52-1))
}

// writer turns terms into SMT-LIB definitions, each term once.
type writer struct {
	b    *Builder
	defs map[*Term]string
	fns  map[string]bool
	out  *bytes.Buffer
}

func newWriter(b *Builder) *writer {
	return &writer{b: b, defs: map[*Term]string{}, fns: map[string]bool{}, out: &bytes.Buffer{}}
}

func prelude(m Mode) string {
	s := ""
	if m == R {
		return s
	}
	F := "(_ FloatingPoint 11 53)"
	s += "(define-fun pzero () " + F + " (_ +zero 11 53))\n(define-fun nzero () " + F + " (_ -zero 11 53))\n"
	s += "(define-fun gomax ((x " + F + ") (y " + F + ")) " + F +
		" (ite (or (= x (_ +oo 11 53)) (= y (_ +oo 11 53))) (_ +oo 11 53) (ite (or (fp.isNaN x) (fp.isNaN y)) (_ NaN 11 53) (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) y x) (ite (fp.gt x y) x y)))))\n"
	s += "(define-fun gomin ((x " + F + ") (y " + F + ")) " + F +
		" (ite (or (= x (_ -oo 11 53)) (= y (_ -oo 11 53))) (_ -oo 11 53) (ite (or (fp.isNaN x) (fp.isNaN y)) (_ NaN 11 53) (ite (and (fp.isZero x) (fp.isZero y)) (ite (fp.isNegative x) x y) (ite (fp.lt x y) x y)))))\n"
	if m == FU {
		s += "(declare-fun fadd (" + F + " " + F + ") " + F + ")\n(declare-fun fmul (" + F + " " + F + ") " + F + ")\n(declare-fun fdiv (" + F + " " + F + ") " + F + ")\n(declare-fun fsqrt (" + F + ") " + F + ")\n"
	}
	return s
}

// name returns the SMT name of a term, defining it first if needed.
func (w *writer) name(t *Term) string {
	if n, ok := w.defs[t]; ok {
		return n
	}
	// iterative post-order to keep the Go stack small
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			c := f.t.a[f.i]
			f.i++
			if _, ok := w.defs[c]; !ok {
				st = append(st, fr{c, 0})
			}
			continue
		}
		if _, ok := w.defs[f.t]; !ok {
			w.define(f.t)
		}
		st = st[:len(st)-1]
	}
	return w.defs[t]
}

func (w *writer) define(t *Term) {
	b := w.b
	R_ := b.mode == R
	arg := func(i int) string { return w.defs[t.a[i]] }
	switch t.op {
	case OConst:
		switch t.s.K {
		case SBool:
			w.defs[t] = map[uint64]string{0: "false", 1: "true"}[t.c]
		case SBV:
			w.defs[t] = bvLit(t.c, t.s.W)
		case SF:
			if R_ {
				w.defs[t] = ratLit(t.rat)
			} else {
				w.defs[t] = fpLit(t.c)
			}
		}
		return
	case OVar:
		n := "|" + t.name + "|"
		fmt.Fprintf(w.out, "(declare-const %s %s)\n", n, b.sortName(t.s))
		w.defs[t] = n
		return
	}
	opq := func() {
		n := fmt.Sprintf("o%d", t.id)
		fmt.Fprintf(w.out, "(declare-const %s %s)\n", n, b.sortName(t.s))
		w.defs[t] = n
	}
	var e string
	j := func(op string) string {
		s := "(" + op
		for i := range t.a {
			s += " " + arg(i)
		}
		return s + ")"
	}
	switch t.op {
	case ONot:
		e = j("not")
	case OAnd:
		e = j("and")
	case OOr:
		e = j("or")
	case OEq:
		e = j("=")
	case OIte:
		e = j("ite")
	case OAdd:
		e = j("bvadd")
	case OSub:
		e = j("bvsub")
	case OMul:
		e = j("bvmul")
	case OUDiv:
		e = j("bvudiv")
	case OSDiv:
		e = j("bvsdiv")
	case OURem:
		e = j("bvurem")
	case OSRem:
		e = j("bvsrem")
	case OBAnd:
		e = j("bvand")
	case OBOr:
		e = j("bvor")
	case OBXor:
		e = j("bvxor")
	case OBNot:
		e = j("bvnot")
	case ONeg:
		e = j("bvneg")
	case OShl:
		e = j("bvshl")
	case OLshr:
		e = j("bvlshr")
	case OAshr:
		e = j("bvashr")
	case OUlt:
		e = j("bvult")
	case OUle:
		e = j("bvule")
	case OSlt:
		e = j("bvslt")
	case OSle:
		e = j("bvsle")
	case OExtract:
		e = j(fmt.Sprintf("(_ extract %d %d)", t.c>>8, t.c&0xff))
	case OConcat:
		e = j("concat")
	case OZext:
		e = j(fmt.Sprintf("(_ zero_extend %d)", t.s.W-t.a[0].s.W))
	case OSext:
		e = j(fmt.Sprintf("(_ sign_extend %d)", t.s.W-t.a[0].s.W))
	case OFAdd, OFMul, OFDiv:
		sym := map[Op][3]string{OFAdd: {"fadd", "fp.add RNE", "+"}, OFMul: {"fmul", "fp.mul RNE", "*"}, OFDiv: {"fdiv", "fp.div RNE", "/"}}[t.op]
		e = j(sym[b.mode])
	case OFNeg:
		if R_ {
			e = j("-")
		} else {
			e = j("fp.neg")
		}
	case OFAbs:
		if R_ {
			e = fmt.Sprintf("(ite (< %s 0.0) (- %s) %s)", arg(0), arg(0), arg(0))
		} else {
			e = j("fp.abs")
		}
	case OFMax:
		e = j("gomax")
	case OFMin:
		e = j("gomin")
	case OFSqrt:
		switch b.mode {
		case FU:
			e = j("fsqrt")
		case FE:
			e = j("fp.sqrt RNE")
		default:
			opq()
			return
		}
	case OFLt:
		if R_ {
			e = j("<")
		} else {
			e = j("fp.lt")
		}
	case OFLe:
		if R_ {
			e = j("<=")
		} else {
			e = j("fp.leq")
		}
	case OFEq:
		if R_ {
			e = j("=")
		} else {
			e = j("fp.eq")
		}
	case OFIsNaN:
		e = j("fp.isNaN")
	case OFUF:
		if R_ {
			opq()
			return
		}
		if t.name == "round32" {
			e = fmt.Sprintf("((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s))", arg(0))
			break
		}
		k := fmt.Sprintf("uf_%s_%d", t.name, len(t.a))
		if !w.fns[k] {
			w.fns[k] = true
			s := ""
			for range t.a {
				s += " " + b.sortName(fS)
			}
			fmt.Fprintf(w.out, "(declare-fun %s (%s) %s)\n", k, s, b.sortName(fS))
		}
		e = j(k)
	case OB32F:
		if R_ {
			opq()
			return
		}
		e = fmt.Sprintf("((_ to_fp 11 53) RNE ((_ to_fp 8 24) %s))", arg(0))
	case OFBits, OF32Bits:
		opq() // constrained by axiom
		return
	case OBitsF:
		if R_ {
			opq()
			return
		}
		e = j("(_ to_fp 11 53)")
	case OI2F:
		if R_ {
			opq()
			return
		}
		e = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", arg(0))
	case OU2F:
		if R_ {
			opq()
			return
		}
		e = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", arg(0))
	case OF2I:
		if R_ {
			opq()
			return
		}
		lo, hi := fpLit(math.Float64bits(-9223372036854775808.0)), fpLit(math.Float64bits(9223372036854775808.0))
		e = fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, arg(0), arg(0), hi, arg(0))
	case OFFloor:
		if R_ {
			e = fmt.Sprintf("(to_real (to_int %s))", arg(0))
		} else {
			e = j("fp.roundToIntegral RTN")
		}
	default:
		panic(fmt.Sprintf("smt: op %d", t.op))
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(w.out, "(define-fun %s () %s %s)\n", n, b.sortName(t.s), e)
	w.defs[t] = n
}

// ---- solver session

type Stats struct {
	queries   int64
	fallbacks int64
	unknown   int64
	cross     int64
	timeNS    int64
}

var gstats Stats

const (
	Unsat = iota
	Sat
	Unknown
)

type Solver struct {
	b     *Builder
	w     *writer
	cmd   *exec.Cmd
	in    io.WriteCloser
	rd    *bufio.Reader
	stack []*Term
	extra [][]*Term       // axioms asserted with each stack entry
	have  map[*Term]int   // asserted axioms
	axm   map[*Term][]*Term
	to    int // ms
	long  int // ms for one-shot fallback
	dead  bool
	vars  []*Term
	lastResult int
	abs   *absSolver
}

var solverBin = "z3-new"

func NewSolver(b *Builder, to, long int) *Solver {
	s := &Solver{b: b, to: to, long: long}
	s.start()
	return s
}

func (s *Solver) start() {
	s.w = newWriter(s.b)
	s.stack, s.extra, s.have = nil, nil, map[*Term]int{}
	if s.axm == nil {
		s.axm = map[*Term][]*Term{}
	}
	cmd := exec.Command(solverBin, "-in", "-smt2", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.rd, s.dead = cmd, in, bufio.NewReaderSize(out, 1<<16), false
	fmt.Fprintf(in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n%s", s.to, prelude(s.b.mode))
}

func (s *Solver) Close() {
	s.abs.Close()
	s.abs = nil
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() { s.Close(); s.start() }

// axioms of a term and all of its subterms
func (s *Solver) axioms(t *Term) []*Term {
	if a, ok := s.axm[t]; ok {
		return a
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			rec(x)
		}
		if len(t.a) > 0 && (t.s.K == SF || t.op == OFBits || t.op == OF32Bits || t.op == OMul || t.op == OFLt || t.op == OFLe) {
			out = append(out, s.b.axioms(t)...)
		}
	}
	rec(t)
	s.axm[t] = out
	return out
}

func (s *Solver) push(ts ...*Term) {
	io.WriteString(s.in, "(push 1)\n")
	var added []*Term
	for _, t := range ts {
		n := s.w.name(t)
		s.flush()
		fmt.Fprintf(s.in, "(assert %s)\n", n)
		for _, a := range s.axioms(t) {
			if s.have[a] == 0 {
				s.have[a]++
				added = append(added, a)
				n := s.w.name(a)
				s.flush()
				fmt.Fprintf(s.in, "(assert %s)\n", n)
			}
		}
	}
	s.extra = append(s.extra, added)
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	for i := 0; i < n; i++ {
		for _, a := range s.extra[len(s.extra)-1] {
			delete(s.have, a)
		}
		s.extra = s.extra[:len(s.extra)-1]
	}
}

func (s *Solver) flush() {
	if s.w.out.Len() > 0 {
		s.in.Write(s.w.out.Bytes())
		s.w.out.Reset()
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k:k]
	for _, t := range pc[k:] {
		s.push(t)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) line() (string, error) {
	ch := make(chan struct{})
	proc := s.cmd.Process
	tm := time.AfterFunc(time.Duration(s.to)*time.Millisecond*2+5*time.Second, func() { proc.Kill(); close(ch) })
	l, err := s.rd.ReadString('\n')
	tm.Stop()
	return strings.TrimSpace(l), err
}

// Model maps variable terms to values (bits for floats in FU/FE, *big.Rat in R).
type Model map[*Term]interface{}

// Check decides pc /\ extra. With want, variables to evaluate in a model.
func (s *Solver) Check(pc []*Term, extra []*Term, want []*Term) (int, Model) {
	return s.check(pc, extra, want, false)
}

// Feasible is Check for choosing branches: it may call an infeasible branch
// feasible, but never the other way round.
func (s *Solver) Feasible(pc []*Term, extra []*Term) int {
	r, _ := s.check(pc, extra, nil, true)
	return r
}

func (s *Solver) check(pc []*Term, extra []*Term, want []*Term, loose bool) (int, Model) {
	for _, e := range extra {
		if e.isFalse() {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	atomic.AddInt64(&gstats.queries, 1)
	defer func() { atomic.AddInt64(&gstats.timeNS, int64(time.Since(t0))) }()
	if s.b.mode == FU && s.b.lemmas {
		if s.abs == nil {
			s.abs = newAbs(s)
		}
		r := s.abs.check(append(append([]*Term{}, pc...), extra...))
		if r == Unsat || r == Sat && loose {
			return r, nil
		}
	}
	s.sync(pc)
	s.push(extra...)
	s.flush()
	io.WriteString(s.in, "(check-sat)\n")
	l, err := s.line()
	for err == nil && strings.HasPrefix(l, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", l)
		if os.Getenv("VDEBUG") != "" {
			os.WriteFile("/tmp/bad.smt2", []byte(Script(s.b, s.axioms, append(append([]*Term{}, pc...), extra...), want, false)), 0644)
		}
		s.restart()
		return Unknown, nil
	}
	if err != nil {
		s.restart()
		return s.fallback(pc, extra, want)
	}
	switch l {
	case "unsat":
		s.pop(1)
		return Unsat, nil
	case "sat":
		var m Model
		if len(want) > 0 {
			m = s.model(want)
		}
		s.pop(1)
		return Sat, m
	}
	s.pop(1)
	return s.fallback(pc, extra, want)
}

func (s *Solver) model(want []*Term) Model {
	m := Model{}
	for _, t := range want {
		n := s.w.name(t)
		s.flush()
		fmt.Fprintf(s.in, "(eval %s :completion true)\n", n)
		txt, err := s.sexpr()
		if err != nil {
			return m
		}
		if v, ok := s.b.parseVal(t, txt); ok {
			m[t] = v
		}
	}
	return m
}

// sexpr reads one s-expression from the solver.
func (s *Solver) sexpr() (string, error) {
	depth, out := 0, ""
	for {
		l, err := s.line()
		if err != nil {
			return "", err
		}
		out += " " + l
		bar := false
		for _, c := range l {
			switch c {
			case '|':
				bar = !bar
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(out) != "" {
			return strings.TrimSpace(out), nil
		}
	}
}

type sx struct {
	atom string
	l    []sx
}

func parseSx(s string) (sx, string) {
	s = strings.TrimLeft(s, " \t\n")
	if s == "" {
		return sx{}, ""
	}
	if s[0] == '(' {
		s = s[1:]
		var l []sx
		for {
			s = strings.TrimLeft(s, " \t\n")
			if s == "" || s[0] == ')' {
				if s != "" {
					s = s[1:]
				}
				return sx{l: l}, s
			}
			var e sx
			e, s = parseSx(s)
			l = append(l, e)
		}
	}
	if s[0] == '|' {
		k := strings.IndexByte(s[1:], '|')
		return sx{atom: s[:k+2]}, s[k+2:]
	}
	i := strings.IndexAny(s, " \t\n()")
	if i < 0 {
		i = len(s)
	}
	return sx{atom: s[:i]}, s[i:]
}

func bits(a string) (uint64, bool) {
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, err == nil
	}
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func ratOf(e sx) (*big.Rat, bool) {
	if e.l == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		return r, ok
	}
	if len(e.l) == 0 {
		return nil, false
	}
	switch e.l[0].atom {
	case "-":
		r, ok := ratOf(e.l[1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(r), true
	case "/":
		p, ok1 := ratOf(e.l[1])
		q, ok2 := ratOf(e.l[2])
		if !ok1 || !ok2 || q.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(p, q), true
	case "root-obj":
		return rootObj(e)
	}
	return nil, false
}

// rootObj approximates (root-obj poly k): the k-th real root of a univariate polynomial in x.
func rootObj(e sx) (*big.Rat, bool) {
	if len(e.l) != 3 {
		return nil, false
	}
	k, err := strconv.Atoi(e.l[2].atom)
	if err != nil {
		return nil, false
	}
	var ev func(e sx, x float64) (float64, bool)
	ev = func(e sx, x float64) (float64, bool) {
		if e.l == nil {
			if e.atom == "x" {
				return x, true
			}
			f, err := strconv.ParseFloat(e.atom, 64)
			return f, err == nil
		}
		var vs []float64
		for _, c := range e.l[1:] {
			v, ok := ev(c, x)
			if !ok {
				return 0, false
			}
			vs = append(vs, v)
		}
		switch e.l[0].atom {
		case "+":
			s := 0.0
			for _, v := range vs {
				s += v
			}
			return s, true
		case "*":
			s := 1.0
			for _, v := range vs {
				s *= v
			}
			return s, true
		case "-":
			if len(vs) == 1 {
				return -vs[0], true
			}
			return vs[0] - vs[1], true
		case "^":
			return math.Pow(vs[0], vs[1]), true
		}
		return 0, false
	}
	// scan for sign changes
	n := 0
	scan := func(lo, hi float64, steps int) (float64, bool) {
		p, ok := ev(e.l[1], lo)
		if !ok {
			return 0, false
		}
		a := lo
		for i := 1; i <= steps; i++ {
			x := lo + (hi-lo)*float64(i)/float64(steps)
			q, _ := ev(e.l[1], x)
			if (p < 0) != (q < 0) {
				n++
				if n == k {
					b := x
					for j := 0; j < 200; j++ {
						m := (a + b) / 2
						v, _ := ev(e.l[1], m)
						if (v < 0) == (p < 0) {
							a = m
						} else {
							b = m
						}
					}
					return (a + b) / 2, true
				}
			}
			p, a = q, x
		}
		return 0, false
	}
	for _, r := range []float64{16, 1024, 1e6} {
		n = 0
		if f, ok := scan(-r, r, 20011); ok {
			return new(big.Rat).SetFloat64(f), true
		}
	}
	return nil, false
}

func (b *Builder) parseVal(t *Term, txt string) (interface{}, bool) {
	e, _ := parseSx(txt)
	switch t.s.K {
	case SBool:
		return e.atom == "true", e.l == nil
	case SBV:
		v, ok := bits(e.atom)
		if !ok && len(e.l) == 3 && strings.HasPrefix(e.l[1].atom, "bv") {
			v, err := strconv.ParseUint(e.l[1].atom[2:], 10, 64)
			return v, err == nil
		}
		return v, ok
	}
	if b.mode == R {
		r, ok := ratOf(e)
		return r, ok
	}
	if len(e.l) == 4 && e.l[0].atom == "fp" {
		s, ok1 := bits(e.l[1].atom)
		x, ok2 := bits(e.l[2].atom)
		m, ok3 := bits(e.l[3].atom)
		return s<<63 | x<<52 | m, ok1 && ok2 && ok3
	}
	if len(e.l) == 4 && e.l[0].atom == "_" {
		switch e.l[1].atom {
		case "NaN":
			return math.Float64bits(math.NaN()), true
		case "+oo":
			return math.Float64bits(math.Inf(1)), true
		case "-oo":
			return math.Float64bits(math.Inf(-1)), true
		case "+zero":
			return uint64(0), true
		case "-zero":
			return uint64(1) << 63, true
		}
	}
	return nil, false
}

// Script writes a stand-alone SMT-LIB script.
func Script(b *Builder, axioms func(*Term) []*Term, asserts []*Term, want []*Term, logic bool) string {
	w := newWriter(b)
	var sb strings.Builder
	if logic {
		lg := "ALL"
		if b.mode == R {
			lg = "QF_NRA"
			mark := map[*Term]bool{}
			var rec func(t *Term)
			rec = func(t *Term) {
				if mark[t] {
					return
				}
				mark[t] = true
				if t.s.K == SBV || t.op == OFFloor {
					lg = "ALL"
				}
				for _, x := range t.a {
					rec(x)
				}
			}
			for _, t := range asserts {
				rec(t)
			}
			for _, t := range want {
				rec(t)
			}
		}
		sb.WriteString("(set-logic " + lg + ")\n")
	}
	sb.WriteString(prelude(b.mode))
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		n := w.name(t)
		sb.Write(w.out.Bytes())
		w.out.Reset()
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	for _, t := range asserts {
		add(t)
	}
	for _, t := range asserts {
		for _, a := range axioms(t) {
			add(a)
		}
	}
	for _, t := range want {
		w.name(t)
	}
	sb.Write(w.out.Bytes())
	w.out.Reset()
	sb.WriteString("(check-sat)\n")
	if len(want) > 0 {
		sb.WriteString("(get-value (")
		for _, t := range want {
			sb.WriteString(w.name(t) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// oneShot runs a solver on a stand-alone script.
func (s *Solver) oneShot(argv []string, script string, want []*Term, ms int) (int, Model) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	txt := out.String()
	nl := strings.IndexByte(txt, '\n')
	if nl < 0 || strings.Contains(txt[:nl], "error") {
		return Unknown, nil
	}
	switch strings.TrimSpace(txt[:nl]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := Model{}
		e, _ := parseSx(txt[nl:])
		for i, p := range e.l {
			if i < len(want) && len(p.l) == 2 {
				if v, ok := s.b.parseVal(want[i], sxString(p.l[1])); ok {
					m[want[i]] = v
				}
			}
		}
		return Sat, m
	}
	return Unknown, nil
}

func sxString(e sx) string {
	if e.l == nil {
		return e.atom
	}
	p := make([]string, len(e.l))
	for i, c := range e.l {
		p[i] = sxString(c)
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *Solver) fallback(pc, extra, want []*Term) (int, Model) {
	if s.long <= 0 {
		atomic.AddInt64(&gstats.unknown, 1)
		return Unknown, nil
	}
	atomic.AddInt64(&gstats.fallbacks, 1)
	all := append(append([]*Term{}, pc...), extra...)
	type res struct {
		r int
		m Model
	}
	ch := make(chan res, 2)
	sc1 := Script(s.b, s.axioms, all, want, true)
	go func() {
		r, m := s.oneShot([]string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s.long/1000+1), "-memory:4000"}, sc1, want, s.long)
		ch <- res{r, m}
	}()
	go func() {
		a := []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.long)}
		if s.b.mode == FE {
			a = append(a, "--fp-exp")
		}
		r, m := s.oneShot(a, sc1, want, s.long)
		ch <- res{r, m}
	}()
	r := <-ch
	if r.r == Unknown {
		r = <-ch
	}
	if r.r == Unknown {
		atomic.AddInt64(&gstats.unknown, 1)
	}
	return r.r, r.m
}

// Cross re-decides a query with the other solver; returns its verdict.
func (s *Solver) Cross(pc, extra []*Term, ms int) int {
	atomic.AddInt64(&gstats.cross, 1)
	all := append(append([]*Term{}, pc...), extra...)
	sc := Script(s.b, s.axioms, all, nil, true)
	a := []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	r, _ := s.oneShot(a, sc, nil, ms)
	return r
}
