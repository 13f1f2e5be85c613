package main

// A second, over-approximate encoding of floats for mode FU with lemmas: a float
// is a flag for NaN and a real number that keeps the order of the floats (their
// ordinal, odd and monotone). Arithmetic is left to the lemmas, which only speak
// of order. Only "unsat" answers are used, anything else goes to the exact
// encoding.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"os/exec"
	"strings"
	"time"
)

type absSolver struct {
	s     *Solver
	cmd   *exec.Cmd
	in    io.WriteCloser
	rd    *bufio.Reader
	defs  map[*Term]string // bool, bit-vector; floats: the real part, NaN flag prefixed by n
	side  map[*Term][]string
	out   bytes.Buffer
	stack []*Term
	added [][]*Term
	have  map[*Term]bool
	off   bool
}

// ordinal is the position of a float in the order of the floats, 0 for 0.
func ordinal(f float64) string {
	b := math.Float64bits(f)
	m := b & (1<<63 - 1)
	if m != 0 && b>>63 == 1 {
		return fmt.Sprintf("(- %d.0)", m)
	}
	return fmt.Sprintf("%d.0", m)
}

func absPrelude() string {
	return "(set-option :global-declarations true)\n(set-option :timeout 4000)\n" +
		"(define-fun INF () Real " + ordinal(math.Inf(1)) + ")\n(define-fun MAXF () Real " + ordinal(math.MaxFloat64) + ")\n" +
		"(define-fun isfin ((x Real)) Bool (and (<= (- MAXF) x) (<= x MAXF)))\n"
}

func newAbs(s *Solver) *absSolver {
	a := &absSolver{s: s, defs: map[*Term]string{}, side: map[*Term][]string{}, have: map[*Term]bool{}}
	cmd := exec.Command(solverBin, "-in", "-smt2", "-memory:3000")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		a.off = true
		return a
	}
	a.cmd, a.in, a.rd = cmd, in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(in, absPrelude())
	return a
}

func (a *absSolver) Close() {
	if a != nil && a.cmd != nil {
		a.in.Close()
		a.cmd.Process.Kill()
		a.cmd.Wait()
		a.cmd, a.off = nil, true
	}
}

// name defines t and returns its name.
func (a *absSolver) name(t *Term) string {
	if n, ok := a.defs[t]; ok {
		return n
	}
	for _, x := range t.a {
		a.name(x)
	}
	n := a.define(t)
	a.defs[t] = n
	return n
}

func (a *absSolver) define(t *Term) string {
	arg := func(i int) string { return a.defs[t.a[i]] }
	nan := func(i int) string { return a.nan(t.a[i]) }
	if t.s.K != SF {
		cmp := ""
		switch t.op {
		case OFLt:
			cmp = "<"
		case OFLe:
			cmp = "<="
		case OFEq:
			cmp = "="
		}
		if cmp != "" {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&a.out, "(define-fun %s () Bool (and (not %s) (not %s) (%s %s %s)))\n", n, nan(0), nan(1), cmp, arg(0), arg(1))
			return n
		}
		switch t.op {
		case OFIsNaN:
			return nan(0)
		case OEq:
			if t.a[0].s.K == SF {
				n := fmt.Sprintf("t%d", t.id)
				fmt.Fprintf(&a.out, "(declare-const %s Bool)\n", n)
				a.side[t] = append(a.side[t],
					fmt.Sprintf("(=> %s (and (= %s %s) (=> (not %s) (= %s %s))))", n, nan(0), nan(1), nan(0), arg(0), arg(1)),
					fmt.Sprintf("(=> (and (not %s) (not %s) (= %s %s) (not (= %s 0.0))) %s)", nan(0), nan(1), arg(0), arg(1), arg(0), n))
				return n
			}
		case OFBits, OF32Bits, OF2I:
			n := fmt.Sprintf("o%d", t.id)
			fmt.Fprintf(&a.out, "(declare-const %s %s)\n", n, a.s.b.sortName(t.s))
			return n
		}
		// everything else as in the exact encoding
		w := &writer{b: a.s.b, defs: a.defs, fns: map[string]bool{}, out: &a.out}
		w.define(t)
		return a.defs[t]
	}
	n := fmt.Sprintf("r%d", t.id)
	if t.op == OConst {
		f := t.fconst()
		v, isnan := "0.0", "true"
		if f == f {
			v, isnan = ordinal(f), "false"
		}
		fmt.Fprintf(&a.out, "(define-fun %s () Real %s)\n(define-fun n%s () Bool %s)\n", n, v, n, isnan)
		return n
	}
	def := func(v, isnan string) string {
		fmt.Fprintf(&a.out, "(define-fun %s () Real %s)\n(define-fun n%s () Bool %s)\n", n, v, n, isnan)
		return n
	}
	switch t.op {
	case OIte:
		return def(fmt.Sprintf("(ite %s %s %s)", arg(0), arg(1), arg(2)), fmt.Sprintf("(ite %s %s %s)", arg(0), nan(1), nan(2)))
	case OFNeg:
		return def("(- "+arg(0)+")", nan(0))
	case OFAbs:
		return def(fmt.Sprintf("(ite (< %s 0.0) (- %s) %s)", arg(0), arg(0), arg(0)), nan(0))
	case OFMax, OFMin:
		inf, op := "INF", ">="
		if t.op == OFMin {
			inf, op = "(- INF)", "<="
		}
		isInf := fmt.Sprintf("(or (and (not %s) (= %s %s)) (and (not %s) (= %s %s)))", nan(0), arg(0), inf, nan(1), arg(1), inf)
		return def(fmt.Sprintf("(ite %s %s (ite (%s %s %s) %s %s))", isInf, inf, op, arg(0), arg(1), arg(0), arg(1)),
			fmt.Sprintf("(and (not %s) (or %s %s))", isInf, nan(0), nan(1)))
	}
	fmt.Fprintf(&a.out, "(declare-const %s Real)\n(declare-const n%s Bool)\n", n, n)
	side := []string{fmt.Sprintf("(or (isfin %s) (= %s INF) (= %s (- INF)))", n, n, n)}
	a.side[t] = side
	return n
}

func (a *absSolver) nan(t *Term) string { return "n" + a.defs[t] }

func (a *absSolver) push(t *Term) {
	io.WriteString(&a.out, "(push 1)\n")
	var added []*Term
	var sides func(t *Term)
	sides = func(t *Term) {
		if a.have[t] {
			return
		}
		a.have[t] = true
		added = append(added, t)
		for _, x := range t.a {
			sides(x)
		}
		for _, c := range a.side[t] {
			fmt.Fprintf(&a.out, "(assert %s)\n", c)
		}
	}
	for _, x := range append([]*Term{t}, a.s.axioms(t)...) {
		n := a.name(x)
		if x != t {
			if a.have[x] {
				continue
			}
		}
		sides(x)
		fmt.Fprintf(&a.out, "(assert %s)\n", n)
	}
	a.added = append(a.added, added)
	a.stack = append(a.stack, t)
}

func (a *absSolver) pop() {
	io.WriteString(&a.out, "(pop 1)\n")
	k := len(a.added) - 1
	for _, t := range a.added[k] {
		delete(a.have, t)
	}
	a.added, a.stack = a.added[:k], a.stack[:k]
}

// check decides the conjunction in the abstraction.
func (a *absSolver) check(all []*Term) int {
	if a.off {
		return Unknown
	}
	k := 0
	for k < len(all) && k < len(a.stack) && all[k] == a.stack[k] {
		k++
	}
	for len(a.stack) > k {
		a.pop()
	}
	for _, t := range all[k:] {
		a.push(t)
	}
	io.WriteString(&a.out, "(check-sat)\n")
	a.in.Write(a.out.Bytes())
	a.out.Reset()
	tm := time.AfterFunc(15*time.Second, func() { a.cmd.Process.Kill() })
	l, err := a.rd.ReadString('\n')
	tm.Stop()
	l = strings.TrimSpace(l)
	if err != nil || strings.HasPrefix(l, "(error") {
		if err == nil {
			fmt.Println("abstract solver:", l)
		}
		a.Close()
		return Unknown
	}
	switch l {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}
