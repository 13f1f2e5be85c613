package main

// Models of the functions the interpreter does not execute: the harness
// runtime, math, random numbers, formatting, logging, files, encoding/binary.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(p *Path, caller *frame, fn *ssa.Function, args []Value) Value

var harnessPkgPath string
var targetPkgPath string

func findIntrinsic(name string, fn *ssa.Function) intrinsic {
	if fn.Synthetic == "package initializer" {
		return func(p *Path, c *frame, f *ssa.Function, a []Value) Value { return nil }
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == harnessPkgPath && fn.Signature.Recv() == nil {
		if in, ok := rtTable[fn.Name()]; ok {
			return in
		}
		return nil
	}
	// methods of instantiated or wrapped functions have no package of their own
	if in, ok := libTable[name]; ok {
		return in
	}
	if strings.HasPrefix(name, "math.") {
		return mathIntrinsic(fn)
	}
	for _, r := range []string{"math/rand.", "golang.org/x/exp/rand.", "math/rand/v2."} {
		if strings.HasPrefix(name, r) {
			return randIntrinsic(fn.Name(), false)
		}
	}
	for _, r := range []string{"(*math/rand.Rand).", "(*golang.org/x/exp/rand.Rand).", "(*math/rand/v2.Rand)."} {
		if strings.HasPrefix(name, r) {
			return randIntrinsic(fn.Name(), true)
		}
	}
	if strings.HasPrefix(name, "fmt.") {
		return fmtIntrinsic(fn.Name())
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		return logIntrinsic(fn.Name(), strings.HasPrefix(name, "(*"))
	}
	if strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "(*os.") {
		return osIntrinsic(name)
	}
	if strings.HasPrefix(name, "(*sync.") {
		return syncIntrinsic(name)
	}
	if strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(*time.") {
		return timeIntrinsic(fn)
	}
	return nil
}

// ---- harness runtime

func str(p *Path, v Value) string {
	s, ok := v.(Str)
	if !ok || s.sym != nil {
		unsupported("symbolic label")
	}
	return s.s
}

func cint(v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		unsupported("symbolic integer where a constant is needed")
	}
	return signed(t.c, t.s.W)
}

func (p *Path) addInput(kind, name string, t *Term, v uint64) {
	p.inputs = append(p.inputs, Input{Kind: kind, Name: name, T: t, V: v})
}

var rtTable map[string]intrinsic

func init() {
	rtTable = map[string]intrinsic{
		"vFloat": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := str(p, a[0])
			t := p.fresh("f", n, fS)
			p.addInput("f", n, t, 0)
			return t
		},
		"vFinite": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := str(p, a[0])
			t := p.fresh("g", n, fS)
			p.addInput("f", n, t, 0)
			if p.b.mode != R {
				p.addAssume(p.b.FIsFinite(t))
				t.num = true
			}
			return t
		},
		"vInt": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := str(p, a[0])
			p.effect("input")
			k := p.counter["i:"+n]
			p.counter["i:"+n] = k + 1
			lo, hi := cint(a[1]), cint(a[2])
			t := p.b.VarRange(fmt.Sprintf("i:%s#%d[%d,%d]", n, k, lo, hi), 64, lo, hi)
			t.rng = true
			p.addInput("i", n, t, 0)
			if lo != math.MinInt64 || hi != math.MaxInt64 {
				b := p.b
				p.addAssume(b.mk(OSle, bS, 0, "", b.BV(uint64(lo), 64), t))
				p.addAssume(b.mk(OSle, bS, 0, "", t, b.BV(uint64(hi), 64)))
			}
			return t
		},
		"vByte": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := str(p, a[0])
			t := p.fresh("y", n, Sort{SBV, 8})
			p.addInput("y", n, t, 0)
			return t
		},
		"vBool": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := str(p, a[0])
			t := p.fresh("b", n, bS)
			p.addInput("b", n, t, 0)
			return t
		},
		"vPick": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			n := int(cint(a[1]))
			k := 0
			if n > 1 {
				k = p.choose(n)
			}
			p.addInput("p", str(p, a[0]), nil, uint64(k))
			return p.b.BV(uint64(k), 64)
		},
		"vAssume": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isTrue() {
				return nil
			}
			p.effect("assume")
			if t.isFalse() {
				panic(pathEnd{"assume"})
			}
			p.addAssume(t)
			if p.pos >= len(p.prefix) {
				if r := p.check(p.b.True); r == Unsat {
					panic(pathEnd{"assume"})
				}
			}
			return nil
		},
		// vGiven assumes without asking the solver whether it is possible
		"vGiven": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isFalse() {
				panic(pathEnd{"assume"})
			}
			p.addAssume(t)
			return nil
		},
		"vAssert": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.assert(a[0].(*Term), str(p, a[1]), false, nil)
			return nil
		},
		"vEq": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			p.assertEq(x, y, str(p, a[2]))
			return nil
		},
		"vSame": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			p.assert(p.b.Eq(x, y), str(p, a[2]), false, p.marginOf(x, y))
			return nil
		},
		"vGrad": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			label := str(p, a[0])
			if p.h.only != nil && !p.h.only[label] {
				p.w.labels[label] = true
				return nil
			}
			if p.b.mode != R {
				unsupported("vGrad outside mode R")
			}
			cell := a[1].(*Value)
			x, ok := (*cell).(*Term)
			if !ok || x.op != OVar {
				unsupported("vGrad needs a cell holding an input")
			}
			f, ok := p.callValue(c, a[2], nil).(*Term)
			if !ok {
				unsupported("vGrad function")
			}
			want := p.b.Deriv(f, x)
			p.assertEq(a[3].(*Term), want, label)
			return nil
		},
		"vReach": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.w.reached[str(p, a[0])] = true
			return nil
		},
		"vTier": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.BV(uint64(p.eng.tier), 64)
		},
		"vSymbolic": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.True },
		"vAllocBudget": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.allocBudget = cint(a[0])
			p.alloc = 0
			return nil
		},
		"vDrawCount": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			if p.drawPos >= 0 {
				return p.b.BV(uint64(p.drawPos), 64)
			}
			return p.b.BV(uint64(len(p.draws)), 64)
		},
		"vDrawSeek": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("seek")
			k := int(cint(a[0]))
			if k < len(p.draws) {
				p.drawPos = k
			} else {
				p.drawPos = -1
			}
			return nil
		},
		"vDraw": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			k := int(cint(a[0]))
			if k < 0 || k >= len(p.draws) || p.draws[k].T == nil || p.draws[k].T.s.K != SF {
				panic(pathEnd{"nodraw"})
			}
			return p.draws[k].T
		},
		"vDrawKind": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			k := int(cint(a[0]))
			if k < 0 || k >= len(p.draws) {
				return Str{}
			}
			return Str{s: p.draws[k].Kind}
		},
		"vUndecided": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			unsupported("%s", p.strText(a[0].(Str)))
			return nil
		},
		"vSeeds": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.BV(uint64(len(p.seeds)), 64)
		},
		"vSeedSame": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			x, y := p.seeds[cint(a[0])], p.seeds[cint(a[1])]
			if x == nil || y == nil {
				unsupported("unknown seed")
			}
			p.clockOrder()
			return p.b.Eq(x, y)
		},
		"vTempDir": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			p.fs.nodes["/vtmp"] = &fsNode{dir: true}
			return Str{s: "/vtmp"}
		},
		"vFaults": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			p.fs.faults = int(cint(a[0]))
			return nil
		},
		"vFaulted": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.Bool(p.fs.faulted)
		},
		"vCaptureStdout": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return nil
		},
		"vStdoutLen": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.BV(uint64(len(p.fs.node("/dev/stdout").data)), 64)
		},
		"vConc": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			v := p.concretize(a[0].(*Term))
			return p.b.BV(v, 64)
		},
		"vIsVar": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.Bool(a[0].(*Term).op == OVar)
		},
	}
}

func (p *Path) marginOf(x, y *Term) *Term {
	b := p.b
	if b.mode != R {
		return nil
	}
	m := b.Rat(big.NewRat(1, 64))
	d := b.FSub(x, y)
	return b.Or(b.FLe(m, d), b.FLe(m, b.FNeg(d)))
}

// assertEq claims that x and y are equal up to rounding.
func (p *Path) assertEq(x, y *Term, label string) {
	b := p.b
	if p.h.only != nil && !p.h.only[label] {
		p.w.asserts++
		p.w.labels[label] = true
		return
	}
	if b.mode == R {
		c := b.Eq(x, y)
		var m *Term
		if b.fold && !c.isTrue() {
			// constants are rounded: equal up to 2^-30
			e, d := b.Rat(big.NewRat(1, 1<<30)), b.Canon(b.FSub(x, y))
			c = b.And(b.FLe(d, e), b.FLe(b.FNeg(e), d))
		}
		if !c.isTrue() {
			m = p.marginOf(x, y)
		}
		p.assert(c, label, true, m)
		return
	}
	p.assert(b.Or(b.Eq(x, y), b.FEq(x, y)), label, true, nil)
}

// ---- math

func mathIntrinsic(fn *ssa.Function) intrinsic {
	un := func(f func(float64) float64, uf string) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() && p.b.mode != R {
				return p.b.Float(f(t.fconst()))
			}
			if t.isConst() && uf != "exp" && uf != "log" && uf != "pow" {
				v, _ := t.rat.Float64()
				if w := f(v); w == math.Trunc(w) && (uf == "floor" || uf == "ceil" || uf == "trunc" || uf == "round") {
					return p.b.Float(w)
				}
			}
			return p.b.UF(uf, t)
		}
	}
	switch fn.Name() {
	case "Abs":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.FAbs(a[0].(*Term)) }
	case "Max":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.FMinMax(OFMax, a[0].(*Term), a[1].(*Term))
		}
	case "Min":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.FMinMax(OFMin, a[0].(*Term), a[1].(*Term))
		}
	case "Sqrt":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.FSqrt(a[0].(*Term)) }
	case "Floor":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.FFloor(a[0].(*Term)) }
	case "Ceil":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.FNeg(p.b.FFloor(p.b.FNeg(a[0].(*Term))))
		}
	case "Trunc":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b, x := p.b, a[0].(*Term)
			return b.Ite(b.FLt(x, b.Float(0)), b.FNeg(b.FFloor(b.FNeg(x))), b.FFloor(x))
		}
	case "Exp":
		return un(math.Exp, "exp")
	case "Exp2":
		return un(math.Exp2, "exp2")
	case "Expm1":
		return un(math.Expm1, "expm1")
	case "Log":
		return un(math.Log, "log")
	case "Log1p":
		return un(math.Log1p, "log1p")
	case "Log2":
		return un(math.Log2, "log2")
	case "Log10":
		return un(math.Log10, "log10")
	case "Tanh":
		return un(math.Tanh, "tanh")
	case "Sin":
		return un(math.Sin, "sin")
	case "Cos":
		return un(math.Cos, "cos")
	case "Tan":
		return un(math.Tan, "tan")
	case "Round":
		return un(math.Round, "round")
	case "Lgamma":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() && p.b.mode != R {
				v, s := math.Lgamma(t.fconst())
				return Tuple{p.b.Float(v), p.b.BV(uint64(s), 64)}
			}
			return Tuple{p.b.UF("lgamma", t), p.b.BV(1, 64)}
		}
	case "Pow":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b, x, y := p.b, a[0].(*Term), a[1].(*Term)
			if x.isConst() && y.isConst() && b.mode != R {
				return b.Float(math.Pow(x.fconst(), y.fconst()))
			}
			if b.mode != R && y.isConst() {
				switch y.fconst() {
				case 0:
					return b.Float(1)
				case 1:
					return x
				}
			}
			return b.UF("pow", x, y)
		}
	case "Float64bits":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.FBits(a[0].(*Term)) }
	case "Float32bits":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.F32Bits(a[0].(*Term)) }
	case "Float32frombits":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.B32F(a[0].(*Term)) }
	case "Float64frombits":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.BitsF(a[0].(*Term)) }
	case "IsNaN":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.FIsNaN(a[0].(*Term)) }
	case "IsInf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b, x := p.b, a[0].(*Term)
			s := cint(a[1])
			if b.mode == R {
				i := int64(x.infR())
				return b.Bool(i != 0 && (s == 0 || (s > 0) == (i > 0)))
			}
			switch {
			case s > 0:
				return b.Eq(x, b.Float(math.Inf(1)))
			case s < 0:
				return b.Eq(x, b.Float(math.Inf(-1)))
			}
			return b.FIsInf(x)
		}
	case "Inf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			s := cint(a[0])
			if p.b.mode == R {
				return p.b.InfR(s < 0)
			}
			if s < 0 {
				return p.b.Float(math.Inf(-1))
			}
			return p.b.Float(math.Inf(1))
		}
	case "NaN":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.Float(math.NaN()) }
	case "Signbit":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Term)
			if p.b.mode == R {
				return p.b.FLt(x, p.b.Float(0))
			}
			return p.b.cmp(OSlt, p.b.FBits(x), p.b.BV(0, 64))
		}
	case "Copysign":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b, x, y := p.b, a[0].(*Term), a[1].(*Term)
			var neg *Term
			if b.mode == R {
				neg = b.FLt(y, b.Float(0))
			} else {
				neg = b.cmp(OSlt, b.FBits(y), b.BV(0, 64))
			}
			return b.Ite(neg, b.FNeg(b.FAbs(x)), b.FAbs(x))
		}
	case "FMA":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b := p.b
			if b.mode == R {
				return b.FAdd(b.FMul(a[0].(*Term), a[1].(*Term)), a[2].(*Term))
			}
			return b.UF("fma", a[0].(*Term), a[1].(*Term), a[2].(*Term))
		}
	}
	return nil
}

// ---- random numbers

// draw returns the next random value: a fresh input, or a recorded one.
// seed records what a random source was seeded with.
func (p *Path) seed(v Value) {
	p.effect("seed")
	t, _ := v.(*Term)
	if t != nil && t.s.K == SBV && t.s.W < 64 {
		t = p.b.Zext(t, 64)
	}
	p.seeds = append(p.seeds, t)
}

// now is a reading of the clock, in nanoseconds: every reading is later than
// the one before.
func (p *Path) now() *Term {
	p.effect("clock")
	t := p.b.VarRange(fmt.Sprintf("clock#%d", len(p.clocks)), 64, 1<<60, 1<<61)
	p.clocks = append(p.clocks, t)
	return t
}

// clockOrder lets the solver know the order of the readings.
func (p *Path) clockOrder() {
	for i := range p.clocks {
		if i >= p.clocked {
			t := p.clocks[i]
			p.addAssume(p.b.cmp(OUlt, p.b.BV(1<<60, 64), t))
			p.addAssume(p.b.cmp(OUlt, t, p.b.BV(1<<61, 64)))
			if i > 0 {
				p.addAssume(p.b.cmp(OUlt, p.clocks[i-1], t))
			}
		}
	}
	p.clocked = len(p.clocks)
}

func (p *Path) draw(kind string, n int64) *Term {
	p.effect("random draw")
	b := p.b
	if p.drawPos >= 0 {
		if p.drawPos >= len(p.draws) {
			p.drawPos = -1
		} else {
			d := p.draws[p.drawPos]
			p.drawPos++
			if p.drawPos >= len(p.draws) {
				p.drawPos = -1
			}
			if d.Kind != kind || (kind == "i" && d.V != uint64(n)) {
				panic(pathEnd{"drawmismatch"})
			}
			return d.T
		}
	}
	var t *Term
	switch kind {
	case "u":
		t = p.fresh("u", "draw", fS)
		p.addAssume(b.FLe(b.Float(0), t))
		p.addAssume(b.FLt(t, b.Float(1)))
	case "n":
		t = p.fresh("n", "draw", fS)
		if b.mode != R {
			p.addAssume(b.FIsFinite(t))
		}
	case "e":
		t = p.fresh("e", "draw", fS)
		p.addAssume(b.FLe(b.Float(0), t))
		if b.mode != R {
			p.addAssume(b.FIsFinite(t))
		}
	case "i":
		k := p.counter["ri"]
		p.counter["ri"] = k + 1
		t = b.VarRange(fmt.Sprintf("ri#%d<%d", k, n), 64, 0, n-1)
		t.rng = true
		p.addAssume(b.mk(OUlt, bS, 0, "", t, b.BV(uint64(n), 64)))
	case "r":
		t = p.fresh("r", "draw", Sort{SBV, 64})
	}
	p.draws = append(p.draws, Input{Kind: kind, Name: "draw", T: t, V: uint64(n)})
	if len(p.draws) > 4096 {
		panic(pathEnd{"draws"})
	}
	return t
}

func randIntrinsic(name string, method bool) intrinsic {
	arg := func(a []Value, i int) Value {
		if method {
			i++
		}
		return a[i]
	}
	nilchk := func(p *Path, a []Value) {
		if method {
			if v, ok := a[0].(*Value); ok && v == nil {
				p.nilDeref()
			}
		}
	}
	intn := func(w uint8) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			t := arg(a, 0).(*Term)
			if !p.decide(p.b.cmp(OSlt, p.b.BV(0, t.s.W), t)) {
				panic(targetPanic{v: p.errorIface("invalid argument to Intn"), msg: "invalid argument to Intn"})
			}
			n := int64(p.concretize(t))
			return p.b.Extract(p.draw("i", n), w-1, 0)
		}
	}
	flt := func(k string) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			return p.draw(k, 0)
		}
	}
	raw := func(hi, lo uint8, w uint8) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			return p.b.Zext(p.b.Extract(p.draw("r", 0), hi, lo), w)
		}
	}
	switch name {
	case "Float64":
		return flt("u")
	case "NormFloat64":
		return flt("n")
	case "ExpFloat64":
		return flt("e")
	case "Intn", "IntN", "Int63n", "Int64N":
		return intn(64)
	case "Int31n", "Int32N":
		return intn(32)
	case "Uint64":
		return raw(63, 0, 64)
	case "Int63", "Int", "Int64":
		return raw(62, 0, 64)
	case "Int31", "Int32":
		return raw(30, 0, 32)
	case "Uint32":
		return raw(31, 0, 32)
	case "Seed":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			p.seed(arg(a, 0))
			return nil
		}
	case "Perm":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			n := int(p.concretize(arg(a, 0).(*Term)))
			s := make(Slice, n)
			for i := 0; i < n; i++ {
				j := int(p.concretize(p.draw("i", int64(i+1))))
				s[i] = s[j]
				s[j] = p.b.BV(uint64(i), 64)
			}
			return s
		}
	case "Shuffle":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			nilchk(p, a)
			nT := arg(a, 0).(*Term)
			if !p.decide(p.b.cmp(OSle, p.b.BV(0, 64), nT)) {
				panic(targetPanic{v: p.errorIface("invalid argument to Shuffle"), msg: "invalid argument to Shuffle"})
			}
			n := int(p.concretize(nT))
			for i := n - 1; i > 0; i-- {
				j := int(p.concretize(p.draw("i", int64(i+1))))
				p.callValue(c, arg(a, 1), []Value{p.b.BV(uint64(i), 64), p.b.BV(uint64(j), 64)})
			}
			return nil
		}
	case "NewSource", "NewPCG", "NewChaCha8", "NewZipf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.seed(a[0])
			cell := new(Value)
			*cell = &Native{kind: "source"}
			if types.IsInterface(fn.Signature.Results().At(0).Type()) {
				return Iface{t: types.NewPointer(p.eng.opaque), v: cell}
			}
			return cell
		}
	case "New":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(Iface); ok && s.t == nil {
				unsupported("rand.New(nil)")
			}
			cell := new(Value)
			*cell = &Native{kind: "rand"}
			return cell
		}
	}
	return nil
}

// ---- errors

func (p *Path) errorIface(msg string) Iface {
	cell := new(Value)
	*cell = Structure{Str{s: msg}}
	return Iface{t: p.eng.errorString, v: cell}
}

func (p *Path) wrapErr(msg string, err Value) Iface {
	cell := new(Value)
	*cell = Structure{Str{s: msg}, err}
	return Iface{t: p.eng.wrapError, v: cell}
}

func (p *Path) nilErr() Iface { return Iface{} }

func (p *Path) hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, name) != nil
}

func (p *Path) errText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "<nil>"
	}
	s, ok := p.callMethod(nil, i, "Error").(Str)
	if !ok {
		return "?"
	}
	return p.strText(s)
}

func (p *Path) errIs(err, target Iface) *Term {
	b := p.b
	r := b.False
	for n := 0; n < 20 && err.t != nil; n++ {
		if types.Comparable(err.t) {
			r = b.Or(r, p.equal(err, target))
		}
		if !p.hasMethod(err.t, "Unwrap") {
			break
		}
		e, ok := p.callMethod(nil, err, "Unwrap").(Iface)
		if !ok {
			break
		}
		err = e
	}
	if err.t == nil && target.t == nil {
		r = b.True
	}
	return r
}

// ---- formatting

type shown string

func (s shown) Format(f fmt.State, c rune) { f.Write([]byte(string(s))) }

// native converts a value for formatting; symbolic parts become "?".
func (p *Path) native(v Value, t types.Type) interface{} {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		if p.hasMethod(x.t, "Error") {
			return shown(p.errText(x))
		}
		if p.hasMethod(x.t, "String") {
			if s, ok := p.callMethod(nil, x, "String").(Str); ok {
				return shown(p.strText(s))
			}
		}
		return p.native(x.v, x.t)
	case *Term:
		if !x.isConst() {
			return shown("?")
		}
		bt, ok := t.Underlying().(*types.Basic)
		if !ok {
			return shown("?")
		}
		switch {
		case bt.Info()&types.IsBoolean != 0:
			return x.c == 1
		case bt.Info()&types.IsFloat != 0:
			if x.rat != nil {
				f, _ := x.rat.Float64()
				return f
			}
			return x.fconst()
		case bt.Info()&types.IsUnsigned != 0:
			return x.c
		}
		return signed(x.c, x.s.W)
	case Str:
		return p.strText(x)
	}
	return shown("?")
}

func (p *Path) natives(v Value) []interface{} {
	var out []interface{}
	s, _ := v.(Slice)
	for _, x := range s {
		out = append(out, p.native(x, nil))
	}
	return out
}

func (p *Path) sprintf(f Value, args Value) string {
	format := p.strText(f.(Str))
	return fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), p.natives(args)...)
}

func (p *Path) bytesOf(s string) Slice {
	out := make(Slice, len(s))
	for i := range out {
		out[i] = p.b.BV(uint64(s[i]), 8)
	}
	return out
}

// writeTo calls w.Write(bytes).
func (p *Path) writeTo(c *frame, w Iface, s string) Value {
	return p.callMethod(c, w, "Write", p.bytesOf(s))
}

func fmtIntrinsic(name string) intrinsic {
	out := func(f func(p *Path, a []Value) string) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("output")
			s := f(p, a)
			p.fs.write(p, p.fs.stdout, p.bytesOf(s))
			return Tuple{p.b.BV(uint64(len(s)), 64), p.nilErr()}
		}
	}
	switch name {
	case "Sprintf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return Str{s: p.sprintf(a[0], a[1])} }
	case "Sprint":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return Str{s: fmt.Sprint(p.natives(a[0])...)} }
	case "Sprintln":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return Str{s: fmt.Sprintln(p.natives(a[0])...)}
		}
	case "Errorf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			msg := p.sprintf(a[0], a[1])
			f := p.strText(a[0].(Str))
			if strings.Contains(f, "%w") {
				for _, x := range a[1].(Slice) {
					if i, ok := x.(Iface); ok && i.t != nil && p.hasMethod(i.t, "Error") {
						return p.wrapErr(msg, i)
					}
				}
			}
			return p.errorIface(msg)
		}
	case "Println":
		return out(func(p *Path, a []Value) string { return fmt.Sprintln(p.natives(a[0])...) })
	case "Print":
		return out(func(p *Path, a []Value) string { return fmt.Sprint(p.natives(a[0])...) })
	case "Printf":
		return out(func(p *Path, a []Value) string { return p.sprintf(a[0], a[1]) })
	case "Fprintf":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.writeTo(c, a[0].(Iface), p.sprintf(a[1], a[2]))
		}
	case "Fprintln":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.writeTo(c, a[0].(Iface), fmt.Sprintln(p.natives(a[1])...))
		}
	case "Fprint":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.writeTo(c, a[0].(Iface), fmt.Sprint(p.natives(a[1])...))
		}
	}
	return nil
}

// ---- logging

type logState struct {
	w      Value // Iface
	prefix string
	flags  int64
}

func (p *Path) logger(v Value) *logState {
	c, ok := v.(*Value)
	if !ok || c == nil {
		p.nilDeref()
	}
	if n, ok := (*c).(*Native); ok && n.kind == "logger" {
		return n.data.(*logState)
	}
	if s, ok := (*c).(Structure); ok {
		_ = s
		st := &logState{w: Iface{}}
		*c = &Native{kind: "logger", data: st}
		return st
	}
	unsupported("logger value")
	return nil
}

func (p *Path) stdLogger() *Value {
	if p.stdLog == nil {
		cell := new(Value)
		*cell = &Native{kind: "logger", data: &logState{w: Iface{t: p.eng.osFile, v: p.fs.file(p.fs.stderr)}}}
		p.stdLog = cell
	}
	return p.stdLog
}

func logIntrinsic(name string, method bool) intrinsic {
	get := func(p *Path, a []Value) (*logState, []Value) {
		if method {
			return p.logger(a[0]), a[1:]
		}
		return p.logger(p.stdLogger()), a
	}
	emit := func(p *Path, c *frame, l *logState, s string) {
		p.effect("logging")
		w, _ := l.w.(Iface)
		if w.t == nil {
			p.nilDeref()
		}
		if !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		p.writeTo(c, w, l.prefix+s)
	}
	format := func(name string, p *Path, a []Value) string {
		switch {
		case strings.HasSuffix(name, "f"):
			return p.sprintf(a[0], a[1])
		case strings.HasSuffix(name, "ln"):
			return fmt.Sprintln(p.natives(a[0])...)
		}
		return fmt.Sprint(p.natives(a[0])...)
	}
	switch name {
	case "New":
		if method {
			return nil
		}
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			cell := new(Value)
			*cell = &Native{kind: "logger", data: &logState{w: a[0], prefix: p.strText(a[1].(Str))}}
			return cell
		}
	case "Default":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.stdLogger() }
	case "Print", "Printf", "Println":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			l, r := get(p, a)
			emit(p, c, l, format(name, p, r))
			return nil
		}
	case "Fatal", "Fatalf", "Fatalln":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			l, r := get(p, a)
			s := format(name, p, r)
			emit(p, c, l, s)
			p.exited("log." + name)
			return nil
		}
	case "Panic", "Panicf", "Panicln":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			l, r := get(p, a)
			s := format(name, p, r)
			emit(p, c, l, s)
			panic(targetPanic{v: p.errorIface(s), msg: s})
		}
	case "SetOutput":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("logging")
			l, r := get(p, a)
			l.w = r[0]
			return nil
		}
	case "SetFlags":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { get(p, a); return nil }
	case "SetPrefix":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("logging")
			l, r := get(p, a)
			l.prefix = p.strText(r[0].(Str))
			return nil
		}
	case "Writer":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { l, _ := get(p, a); return l.w }
	case "Prefix":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { l, _ := get(p, a); return Str{s: l.prefix} }
	case "Output":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			l, r := get(p, a)
			emit(p, c, l, p.strText(r[1].(Str)))
			return p.nilErr()
		}
	}
	return nil
}

func (p *Path) exited(what string) {
	p.effect("exit")
	panic(targetPanic{v: p.errorIface("process exit: " + what), msg: "process exit: " + what})
}

// ---- sync, time, sort, errors, misc

func syncIntrinsic(name string) intrinsic {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return nil }
	case "(*sync.Once).Do":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("once")
			k := a[0].(*Value)
			if !p.once[k] {
				p.once[k] = true
				p.callValue(c, a[1], nil)
			}
			return nil
		}
	case "(*sync.Pool).Get":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			s := (*a[0].(*Value)).(Structure)
			f := s[len(s)-1]
			if g, ok := f.(*ssa.Function); ok && g == nil {
				return Iface{}
			}
			return p.callValue(c, f, nil)
		}
	case "(*sync.Pool).Put":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return nil }
	}
	return nil
}

func timeIntrinsic(fn *ssa.Function) intrinsic {
	switch fn.Name() {
	case "Now":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			v := p.zero(fn.Signature.Results().At(0).Type())
			if st, ok := v.(Structure); ok && len(st) == 3 {
				st[1] = p.now() // the field ext of time.Time
			}
			return v
		}
	case "UnixNano", "Unix", "UnixMilli", "UnixMicro":
		unit := map[string]uint64{"UnixNano": 1, "Unix": 1e9, "UnixMilli": 1e6, "UnixMicro": 1e3}[fn.Name()]
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			if st, ok := a[0].(Structure); ok && len(st) == 3 {
				if t, ok := st[1].(*Term); ok && !t.isConst() {
					if unit == 1 {
						return t
					}
					return p.b.bin(OUDiv, t, p.b.BV(unit, 64))
				}
			}
			return p.b.BV(1700000000, 64)
		}
	case "Nanosecond", "Since", "Sub", "Milliseconds", "Microseconds", "Nanoseconds":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.BV(1700000000, 64) }
	case "Seconds":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.Float(0) }
	case "Sleep":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return nil }
	case "String", "Format":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return Str{s: "time"} }
	}
	return nil
}

var libTable map[string]intrinsic

func init() {
	libTable = map[string]intrinsic{
		"errors.Is": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.errIs(a[0].(Iface), a[1].(Iface))
		},
		"encoding/binary.Write": binWrite,
		"encoding/binary.Read":  binRead,
		"encoding/binary.Size": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			v, t := i.v, i.t
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				v, t = *(v.(*Value)), pt.Elem()
			}
			bs, ok := p.flatten(t, v, false)
			if !ok {
				return p.b.BV(^uint64(0), 64)
			}
			return p.b.BV(uint64(len(bs)), 64)
		},
		"sort.Slice": sortSlice, "sort.SliceStable": sortSlice,
		"sort.Strings": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			var v []string
			for _, x := range s {
				st := x.(Str)
				if st.sym != nil {
					unsupported("sorting symbolic strings")
				}
				v = append(v, st.s)
			}
			sort.Strings(v)
			for i := range v {
				p.write(&s[i], Str{s: v[i]})
			}
			return nil
		},
		"strconv.Itoa": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				return Str{s: "?"}
			}
			return Str{s: fmt.Sprint(signed(t.c, 64))}
		},
		"runtime.GC":         func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return nil },
		"runtime.KeepAlive":  func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return nil },
		"runtime.GOMAXPROCS": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.BV(1, 64) },
		"runtime.NumCPU":     func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.BV(1, 64) },
		"(*bytes.Buffer).String": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			s, ok := p.callMethodFn(c, "bytes", "Buffer", "Bytes", a[0]).(Slice)
			if !ok {
				unsupported("Buffer.String")
			}
			return p.sliceStr(s)
		},
		"bytes.IndexByte": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			b := p.b
			r := b.BV(^uint64(0), 64)
			s := a[0].(Slice)
			for i := len(s) - 1; i >= 0; i-- {
				r = b.Ite(b.Eq(s[i].(*Term), a[1].(*Term)), b.BV(uint64(i), 64), r)
			}
			return r
		},
		"bytes.Equal": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.strEq(p.sliceStr(a[0].(Slice)), p.sliceStr(a[1].(Slice)))
		},
		"(*strings.Builder).WriteString": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("builder")
			cell := a[0].(*Value)
			st := (*cell).(Structure)
			old, _ := p.builders[cell]
			p.builders[cell] = mkStr(append(append([]*Term{}, p.strBytes(old)...), p.strBytes(a[1].(Str))...))
			_ = st
			return Tuple{p.b.BV(uint64(a[1].(Str).length()), 64), p.nilErr()}
		},
		"(*strings.Builder).String": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.builders[a[0].(*Value)]
		},
		"(*strings.Builder).Len": func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.b.BV(uint64(p.builders[a[0].(*Value)].length()), 64)
		},
	}
}

func (p *Path) sliceStr(s Slice) Str {
	bs := make([]*Term, len(s))
	for i := range s {
		bs[i] = s[i].(*Term)
	}
	return mkStr(bs)
}

func (p *Path) callMethodFn(c *frame, pkg, typ, m string, recv Value, args ...Value) Value {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		unsupported("package %s", pkg)
	}
	methMu.Lock()
	fn := p.prog.LookupMethod(types.NewPointer(pk.Type(typ).Type()), pk.Pkg, m)
	methMu.Unlock()
	return p.callFn(c, fn, append([]Value{recv}, args...), nil)
}

func sortSlice(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	// insertion sort: any correct sort gives the same multiset and order
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			lt := p.callValue(c, a[1], []Value{p.b.BV(uint64(j), 64), p.b.BV(uint64(j-1), 64)}).(*Term)
			if !p.decide(lt) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			p.storeCell(&s[j], y)
			p.storeCell(&s[j-1], x)
		}
	}
	return nil
}

// ---- encoding/binary

func bigEndian(order Value) bool {
	i := order.(Iface)
	if i.t == nil {
		unsupported("nil byte order")
	}
	return strings.Contains(i.t.String(), "big")
}

// flatten lists the bytes of a fixed-size value.
func (p *Path) flatten(t types.Type, v Value, be bool) ([]*Term, bool) {
	b := p.b
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer:
			return nil, false
		case types.Bool:
			return []*Term{b.Ite(v.(*Term), b.BV(1, 8), b.BV(0, 8))}, true
		case types.Float32:
			return p.bytesOfBV(b.F32Bits(v.(*Term)), be), true
		case types.Float64:
			return p.bytesOfBV(b.FBits(v.(*Term)), be), true
		case types.Complex64, types.Complex128:
			unsupported("encoding of complex numbers")
		}
		return p.bytesOfBV(v.(*Term), be), true
	case *types.Slice:
		var out []*Term
		if _, ok := p.flatten(u.Elem(), p.zero(u.Elem()), be); !ok {
			return nil, false
		}
		for _, x := range v.(Slice) {
			y, ok := p.flatten(u.Elem(), x, be)
			if !ok {
				return nil, false
			}
			out = append(out, y...)
		}
		return out, true
	case *types.Array:
		var out []*Term
		for _, x := range v.(Array) {
			y, ok := p.flatten(u.Elem(), x, be)
			if !ok {
				return nil, false
			}
			out = append(out, y...)
		}
		return out, true
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			y, ok := p.flatten(u.Field(i).Type(), v.(Structure)[i], be)
			if !ok {
				return nil, false
			}
			out = append(out, y...)
		}
		return out, true
	}
	return nil, false
}

func (p *Path) bytesOfBV(t *Term, be bool) []*Term {
	n := int(t.s.W) / 8
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		x := p.b.Extract(t, uint8(8*i+7), uint8(8*i))
		if be {
			out[n-1-i] = x
		} else {
			out[i] = x
		}
	}
	return out
}

func (p *Path) unflatten(t types.Type, old Value, bs []*Term, be bool) (Value, []*Term) {
	b := p.b
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return b.Not(b.Eq(bs[0], b.BV(0, 8))), bs[1:]
		}
		n := 8
		if u.Kind() == types.Float32 {
			n = 4
		} else if u.Kind() != types.Float64 {
			n = int(width(u)) / 8
		}
		var r *Term
		for i := 0; i < n; i++ {
			x := bs[i]
			if r == nil {
				r = x
			} else if be {
				r = b.Concat(r, x)
			} else {
				r = b.Concat(x, r)
			}
		}
		if u.Kind() == types.Float64 {
			return b.BitsF(r), bs[n:]
		}
		if u.Kind() == types.Float32 {
			return b.B32F(r), bs[n:]
		}
		return r, bs[n:]
	case *types.Slice:
		s := old.(Slice)
		for i := range s {
			var v Value
			v, bs = p.unflatten(u.Elem(), s[i], bs, be)
			p.storeCell(&s[i], v)
		}
		return s, bs
	case *types.Array:
		s := make(Array, len(old.(Array)))
		for i := range s {
			s[i], bs = p.unflatten(u.Elem(), old.(Array)[i], bs, be)
		}
		return s, bs
	case *types.Struct:
		s := make(Structure, u.NumFields())
		for i := range s {
			s[i], bs = p.unflatten(u.Field(i).Type(), old.(Structure)[i], bs, be)
		}
		return s, bs
	}
	unsupported("decoding %s", t)
	return nil, nil
}

func binWrite(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
	i := a[2].(Iface)
	if i.t == nil {
		return p.errorIface("binary.Write: some values are not fixed-sized in type <nil>")
	}
	v, t := i.v, i.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		v, t = p.load(v), pt.Elem()
	}
	bs, ok := p.flatten(t, v, bigEndian(a[1]))
	if !ok {
		return p.errorIface("binary.Write: some values are not fixed-sized in type " + t.String())
	}
	s := make(Slice, len(bs))
	for k := range bs {
		s[k] = bs[k]
	}
	r := p.callMethod(c, a[0].(Iface), "Write", s).(Tuple)
	return r[1]
}

func binRead(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
	i := a[2].(Iface)
	var t types.Type
	var cell *Value
	var old Value
	if i.t != nil {
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			cell, _ = i.v.(*Value)
			if cell == nil {
				unsupported("binary.Read into %T", i.v)
			}
			old = *cell
		case *types.Slice:
			t, old = i.t, i.v
		}
	}
	var bs []*Term
	ok := false
	if t != nil {
		bs, ok = p.flatten(t, old, false)
	}
	if !ok {
		return p.errorIface("binary.Read: invalid type")
	}
	io := p.prog.ImportedPackage("io")
	if io == nil {
		unsupported("package io")
	}
	p.account(p.b.BV(uint64(len(bs)), 64), 1)
	buf := make(Slice, len(bs))
	for k := range buf {
		buf[k] = p.b.BV(0, 8)
	}
	r := p.callFn(c, io.Func("ReadFull"), []Value{a[0], buf}, nil).(Tuple)
	err := r[1].(Iface)
	if err.t != nil {
		return err
	}
	for k := range buf {
		bs[k] = buf[k].(*Term)
	}
	v, _ := p.unflatten(t, old, bs, bigEndian(a[1]))
	if cell != nil {
		p.storeCell(cell, v)
	}
	return p.nilErr()
}
