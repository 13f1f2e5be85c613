package main

// Hash-consed terms with light simplification. Booleans, bit-vectors and
// floats. A float is either an IEEE-754 binary64 value (modes FU and FE) or an
// exact real (mode R); the mode is a property of the builder.

import (
	"fmt"
	"math"
	"math/big"
)

type Mode int

const (
	FU Mode = iota // IEEE values and comparisons exact, arithmetic uninterpreted
	FE             // IEEE arithmetic exact (transcendentals uninterpreted + axioms)
	R              // exact real arithmetic
)

func (m Mode) String() string { return [...]string{"FU", "FE", "R"}[m] }

type SK uint8

const (
	SBool SK = iota
	SBV
	SF
)

type Sort struct {
	K SK
	W uint8
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	// bit-vectors
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // c = hi<<8|lo
	OConcat
	OZext // to s.W
	OSext
	// floats
	OFAdd
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFMax
	OFMin
	OFSqrt
	OFLt
	OFLe
	OFEq  // IEEE == (R: =)
	OFIsNaN
	OFUF   // name(args) uninterpreted float function
	OFBits // float -> BV64
	OBitsF // BV64 -> float
	OF32Bits // single precision float -> BV32
	OB32F // BV32 -> single precision float
	OI2F   // signed BV -> float
	OU2F
	OF2I // float -> signed BV64 (truncation)
	OFFloor
)

type Term struct {
	id     int32
	op     Op
	s      Sort
	c      uint64
	name   string
	rat    *big.Rat
	a      []*Term
	rng    bool // signed interval known (bit-vectors)
	num    bool // a variable that is assumed to be no NaN wherever it is used
	lo, hi int64
	size   int32
}

type tkey struct {
	op         Op
	s          Sort
	a0, a1, a2 int32
	c          uint64
	name       string
}

type Builder struct {
	mode  Mode
	tab   map[tkey]*Term
	n     int32
	True  *Term
	False *Term
	nf    map[*Term]*RF // rational normal forms (mode R)
	atoms   map[int32]*Term
	canonOf map[*Term]*Term
	reps    map[uint64][]*Term
	invs    map[int32]Poly
	lins    map[*Term]*linCond
	invIDs  []int32
	invHash map[int32]uint64
	hasSqrt bool
	noSplit bool
	lemmas  bool
	fold    bool // R: exp and log of a constant are their rounded values
	marks   []float64 // constants that floats were compared with
	assume  func(*Term)
}

func NewBuilder(m Mode) *Builder {
	b := &Builder{mode: m, tab: map[tkey]*Term{}, nf: map[*Term]*RF{}, atoms: map[int32]*Term{}, canonOf: map[*Term]*Term{}, reps: map[uint64][]*Term{}, invs: map[int32]Poly{}, invHash: map[int32]uint64{}, lins: map[*Term]*linCond{}}
	b.True = b.mk(OConst, Sort{SBool, 0}, 1, "")
	b.False = b.mk(OConst, Sort{SBool, 0}, 0, "")
	return b
}

func (b *Builder) mk(op Op, s Sort, c uint64, name string, a ...*Term) *Term {
	k := tkey{op: op, s: s, c: c, name: name, a0: -1, a1: -1, a2: -1}
	if len(a) > 0 {
		k.a0 = a[0].id
	}
	if len(a) > 1 {
		k.a1 = a[1].id
	}
	if len(a) > 2 {
		k.a2 = a[2].id
	}
	if len(a) > 3 {
		panic("arity")
	}
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{id: b.n, op: op, s: s, c: c, name: name, a: a}
	b.n++
	sz := int64(1)
	for _, x := range a {
		sz += int64(x.size)
	}
	if sz > math.MaxInt32 {
		sz = math.MaxInt32
	}
	t.size = int32(sz)
	b.tab[k] = t
	if s.K == SBV {
		b.interval(t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.s.K == SBool && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.s.K == SBool && t.c == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func signed(c uint64, w uint8) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := 64 - uint(w)
	return int64(c<<sh) >> sh
}

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(mask(w - 1)) }

func (b *Builder) interval(t *Term) {
	set := func(lo, hi int64) { t.rng, t.lo, t.hi = true, lo, hi }
	w := t.s.W
	fit := func(lo, hi *big.Int) {
		if lo.IsInt64() && hi.IsInt64() && lo.Int64() >= minS(w) && hi.Int64() <= maxS(w) {
			set(lo.Int64(), hi.Int64())
		} else {
			set(minS(w), maxS(w))
		}
	}
	B := big.NewInt
	switch t.op {
	case OConst:
		v := signed(t.c, w)
		set(v, v)
	case OIte:
		x, y := t.a[1], t.a[2]
		set(min(x.lo, y.lo), max(x.hi, y.hi))
	case OAdd:
		x, y := t.a[0], t.a[1]
		fit(new(big.Int).Add(B(x.lo), B(y.lo)), new(big.Int).Add(B(x.hi), B(y.hi)))
	case OSub:
		x, y := t.a[0], t.a[1]
		fit(new(big.Int).Sub(B(x.lo), B(y.hi)), new(big.Int).Sub(B(x.hi), B(y.lo)))
	case OMul:
		x, y := t.a[0], t.a[1]
		var lo, hi *big.Int
		for _, p := range []int64{x.lo, x.hi} {
			for _, q := range []int64{y.lo, y.hi} {
				v := new(big.Int).Mul(B(p), B(q))
				if lo == nil || v.Cmp(lo) < 0 {
					lo = v
				}
				if hi == nil || v.Cmp(hi) > 0 {
					hi = v
				}
			}
		}
		fit(lo, hi)
	case OZext:
		x := t.a[0]
		if x.lo >= 0 {
			set(x.lo, x.hi)
		} else if x.s.W < 64 && w > x.s.W {
			set(0, int64(mask(x.s.W)))
		} else {
			set(minS(w), maxS(w))
		}
	case OSext:
		set(t.a[0].lo, t.a[0].hi)
	case OExtract:
		x := t.a[0]
		if t.c&0xff == 0 && x.lo >= minS(w) && x.hi <= maxS(w) {
			set(x.lo, x.hi)
		} else {
			set(minS(w), maxS(w))
		}
	default:
		set(minS(w), maxS(w))
	}
}

// ---- constants and variables

func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *Builder) BV(v uint64, w uint8) *Term { return b.mk(OConst, Sort{SBV, w}, v&mask(w), "") }

func (b *Builder) Float(f float64) *Term {
	if b.mode == R {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			panic(engErr{kind: "nonreal", msg: "NaN or infinity meets a symbolic real"})
		}
		return b.Rat(new(big.Rat).SetFloat64(f))
	}
	if f != f {
		f = math.NaN()
	}
	return b.mk(OConst, Sort{SF, 0}, math.Float64bits(f), "")
}

// InfR is an infinity in mode R: it may be compared and selected, nothing else.
func (b *Builder) InfR(neg bool) *Term {
	if neg {
		return b.mk(OVar, Sort{SF, 0}, 0, "-inf!")
	}
	return b.mk(OVar, Sort{SF, 0}, 0, "+inf!")
}

func (t *Term) infR() int {
	if t.op == OVar && t.s.K == SF {
		switch t.name {
		case "+inf!":
			return 1
		case "-inf!":
			return -1
		}
	}
	return 0
}

func (b *Builder) noInf(ts ...*Term) {
	if b.mode == R {
		for _, t := range ts {
			if t.infR() != 0 {
				panic(engErr{kind: "nonreal", msg: "arithmetic on an infinity"})
			}
		}
	}
}

func (b *Builder) Rat(r *big.Rat) *Term {
	t := b.mk(OConst, Sort{SF, 0}, 0, r.RatString())
	t.rat = r
	return t
}

func (b *Builder) Var(name string, s Sort) *Term { return b.mk(OVar, s, 0, name) }
func (b *Builder) VarRange(name string, w uint8, lo, hi int64) *Term {
	t := b.mk(OVar, Sort{SBV, w}, 0, name)
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) fconst() float64 { return math.Float64frombits(t.c) }

// ---- booleans

func (b *Builder) Not(x *Term) *Term {
	switch {
	case x.isTrue():
		return b.False
	case x.isFalse():
		return b.True
	case x.op == ONot:
		return x.a[0]
	}
	return b.mk(ONot, x.s, 0, "", x)
}

func (b *Builder) And(x, y *Term) *Term {
	switch {
	case x.isFalse() || y.isFalse():
		return b.False
	case x.isTrue():
		return y
	case y.isTrue():
		return x
	case x == y:
		return x
	case x == b.Not(y):
		return b.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, x.s, 0, "", x, y)
}

func (b *Builder) Or(x, y *Term) *Term { return b.Not(b.And(b.Not(x), b.Not(y))) }

func constLeaves(t *Term, n int) int {
	if n < 0 {
		return -1000
	}
	if t.isConst() {
		return n - 1
	}
	if t.op == OIte {
		n = constLeaves(t.a[1], n)
		return constLeaves(t.a[2], n)
	}
	return -1000
}

// iteConst reports whether t is an ite tree with only constant leaves.
func iteConst(t *Term) bool { return t.op == OIte && constLeaves(t, 40) >= 0 }

func (b *Builder) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return b.Ite(t.a[0], b.mapIte(t.a[1], f), b.mapIte(t.a[2], f))
	}
	return f(t)
}

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if c.op == ONot {
		return b.Ite(c.a[0], y, x)
	}
	if x.op == OIte && x.a[0] == c {
		x = x.a[1]
	}
	if y.op == OIte && y.a[0] == c {
		y = y.a[2]
	}
	if x == y {
		return x
	}
	if x.s.K == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	return b.mk(OIte, x.s, 0, "", c, x, y)
}

// Eq is identity of values (for floats: same value, all NaNs identified,
// signed zeros distinguished in FU/FE).
func (b *Builder) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.isConst() && y.isConst() {
		if x.s.K == SF && b.mode == R {
			return b.Bool(x.rat.Cmp(y.rat) == 0)
		}
		return b.Bool(x.c == y.c)
	}
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	if x.s.K == SBool {
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.s.K == SBV && y.isConst() {
		v := signed(y.c, y.s.W)
		if v < x.lo || v > x.hi {
			return b.False
		}
	}
	if x.s.K == SBV && y.isConst() {
		switch x.op {
		case OZext, OSext:
			in := x.a[0]
			lowm := y.c & mask(in.s.W)
			back := b.BV(lowm, in.s.W)
			var ext *Term
			if x.op == OZext {
				ext = b.Zext(back, x.s.W)
			} else {
				ext = b.Sext(back, x.s.W)
			}
			if ext != y {
				return b.False
			}
			return b.Eq(in, back)
		case OConcat:
			lw := x.a[1].s.W
			return b.And(b.Eq(x.a[0], b.BV(y.c>>lw, x.a[0].s.W)), b.Eq(x.a[1], b.BV(y.c&mask(lw), lw)))
		}
	}
	if y.isConst() && iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.Eq(l, y) })
	}
	if x.op == OConcat && y.op == OConcat && x.a[0].s.W == y.a[0].s.W {
		return b.And(b.Eq(x.a[0], y.a[0]), b.Eq(x.a[1], y.a[1]))
	}
	if x.s.K == SF && b.mode == R {
		if i, j := x.infR(), y.infR(); i != 0 || j != 0 {
			return b.Bool(i == j)
		}
		return b.eqR(x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, Sort{SBool, 0}, 0, "", x, y)
}

// ---- bit-vectors

func (b *Builder) bin(op Op, x, y *Term) *Term {
	w := x.s.W
	if x.isConst() && y.isConst() {
		if r, ok := foldBV(op, x.c, y.c, w); ok {
			return b.BV(r, w)
		}
	}
	zero := func(t *Term) bool { return t.isConst() && t.c == 0 }
	one := func(t *Term) bool { return t.isConst() && t.c == 1 }
	switch op {
	case OAdd:
		if zero(x) {
			return y
		}
		if zero(y) {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
		// (x + k1) + k2
		if y.isConst() && x.op == OAdd && x.a[1].isConst() {
			return b.bin(OAdd, x.a[0], b.BV(x.a[1].c+y.c, w))
		}
	case OSub:
		if zero(y) {
			return x
		}
		if x == y {
			return b.BV(0, w)
		}
		if y.isConst() {
			return b.bin(OAdd, x, b.BV(-y.c, w))
		}
	case OMul:
		if zero(x) || zero(y) {
			return b.BV(0, w)
		}
		if one(x) {
			return y
		}
		if one(y) {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
	case OUDiv, OSDiv:
		if one(y) {
			return x
		}
	case OBAnd:
		if zero(x) || zero(y) {
			return b.BV(0, w)
		}
		if x == y {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == mask(w) {
			return x
		}
	case OBOr:
		if zero(x) {
			return y
		}
		if zero(y) || x == y {
			return x
		}
		if t := b.orConcat(x, y); t != nil {
			return t
		}
		if t := b.orConcat(y, x); t != nil {
			return t
		}
	case OBXor:
		if zero(x) {
			return y
		}
		if zero(y) {
			return x
		}
		if x == y {
			return b.BV(0, w)
		}
	case OShl, OLshr, OAshr:
		if zero(y) {
			return x
		}
		if y.isConst() {
			n := y.c
			if n >= uint64(w) {
				if op == OAshr {
					n = uint64(w) - 1
				} else {
					return b.BV(0, w)
				}
			}
			k := uint8(n)
			switch op {
			case OShl:
				return b.Concat(b.Extract(x, w-1-k, 0), b.BV(0, k))
			case OLshr:
				return b.Zext(b.Extract(x, w-1, k), w)
			case OAshr:
				return b.Sext(b.Extract(x, w-1, k), w)
			}
		}
	}
	if (op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor) && !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(op, x.s, 0, "", x, y)
}

// parts flattens a term into its concatenated parts, most significant first.
func (b *Builder) parts(t *Term) []*Term {
	switch t.op {
	case OConcat:
		return append(b.parts(t.a[0]), b.parts(t.a[1])...)
	case OZext:
		return append([]*Term{b.BV(0, t.s.W-t.a[0].s.W)}, b.parts(t.a[0])...)
	}
	return []*Term{t}
}

// orConcat rewrites x|y when the non-zero parts do not overlap.
func (b *Builder) orConcat(x, y *Term) *Term {
	px, py := b.parts(x), b.parts(y)
	if len(px) == 1 && len(py) == 1 {
		return nil
	}
	var out *Term
	push := func(t *Term) {
		if out == nil {
			out = t
		} else {
			out = b.Concat(out, t)
		}
	}
	i, j := 0, 0
	for i < len(px) && j < len(py) {
		p, q := px[i], py[j]
		w := min(p.s.W, q.s.W)
		ph, qh := b.Extract(p, p.s.W-1, p.s.W-w), b.Extract(q, q.s.W-1, q.s.W-w)
		switch {
		case ph.isConst() && ph.c == 0:
			push(qh)
		case qh.isConst() && qh.c == 0:
			push(ph)
		default:
			return nil
		}
		if p.s.W > w {
			px[i] = b.Extract(p, p.s.W-1-w, 0)
		} else {
			i++
		}
		if q.s.W > w {
			py[j] = b.Extract(q, q.s.W-1-w, 0)
		} else {
			j++
		}
	}
	return out
}

func foldBV(op Op, x, y uint64, w uint8) (uint64, bool) {
	sx, sy := signed(x, w), signed(y, w)
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OSDiv:
		if sy == 0 {
			return 0, false
		}
		if sy == -1 {
			return uint64(-sx), true
		}
		return uint64(sx / sy), true
	case OSRem:
		if sy == 0 {
			return 0, false
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx % sy), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx >> y), true
	}
	return 0, false
}

func (b *Builder) BNot(x *Term) *Term {
	if x.isConst() {
		return b.BV(^x.c, x.s.W)
	}
	return b.mk(OBNot, x.s, 0, "", x)
}
func (b *Builder) Neg(x *Term) *Term {
	if x.isConst() {
		return b.BV(-x.c, x.s.W)
	}
	return b.mk(ONeg, x.s, 0, "", x)
}

func (b *Builder) cmp(op Op, x, y *Term) *Term {
	B := Sort{SBool, 0}
	if x == y {
		return b.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OSlt:
		if x.hi < y.lo {
			return b.True
		}
		if x.lo >= y.hi {
			return b.False
		}
	case OSle:
		if x.hi <= y.lo {
			return b.True
		}
		if x.lo > y.hi {
			return b.False
		}
	case OUlt, OUle:
		if x.isConst() && y.isConst() {
			if op == OUlt {
				return b.Bool(x.c < y.c)
			}
			return b.Bool(x.c <= y.c)
		}
		if x.lo >= 0 && y.lo >= 0 {
			if op == OUlt {
				return b.cmp(OSlt, x, y)
			}
			return b.cmp(OSle, x, y)
		}
	}
	if y.isConst() && iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.cmp(op, l, y) })
	}
	if x.isConst() && iteConst(y) {
		return b.mapIte(y, func(l *Term) *Term { return b.cmp(op, x, l) })
	}
	return b.mk(op, B, 0, "", x, y)
}

func (b *Builder) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.s.W {
		return x
	}
	if x.isConst() {
		return b.BV(x.c>>lo, w)
	}
	switch x.op {
	case OExtract:
		l0 := uint8(x.c & 0xff)
		return b.Extract(x.a[0], hi+l0, lo+l0)
	case OConcat:
		lw := x.a[1].s.W
		if hi < lw {
			return b.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return b.Extract(x.a[0], hi-lw, lo-lw)
		}
		return b.Concat(b.Extract(x.a[0], hi-lw, 0), b.Extract(x.a[1], lw-1, lo))
	case OZext, OSext:
		in := x.a[0]
		if hi < in.s.W {
			return b.Extract(in, hi, lo)
		}
		if x.op == OZext {
			if lo >= in.s.W {
				return b.BV(0, w)
			}
			return b.Zext(b.Extract(in, in.s.W-1, lo), w)
		}
		if lo == 0 {
			return b.Sext(in, w)
		}
	case OBAnd, OBOr, OBXor:
		return b.bin(x.op, b.Extract(x.a[0], hi, lo), b.Extract(x.a[1], hi, lo))
	case OIte:
		if iteConst(x) {
			return b.mapIte(x, func(l *Term) *Term { return b.Extract(l, hi, lo) })
		}
	}
	return b.mk(OExtract, Sort{SBV, w}, uint64(hi)<<8|uint64(lo), "", x)
}

func (b *Builder) Concat(x, y *Term) *Term {
	w := x.s.W + y.s.W
	if x.isConst() && y.isConst() {
		return b.BV(x.c<<y.s.W|y.c, w)
	}
	if x.op == OExtract && y.op == OExtract && x.a[0] == y.a[0] && x.c&0xff == (y.c>>8)+1 {
		return b.Extract(x.a[0], uint8(x.c>>8), uint8(y.c&0xff))
	}
	// re-associate to the right so that adjacent extracts meet
	if x.op == OConcat {
		return b.Concat(x.a[0], b.Concat(x.a[1], y))
	}
	if y.op == OConcat {
		h := y.a[0]
		if x.op == OExtract && h.op == OExtract && x.a[0] == h.a[0] && x.c&0xff == (h.c>>8)+1 {
			return b.Concat(b.Extract(x.a[0], uint8(x.c>>8), uint8(h.c&0xff)), y.a[1])
		}
		if x.isConst() && h.isConst() {
			return b.Concat(b.BV(x.c<<h.s.W|h.c, x.s.W+h.s.W), y.a[1])
		}
	}
	if x.isConst() && x.c == 0 {
		return b.Zext(y, w)
	}
	return b.mk(OConcat, Sort{SBV, w}, 0, "", x, y)
}

func (b *Builder) Zext(x *Term, w uint8) *Term {
	if w == x.s.W {
		return x
	}
	if x.isConst() {
		return b.BV(x.c, w)
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	if iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.Zext(l, w) })
	}
	return b.mk(OZext, Sort{SBV, w}, 0, "", x)
}

func (b *Builder) Sext(x *Term, w uint8) *Term {
	if w == x.s.W {
		return x
	}
	if x.isConst() {
		return b.BV(uint64(signed(x.c, x.s.W)), w)
	}
	if x.op == OSext {
		return b.Sext(x.a[0], w)
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	if iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.Sext(l, w) })
	}
	if x.lo >= 0 {
		return b.Zext(x, w)
	}
	return b.mk(OSext, Sort{SBV, w}, 0, "", x)
}

// ---- floats

var fS = Sort{SF, 0}
var bS = Sort{SBool, 0}

func (b *Builder) isF(t *Term, f float64) bool {
	if !t.isConst() {
		return false
	}
	if b.mode == R {
		return t.rat.Cmp(new(big.Rat).SetFloat64(f)) == 0
	}
	return t.c == math.Float64bits(f)
}

func (b *Builder) foldF(op Op, x, y *Term) *Term {
	if b.mode == R {
		r := new(big.Rat)
		switch op {
		case OFAdd:
			return b.Rat(r.Add(x.rat, y.rat))
		case OFMul:
			return b.Rat(r.Mul(x.rat, y.rat))
		case OFDiv:
			if y.rat.Sign() == 0 {
				panic(engErr{kind: "nonreal", msg: "division by zero"})
			}
			return b.Rat(r.Quo(x.rat, y.rat))
		}
		panic("foldF")
	}
	p, q := x.fconst(), y.fconst()
	switch op {
	case OFAdd:
		return b.Float(p + q)
	case OFMul:
		return b.Float(p * q)
	case OFDiv:
		return b.Float(p / q)
	}
	panic("foldF")
}

// isNaN tells whether a term is the constant NaN.
func (b *Builder) isNaN(x *Term) bool {
	return b.mode != R && x.isConst() && x.fconst() != x.fconst()
}

func (b *Builder) FAdd(x, y *Term) *Term {
	b.noInf(x, y)
	if x.isConst() && y.isConst() {
		return b.foldF(OFAdd, x, y)
	}
	if b.isNaN(x) || b.isNaN(y) {
		return b.Float(math.NaN())
	}
	if b.mode == R {
		if b.isF(x, 0) {
			return y
		}
		if b.isF(y, 0) {
			return x
		}
	} else {
		nz := math.Copysign(0, -1)
		if b.isF(x, nz) {
			return y
		}
		if b.isF(y, nz) {
			return x
		}
		if x == y {
			return b.FMul(x, b.Float(2))
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OFAdd, fS, 0, "", x, y)
}

// FSub: IEEE a-b is exactly a+(-b).
func (b *Builder) FSub(x, y *Term) *Term { return b.FAdd(x, b.FNeg(y)) }

func (b *Builder) FNeg(x *Term) *Term {
	if i := x.infR(); i != 0 {
		return b.InfR(i > 0)
	}
	if x.isConst() {
		if b.mode == R {
			return b.Rat(new(big.Rat).Neg(x.rat))
		}
		return b.Float(-x.fconst())
	}
	if x.op == OFNeg {
		return x.a[0]
	}
	if x.op == OFMul && x.a[1].isConst() {
		return b.FMul(x.a[0], b.FNeg(x.a[1]))
	}
	return b.mk(OFNeg, fS, 0, "", x)
}

func (b *Builder) FMul(x, y *Term) *Term {
	b.noInf(x, y)
	if x.isConst() && y.isConst() {
		return b.foldF(OFMul, x, y)
	}
	if b.isNaN(x) || b.isNaN(y) {
		return b.Float(math.NaN())
	}
	if x.isConst() {
		x, y = y, x
	}
	if b.isF(y, 1) {
		return x
	}
	if b.isF(y, -1) {
		return b.FNeg(x)
	}
	if b.mode == R && b.isF(y, 0) {
		return y
	}
	// sign handling: (-a)*b == -(a*b) exactly
	if x.op == OFNeg && !y.isConst() {
		return b.FNeg(b.FMul(x.a[0], y))
	}
	if y.op == OFNeg {
		return b.FNeg(b.FMul(x, y.a[0]))
	}
	if y.isConst() && x.op == OFNeg {
		return b.FMul(x.a[0], b.FNeg(y))
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OFMul, fS, 0, "", x, y)
}

func powerOfTwo(f float64) bool {
	if f == 0 || math.IsInf(f, 0) || f != f {
		return false
	}
	m, e := math.Frexp(math.Abs(f))
	return m == 0.5 && e > -1000 && e < 1000
}

func (b *Builder) FDiv(x, y *Term) *Term {
	b.noInf(x, y)
	if x.isConst() && y.isConst() {
		return b.foldF(OFDiv, x, y)
	}
	if b.isNaN(x) || b.isNaN(y) {
		return b.Float(math.NaN())
	}
	if y.isConst() {
		if b.mode == R {
			if y.rat.Sign() == 0 {
				panic(engErr{kind: "nonreal", msg: "division by zero"})
			}
			return b.FMul(x, b.Rat(new(big.Rat).Inv(y.rat)))
		}
		if powerOfTwo(y.fconst()) {
			return b.FMul(x, b.Float(1/y.fconst()))
		}
	}
	if x.op == OFNeg {
		return b.FNeg(b.FDiv(x.a[0], y))
	}
	if y.op == OFNeg {
		return b.FNeg(b.FDiv(x, y.a[0]))
	}
	if b.mode == R && b.assume != nil && !y.isConst() {
		b.assume(b.Not(b.Eq(y, b.Rat(new(big.Rat)))))
	}
	return b.mk(OFDiv, fS, 0, "", x, y)
}

func (b *Builder) FAbs(x *Term) *Term {
	if x.isConst() {
		if b.mode == R {
			return b.Rat(new(big.Rat).Abs(x.rat))
		}
		return b.Float(math.Abs(x.fconst()))
	}
	if x.op == OFNeg || x.op == OFAbs {
		return b.FAbs(x.a[0])
	}
	if b.mode == R {
		return b.Ite(b.FLt(x, b.Float(0)), b.FNeg(x), x)
	}
	return b.mk(OFAbs, fS, 0, "", x)
}

func (b *Builder) FMinMax(op Op, x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isConst() && y.isConst() {
		if b.mode == R {
			if (x.rat.Cmp(y.rat) >= 0) == (op == OFMax) {
				return x
			}
			return y
		}
		if op == OFMax {
			return b.Float(math.Max(x.fconst(), y.fconst()))
		}
		return b.Float(math.Min(x.fconst(), y.fconst()))
	}
	if b.mode == R {
		if op == OFMax {
			return b.Ite(b.FLt(y, x), x, y)
		}
		return b.Ite(b.FLt(x, y), x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	b.mark(x)
	b.mark(y)
	return b.mk(op, fS, 0, "", x, y)
}

func (b *Builder) FLt(x, y *Term) *Term { return b.fcmp(OFLt, x, y) }
func (b *Builder) FLe(x, y *Term) *Term { return b.fcmp(OFLe, x, y) }
func (b *Builder) FEq(x, y *Term) *Term {
	if b.mode == R {
		return b.Eq(x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.fcmp(OFEq, x, y)
}

func (b *Builder) fcmp(op Op, x, y *Term) *Term {
	if b.mode == R {
		if i, j := x.infR(), y.infR(); i != 0 || j != 0 {
			switch op {
			case OFLt:
				return b.Bool(i < j)
			case OFLe:
				return b.Bool(i <= j)
			}
			return b.Bool(i == j)
		}
	}
	if x.isConst() && y.isConst() {
		if b.mode == R {
			c := x.rat.Cmp(y.rat)
			switch op {
			case OFLt:
				return b.Bool(c < 0)
			case OFLe:
				return b.Bool(c <= 0)
			}
			return b.Bool(c == 0)
		}
		p, q := x.fconst(), y.fconst()
		switch op {
		case OFLt:
			return b.Bool(p < q)
		case OFLe:
			return b.Bool(p <= q)
		}
		return b.Bool(p == q)
	}
	if x == y {
		if op == OFLt {
			return b.False
		}
		if b.mode == R {
			return b.True
		}
		return b.Not(b.FIsNaN(x))
	}
	if y.isConst() && iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.fcmp(op, l, y) })
	}
	if x.isConst() && iteConst(y) {
		return b.mapIte(y, func(l *Term) *Term { return b.fcmp(op, x, l) })
	}
	if b.mode != R && ((x.isConst() && x.fconst() != x.fconst()) || (y.isConst() && y.fconst() != y.fconst())) {
		return b.False
	}
	if b.mode == R && op == OFLe {
		return b.Not(b.fcmp(OFLt, y, x))
	}
	if b.mode == R {
		return b.ltR(x, y)
	}
	b.mark(x)
	b.mark(y)
	return b.mk(op, bS, 0, "", x, y)
}

func (b *Builder) FIsNaN(x *Term) *Term {
	if b.mode == R {
		return b.False
	}
	if x.isConst() {
		return b.Bool(x.fconst() != x.fconst())
	}
	if x.num {
		return b.False
	}
	switch x.op {
	case OFNeg, OFAbs:
		return b.FIsNaN(x.a[0])
	case OI2F, OU2F:
		return b.False
	}
	return b.mk(OFIsNaN, bS, 0, "", x)
}

func (b *Builder) FIsInf(x *Term) *Term {
	if b.mode == R {
		return b.Bool(x.infR() != 0)
	}
	return b.Eq(b.FAbs(x), b.Float(math.Inf(1)))
}

func (b *Builder) FIsFinite(x *Term) *Term {
	if b.mode == R {
		return b.Bool(x.infR() == 0)
	}
	return b.FLe(b.FAbs(x), b.Float(math.MaxFloat64))
}

func (b *Builder) FSqrt(x *Term) *Term {
	b.noInf(x)
	if x.isConst() {
		if b.mode == R {
			if r, ok := ratSqrt(x.rat); ok {
				return b.Rat(r)
			}
			if f, _ := x.rat.Float64(); b.fold && f >= 0 {
				return b.Float(math.Sqrt(f))
			}
		} else {
			return b.Float(math.Sqrt(x.fconst()))
		}
	}
	if b.mode == R {
		x = b.Canon(x)
		if b.assume != nil && !x.isConst() {
			b.assume(b.FLe(b.Rat(new(big.Rat)), x))
		}
	}
	b.hasSqrt = true
	return b.mk(OFSqrt, fS, 0, "", x)
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n, d := new(big.Int).Sqrt(r.Num()), new(big.Int).Sqrt(r.Denom())
	q := new(big.Rat).SetFrac(n, d)
	if new(big.Rat).Mul(q, q).Cmp(r) == 0 {
		return q, true
	}
	return nil, false
}

// UF builds an uninterpreted float function application (exp, log, pow, ...).
func (b *Builder) UF(name string, a ...*Term) *Term {
	b.noInf(a...)
	if b.mode == R {
		for i := range a {
			a[i] = b.Canon(a[i])
		}
		if name == "pow" {
			if t := b.powR(a[0], a[1]); t != nil {
				return t
			}
		}
		if b.fold && len(a) == 1 && a[0].isConst() && (name == "exp" || name == "log") {
			// a value within half an ulp: candidates are replayed natively anyway,
			// and claims of equality are up to rounding
			x, _ := a[0].rat.Float64()
			y := math.Exp(x)
			if name == "log" {
				y = math.Log(x)
			}
			if y == y && !math.IsInf(y, 0) {
				return b.Float(y)
			}
		}
		if name == "exp" && b.isF(a[0], 0) {
			return b.Float(1)
		}
		if name == "log" && b.isF(a[0], 1) {
			return b.Float(0)
		}
		if name == "log" && b.assume != nil && !a[0].isConst() {
			b.assume(b.FLt(b.Rat(new(big.Rat)), a[0]))
		}
	}
	return b.mk(OFUF, fS, 0, name, a...)
}

// powR expands powers with small integer exponents.
func (b *Builder) powR(x, e *Term) *Term {
	if !e.isConst() || !e.rat.IsInt() || !e.rat.Num().IsInt64() {
		if e.isConst() && e.rat.Cmp(big.NewRat(1, 2)) == 0 {
			return b.FSqrt(x)
		}
		return nil
	}
	k := e.rat.Num().Int64()
	if lim := int64(64); !x.isConst() && (k > lim || k < -lim) || k > 400 || k < -400 {
		return nil
	}
	r := b.Float(1)
	n := k
	if n < 0 {
		n = -n
	}
	for i := int64(0); i < n; i++ {
		r = b.FMul(r, x)
	}
	if k < 0 {
		return b.FDiv(b.Float(1), r)
	}
	return r
}

func (b *Builder) FBits(x *Term) *Term {
	if x.op == OBitsF {
		return x.a[0]
	}
	if x.isConst() && b.mode != R {
		return b.BV(x.c, 64)
	}
	if b.mode == R && x.isConst() {
		f, _ := x.rat.Float64()
		return b.BV(math.Float64bits(f), 64)
	}
	return b.mk(OFBits, Sort{SBV, 64}, 0, "", x)
}

// F32Bits are the bits of a number that is single precision already.
func (b *Builder) F32Bits(x *Term) *Term {
	if x.op == OB32F {
		return x.a[0]
	}
	if x.isConst() {
		f := float64(0)
		if b.mode == R {
			f, _ = x.rat.Float64()
		} else {
			f = x.fconst()
		}
		return b.BV(uint64(math.Float32bits(float32(f))), 32)
	}
	return b.mk(OF32Bits, Sort{SBV, 32}, 0, "", x)
}

func (b *Builder) B32F(x *Term) *Term {
	if x.op == OF32Bits {
		return x.a[0]
	}
	if x.isConst() {
		f := float64(math.Float32frombits(uint32(x.c)))
		if b.mode != R || !(math.IsNaN(f) || math.IsInf(f, 0)) {
			return b.Float(f)
		}
	}
	return b.mk(OB32F, fS, 0, "", x)
}

func (b *Builder) BitsF(x *Term) *Term {
	if x.op == OFBits {
		return x.a[0]
	}
	if x.isConst() {
		f := math.Float64frombits(x.c)
		if b.mode != R || !(math.IsNaN(f) || math.IsInf(f, 0)) {
			return b.Float(f)
		}
	}
	return b.mk(OBitsF, fS, 0, "", x)
}

// noWrap tells whether +, - or * of two terms cannot leave the signed range.
func (b *Builder) noWrap(op Op, p, q *Term) bool {
	w := p.s.W
	r, ok := new(big.Int), true
	for _, l := range []int64{p.lo, p.hi} {
		for _, h := range []int64{q.lo, q.hi} {
			switch op {
			case OAdd:
				r.Add(big.NewInt(l), big.NewInt(h))
			case OMul:
				r.Mul(big.NewInt(l), big.NewInt(h))
			case OSub:
				r.Sub(big.NewInt(l), big.NewInt(h))
			}
			if !r.IsInt64() || r.Int64() > maxS(w) || r.Int64() < minS(w) {
				ok = false
			}
		}
	}
	return ok
}

func (b *Builder) I2F(x *Term) *Term {
	if x.isConst() {
		if b.mode == R {
			return b.Rat(new(big.Rat).SetInt64(signed(x.c, x.s.W)))
		}
		return b.Float(float64(signed(x.c, x.s.W)))
	}
	if iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.I2F(l) })
	}
	if b.mode == R {
		// exact on every integer; push through +, ite while no wrap-around is possible
		exact := func(op Op) bool { return b.noWrap(op, x.a[0], x.a[1]) }
		switch x.op {
		case OAdd:
			if exact(OAdd) {
				return b.FAdd(b.I2F(x.a[0]), b.I2F(x.a[1]))
			}
		case OSub:
			if exact(OSub) {
				return b.FSub(b.I2F(x.a[0]), b.I2F(x.a[1]))
			}
		case OMul:
			if exact(OMul) {
				return b.FMul(b.I2F(x.a[0]), b.I2F(x.a[1]))
			}
		case OIte:
			return b.Ite(x.a[0], b.I2F(x.a[1]), b.I2F(x.a[2]))
		}
	}
	if b.mode != R && x.lo > -(1<<53) && x.hi < 1<<53 && x.hi-x.lo <= 48 {
		// one case for every value
		r := b.Float(float64(x.hi))
		for k := x.hi - 1; k >= x.lo; k-- {
			r = b.Ite(b.Eq(x, b.BV(uint64(k), x.s.W)), b.Float(float64(k)), r)
		}
		return r
	}
	return b.mk(OI2F, fS, 0, "", x)
}

func (b *Builder) U2F(x *Term) *Term {
	if x.isConst() {
		if b.mode == R {
			return b.Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(x.c)))
		}
		return b.Float(float64(x.c))
	}
	if x.lo >= 0 {
		return b.I2F(x)
	}
	return b.mk(OU2F, fS, 0, "", x)
}

// F2I truncates toward zero to a signed 64-bit integer (amd64 semantics out of range).
func (b *Builder) F2I(x *Term) *Term {
	if x.isConst() {
		if b.mode == R {
			q := new(big.Int).Quo(x.rat.Num(), x.rat.Denom())
			if q.IsInt64() {
				return b.BV(uint64(q.Int64()), 64)
			}
			return b.BV(1<<63, 64)
		}
		return b.BV(uint64(f2i(x.fconst())), 64)
	}
	if iteConst(x) {
		return b.mapIte(x, func(l *Term) *Term { return b.F2I(l) })
	}
	if x.op == OI2F {
		in := x.a[0]
		if b.mode == R || (in.lo >= -(1<<53) && in.hi <= 1<<53) {
			return b.Sext(in, 64)
		}
	}
	if x.op == OIte && b.mode == R && constLeaves(x, 0) < -500 {
		return b.Ite(x.a[0], b.F2I(x.a[1]), b.F2I(x.a[2]))
	}
	return b.mk(OF2I, Sort{SBV, 64}, 0, "", x)
}

func f2i(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

func (b *Builder) FFloor(x *Term) *Term {
	if x.isConst() {
		if b.mode == R {
			q := new(big.Int).Div(x.rat.Num(), x.rat.Denom())
			return b.Rat(new(big.Rat).SetInt(q))
		}
		return b.Float(math.Floor(x.fconst()))
	}
	return b.mk(OFFloor, fS, 0, "", x)
}

// ---- printing

func (t *Term) String() string {
	switch t.op {
	case OConst:
		switch t.s.K {
		case SBool:
			return fmt.Sprint(t.c == 1)
		case SBV:
			return fmt.Sprintf("%d:%d", signed(t.c, t.s.W), t.s.W)
		}
		if t.rat != nil {
			return t.rat.RatString()
		}
		return fmt.Sprint(t.fconst())
	case OVar:
		return t.name
	}
	s := fmt.Sprintf("(%d%s", t.op, t.name)
	if t.size > 200 {
		return s + fmt.Sprintf(" ..%d)", t.size)
	}
	for _, x := range t.a {
		s += " " + x.String()
	}
	return s + ")"
}


func containsF(l []float64, x float64) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// mark notes a constant that floats are compared with.
func (b *Builder) mark(c *Term) {
	if b.lemmas && b.mode != R && len(b.marks) < 12 && c.isConst() && c.fconst() > 0 && c.fconst() < 1e6 && !containsF(b.marks, c.fconst()) {
		b.marks = append(b.marks, c.fconst())
	}
}
