package main

// Conditions that the path condition decides without a solver call: those it
// contains literally, and (mode R) bounds on the same polynomial.

import (
	"math/big"
	"strings"
)

type linCond struct {
	key  string   // the non-constant part, normalised to leading coefficient 1
	k    *big.Rat // 0 < P  iff  Q > k (flip: Q < k)
	flip bool
}

type bounds struct {
	lo, hi   *big.Rat
	loS, hiS bool
}

type facts struct {
	pc   []*Term
	gen  int
	set  map[*Term]bool
	bnd  map[string]*bounds
}

func (b *Builder) linOf(t *Term) *linCond {
	if l, ok := b.lins[t]; ok {
		return l
	}
	var l *linCond
	if t.op == OFLt && t.a[0].isConst() && t.a[0].rat != nil && t.a[0].rat.Sign() == 0 {
		if r := b.RFof(t.a[1]); !r.big {
			l = b.linForm(r.n)
		}
	}
	b.lins[t] = l
	return l
}

// linForm is linPoly for normal forms that may have denominators: with D their
// product, 0 < (Q + kD)/D iff Q/D > -k, where Q has no leading monomial of D.
func (b *Builder) linForm(n Poly) (l *linCond) {
	if len(b.maxInv(n)) == 0 {
		return linPoly(n)
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(polyBig); !ok {
				panic(e)
			}
			l = linPoly(n)
		}
	}()
	P, D := b.clear(n)
	if len(P) > 200 || len(D) > 60 {
		return linPoly(n)
	}
	dk := D.keys()
	lead := dk[len(dk)-1]
	k := new(big.Rat)
	if c, ok := P[lead]; ok {
		k.Quo(c, D[lead])
	}
	Q := pAdd(P, pScale(D, "", new(big.Rat).Neg(k)))
	if len(Q) == 0 {
		return nil
	}
	qk := Q.keys()
	sc := new(big.Rat).Inv(Q[qk[len(qk)-1]])
	var sb strings.Builder
	for _, m := range qk {
		sb.WriteString(m)
		sb.WriteByte('|')
		sb.WriteString(new(big.Rat).Mul(Q[m], sc).RatString())
		sb.WriteByte(';')
	}
	sb.WriteByte('/')
	for _, m := range dk {
		sb.WriteString(m)
		sb.WriteByte('|')
		sb.WriteString(D[m].RatString())
		sb.WriteByte(';')
	}
	return &linCond{key: sb.String(), k: new(big.Rat).Mul(new(big.Rat).Neg(k), sc), flip: sc.Sign() < 0}
}

func linPoly(n Poly) *linCond {
	if len(n) == 0 || len(n) > 40 {
		return nil
	}
	ks := n.keys()
	if ks[len(ks)-1] == "" {
		return nil
	}
	lead := n[ks[len(ks)-1]]
	sc := new(big.Rat).Inv(lead)
	var sb strings.Builder
	for _, k := range ks {
		if k != "" {
			sb.WriteString(k)
			sb.WriteByte('|')
			sb.WriteString(new(big.Rat).Mul(n[k], sc).RatString())
			sb.WriteByte(';')
		}
	}
	c := new(big.Rat)
	if x, ok := n[""]; ok {
		c.Mul(x, sc)
	}
	// lead>0: c+Q > 0 iff Q > -c ; lead<0: -(c+Q) > 0 iff Q < -c
	return &linCond{key: sb.String(), k: c.Neg(c), flip: lead.Sign() < 0}
}

func (f *facts) add(p *Path, t *Term) {
	if t.op == OAnd {
		f.add(p, t.a[0])
		f.add(p, t.a[1])
		return
	}
	if f.set[t] {
		return
	}
	f.set[t] = true
	if p.b.mode != R {
		return
	}
	neg := false
	if t.op == ONot {
		neg, t = true, t.a[0]
	}
	l := p.b.linOf(t)
	if l == nil {
		return
	}
	bd := f.bnd[l.key]
	if bd == nil {
		bd = &bounds{}
		f.bnd[l.key] = bd
	}
	// Q > k, Q < k, Q <= k, Q >= k
	if lower := l.flip == neg; lower {
		strict := !neg
		if bd.lo == nil || bd.lo.Cmp(l.k) < 0 || bd.lo.Cmp(l.k) == 0 && strict {
			bd.lo, bd.loS = l.k, strict
		}
	} else {
		strict := !neg
		if bd.hi == nil || bd.hi.Cmp(l.k) > 0 || bd.hi.Cmp(l.k) == 0 && strict {
			bd.hi, bd.hiS = l.k, strict
		}
	}
}

// known returns a constant for c if the path condition decides it cheaply.
func (p *Path) known(c *Term) *Term {
	if c.isConst() {
		return c
	}
	f := p.facts
	if f == nil || f.gen != p.pcGen || len(f.pc) > len(p.pc) {
		f = &facts{gen: p.pcGen, set: map[*Term]bool{}, bnd: map[string]*bounds{}}
		p.facts = f
	}
	for i := len(f.pc); i < len(p.pc); i++ {
		f.add(p, p.pc[i])
		f.pc = append(f.pc, p.pc[i])
	}
	return f.eval(p, c, 0)
}

func (f *facts) eval(p *Path, c *Term, depth int) *Term {
	b := p.b
	if c.isConst() {
		return c
	}
	if f.set[c] {
		return b.True
	}
	if f.set[b.Not(c)] {
		return b.False
	}
	switch c.op {
	case ONot:
		if r := f.eval(p, c.a[0], depth+1); r.isConst() {
			return b.Not(r)
		}
	case OAnd:
		if depth < 20 {
			x, y := f.eval(p, c.a[0], depth+1), f.eval(p, c.a[1], depth+1)
			if x.isFalse() || y.isFalse() {
				return b.False
			}
			if x.isTrue() && y.isTrue() {
				return b.True
			}
		}
	case OFLt:
		if b.mode == R {
			l := b.linOf(c)
			if l == nil {
				return c
			}
			bd := f.bnd[l.key]
			if bd == nil {
				return c
			}
			if !l.flip { // Q > k
				if bd.lo != nil && (bd.lo.Cmp(l.k) > 0 || bd.lo.Cmp(l.k) == 0 && bd.loS) {
					return b.True
				}
				if bd.hi != nil && bd.hi.Cmp(l.k) <= 0 {
					return b.False
				}
			} else { // Q < k
				if bd.hi != nil && (bd.hi.Cmp(l.k) < 0 || bd.hi.Cmp(l.k) == 0 && bd.hiS) {
					return b.True
				}
				if bd.lo != nil && bd.lo.Cmp(l.k) >= 0 {
					return b.False
				}
			}
		}
	}
	return c
}
