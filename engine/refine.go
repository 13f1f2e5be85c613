package main

// Counterexamples through exp and log: the solver sees these as uninterpreted
// functions with a few laws, so its models may give them impossible values. The
// search below adds true facts about the curve at the points where a model
// strayed from it (tangents, secants, monotonicity) until a model is close
// enough to be replayed. The facts only guide the search for counterexamples;
// no claim is closed with them.

import (
	"math"
	"math/big"
	"sort"
	"time"
)

// curves lists the exp and log terms that the path condition and ts depend on.
func (p *Path) curves(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			rec(x)
		}
		if t.op == OFUF && (t.name == "exp" || t.name == "log") {
			out = append(out, t)
		}
	}
	for _, t := range append(append([]*Term{}, p.pc...), ts...) {
		rec(t)
	}
	return out
}

func ratF(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// curveFacts are facts about t = exp(a) (or a = log(x), that is x = exp(t)) at
// the points gs of the argument of exp.
func (p *Path) curveFacts(t *Term, gs []float64) []*Term {
	b := p.b
	x, y := t.a[0], t // y = exp(x)
	if t.name == "log" {
		x, y = t, t.a[0]
	}
	lt := func(x, y *Term) *Term { return b.mk(OFLt, bS, 0, "", x, y) }
	le := func(x, y *Term) *Term { return b.Not(lt(y, x)) }
	C := func(f float64) *Term { return b.Rat(ratF(f)) }
	lin := func(k, c float64) *Term { // k*x + c
		return b.mk(OFAdd, fS, 0, "", b.mk(OFMul, fS, 0, "", C(k), x), C(c))
	}
	var pos *Term
	if t.name == "log" {
		pos = lt(b.Rat(new(big.Rat)), y)
	}
	var out []*Term
	add := func(c *Term) {
		if pos != nil {
			c = b.Or(b.Not(pos), c)
		}
		out = append(out, c)
	}
	const up, dn = 1 + 1e-12, 1 - 1e-12
	sort.Float64s(gs)
	for i, g := range gs {
		v := math.Exp(g)
		add(le(lin(v*dn, v*(1-g)-math.Abs(v*g)*1e-12-v*1e-12), y))
		add(b.Or(lt(C(g), x), le(y, C(v*up))))
		if i+1 < len(gs) && gs[i+1] > g {
			h := gs[i+1]
			k := (math.Exp(h) - v) / (h - g)
			in := b.And(le(C(g), x), le(x, C(h)))
			add(b.Or(b.Not(in), le(y, lin(k, v*up-k*g+math.Abs(k*g)*1e-12))))
		}
	}
	return out
}

// refine looks for models of the path condition and neg on the true curves.
func (p *Path) refine(label string, neg, ufs, want []*Term) int {
	got := 0
	b := p.b
	end := time.Now().Add(20 * time.Second)
	all := append([]*Term{}, want...)
	for _, t := range ufs {
		all = append(all, t, t.a[0])
	}
	for _, lim := range []float64{4, 16, 60} {
		pts := map[*Term][]float64{}
		for _, t := range ufs {
			pts[t] = []float64{-30, -10, -4, -1, 0, 1, 4, 10, 30}
		}
		for round := 0; round < 8 && time.Now().Before(end); round++ {
			ex := append([]*Term{}, neg...)
			for _, t := range want {
				if t.s.K == SF {
					ex = append(ex, b.FLe(t, b.Float(lim)), b.FLe(b.FNeg(b.Float(lim)), t))
				}
			}
			for _, t := range ufs {
				ex = append(ex, p.curveFacts(t, pts[t])...)
			}
			r, m := p.s.Check(p.pc, ex, all)
			if r != Sat {
				break
			}
			off := false
			for _, t := range ufs {
				x, y := m[t.a[0]], m[t]
				if t.name == "log" {
					x, y = y, x
				}
				xr, ok1 := x.(*big.Rat)
				yr, ok2 := y.(*big.Rat)
				if !ok1 || !ok2 {
					continue
				}
				xf, _ := xr.Float64()
				yf, _ := yr.Float64()
				v := math.Exp(xf)
				if math.Abs(yf-v) > 1e-6*v && math.Abs(xf) < 600 {
					off = true
					pts[t] = append(pts[t], xf)
				}
			}
			if !off || round == 7 {
				p.emit(label, m)
				got++
				break
			}
		}
	}
	return got
}
