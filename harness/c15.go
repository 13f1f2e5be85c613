package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// adam is the standard rule.
type adam struct {
	rate, decay, eps, b1, b2 float64
	t                        int
	m, s                     params
	p1, p2                   float64 // powers of the betas
}

func (o *adam) step(p, g params) {
	rate := o.rate / (1 + o.decay*float64(o.t))
	o.t++
	o.p1, o.p2 = o.p1*o.b1, o.p2*o.b2
	each(func(x []*float64) {
		p, g, m, s := x[0], x[1], x[2], x[3]
		*m = o.b1**m + (1-o.b1)**g
		*s = o.b2**s + (1-o.b2)**g**g
		mh, sh := *m/(1-o.p1), *s/(1-o.p2)
		*p += -rate * mh / (math.Sqrt(sh) + o.eps)
	}, p, g, o.m, o.s)
}

// c15 takes idle steps with concrete gradients, then free ones with any gradients.
func c15(in, out, idle, free int, symBetas bool) {
	rate, eps := vFinite("rate"), vFinite("epsilon")
	vAssume(rate > 0 && eps > 0)
	decay := float64(0)
	if vPick("use decay", 2) == 1 {
		decay = vFinite("decay")
		vAssume(decay > 0)
	}
	b1, b2 := 0.875, 0.96875
	if symBetas {
		b1, b2 = vFinite("beta1"), vFinite("beta2")
		vAssume(b1 > 0 && b1 < 1 && b2 > 0 && b2 < 1)
	}
	var o nn.Optimizer
	if vPick("by type", 2) == 1 {
		x, err := nn.NewOptimizerFromType(nn.AdamOptimizerType, map[string]float64{"learningRate": rate, "decay": decay, "epsilon": eps, "beta1": b1, "beta2": b2})
		vAssert(err == nil, "optimizer")
		o = x
	} else {
		x, err := nn.NewAdamOptimizer(rate, decay, eps, b1, b2)
		vAssert(err == nil, "optimizer")
		o = &x
	}
	p := symParams(in, out)
	q := p.clone()
	ref := &adam{rate: rate, decay: decay, eps: eps, b1: b1, b2: b2, p1: 1, p2: 1,
		m: params{zeros(in, out), zeros(1, out)}, s: params{zeros(in, out), zeros(1, out)}}
	for k := 0; k < idle+free; k++ {
		g := params{zeros(in, out), zeros(1, out)}
		if k >= idle {
			g = symParams(in, out)
		}
		h := g.clone()
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, h)
		same(g.w, h.w, "weight gradient unchanged")
		same(g.b, h.b, "bias gradient unchanged")
		if k >= idle {
			p.near(q, "after the update")
		}
	}
}

// 1..2 inputs and outputs, 2 steps (3 thorough), every rate, decay, epsilon and
// beta (in (0,1)), every gradient.
//v: mode=R
func H_C15_Steps() { c15(size("in", 2), size("out", 2), 0, tiered(2, 3), true) }

// 3x4 parameters, 2 steps, fixed betas.
//v: mode=R
func H_C15_Large() {
	s := pick("shape", []int{3, 4}, []int{6, 1}, []int{1, 6})
	c15(s[0], s[1], 0, 2, false)
}

// Late steps: 2 free steps after 1, 9, 10 or 40 steps of zero gradient, fixed betas.
//v: mode=R
func H_C15_Late() {
	idle := []int{1, 9, 10, 40}[vPick("idle", 4)]
	c15(1, 1, idle, 2, false)
}

// Late steps with free betas: 1 step after 1..3, 9, 10 or 30 steps of zero gradient.
//v: mode=R
func H_C15_LateBetas() { c15(1, 1, []int{1, 2, 3, 9, 10, 30}[vPick("idle", 6)], 1, true) }

// Two layers, each with its own optimizer, updated in turns.
//v: mode=R
func H_C15_TwoLayers() {
	rate, decay, eps := vFinite("rate"), vFinite("decay"), vFinite("epsilon")
	vAssume(rate > 0 && decay > 0 && eps > 0)
	var o [2]nn.AdamOptimizer
	var p, q [2]params
	var ref [2]*adam
	for i := range o {
		x, err := nn.NewAdamOptimizer(rate, decay, eps, 0.875, 0.96875)
		vAssert(err == nil, "optimizer")
		o[i], p[i] = x, symParams(1+i, 1)
		q[i] = p[i].clone()
		ref[i] = &adam{rate: rate, decay: decay, eps: eps, b1: 0.875, b2: 0.96875, p1: 1, p2: 1,
			m: params{zeros(1+i, 1), zeros(1, 1)}, s: params{zeros(1+i, 1), zeros(1, 1)}}
	}
	for k := 0; k < 4; k++ {
		i := k % 2
		g := symParams(1+i, 1)
		vAssert(o[i].Update(&p[i].w, &p[i].b, g.w, g.b) == nil, "update")
		ref[i].step(q[i], g)
		p[0].near(q[0], "of the first layer")
		p[1].near(q[1], "of the second layer")
	}
}

// Long runs: a step with gradients of any sign and fixed size, 20, 101 or 260 fixed
// steps, and a free one, betas close to 1.
//v: mode=R
func H_C15_Long() {
	rate := vFinite("rate")
	vAssume(rate > 0)
	idle := []int{20, 101, 260}[vPick("idle", 3)]
	b1, b2 := 63.0/64, 1023.0/1024
	o, err := nn.NewAdamOptimizer(rate, 0, 0.125, b1, b2)
	vAssert(err == nil, "optimizer")
	p := symParams(1, 1)
	ref := &adam{rate: rate, eps: 0.125, b1: b1, b2: b2, p1: 1, p2: 1,
		m: params{zeros(1, 1), zeros(1, 1)}, s: params{zeros(1, 1), zeros(1, 1)}}
	for k := 0; k < idle+1; k++ {
		g := params{zeros(1, 1), zeros(1, 1)}
		if k < idle {
			g.w.M[0][0], g.b.M[0][0] = 1, -1
		} else {
			g = symParams(1, 1)
		}
		q := p.clone()
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, g)
		if k == idle {
			p.near(q, "after the update")
		}
	}
}

// More than a thousand parameters, 3 steps with given settings and gradients, given
// weights but for the first, middle and last.
//v: fold
func H_C15_Bulk() {
	in, out := bulkShapes()
	o, err := nn.NewAdamOptimizer(0.5, 0.25, 0.125, 0.875, 0.96875)
	vAssert(err == nil, "optimizer")
	p := params{bulk("w", in, out), bulk("b", 1, out)}
	q := p.clone()
	ref := &adam{rate: 0.5, decay: 0.25, eps: 0.125, b1: 0.875, b2: 0.96875, p1: 1, p2: 1,
		m: params{zeros(in, out), zeros(1, out)}, s: params{zeros(in, out), zeros(1, out)}}
	for k := 0; k < 3; k++ {
		g := params{given(in, out), given(1, out)}
		for i := range g.w.M {
			for j := range g.w.M[i] {
				g.w.M[i][j] *= float64(k - 1)
			}
		}
		h := g.clone()
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, h)
		p.near(q, "after the update")
		same(g.w, h.w, "weight gradient unchanged")
		same(g.b, h.b, "bias gradient unchanged")
	}
}
