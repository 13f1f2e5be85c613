package main

import nn "github.com/cubeflix/nn"

// sgd is the documented rule.
type sgd struct {
	rate, decay, momentum float64
	t                     int
	v                     params
}

func (o *sgd) step(p, g params) {
	rate := o.rate / (1 + o.decay*float64(o.t))
	each(func(x []*float64) {
		p, g, v := x[0], x[1], x[2]
		*v = o.momentum**v - rate**g
		*p += *v
	}, p, g, o.v)
	o.t++
}

// sgdSettings makes any valid settings; decay and momentum may be zero.
func sgdSettings() (rate, decay, momentum float64) {
	rate = vFinite("rate")
	vAssume(rate > 0)
	if vPick("use decay", 2) == 1 {
		decay = vFinite("decay")
		vAssume(decay > 0)
	}
	if vPick("use momentum", 2) == 1 {
		momentum = vFinite("momentum")
		vAssume(momentum > 0)
	}
	return
}

// c14 takes idle steps with zero gradients, then free ones with any gradients.
func c14(in, out, idle, free int) {
	rate, decay, momentum := sgdSettings()
	var o nn.Optimizer
	if vPick("by type", 2) == 1 {
		x, err := nn.NewOptimizerFromType(nn.SGDOptimizerType, map[string]float64{"learningRate": rate, "decay": decay, "momentum": momentum})
		vAssert(err == nil, "optimizer")
		o = x
	} else {
		x, err := nn.NewSGDOptimizer(rate, decay, momentum)
		vAssert(err == nil, "optimizer")
		o = &x
	}
	p := symParams(in, out)
	q := p.clone()
	ref := &sgd{rate: rate, decay: decay, momentum: momentum, v: params{zeros(in, out), zeros(1, out)}}
	for k := 0; k < idle+free; k++ {
		g := params{zeros(in, out), zeros(1, out)}
		if k >= idle {
			g = symParams(in, out)
		}
		h := g.clone()
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, h)
		same(g.w, h.w, "weight gradient unchanged")
		same(g.b, h.b, "bias gradient unchanged")
		if k >= idle {
			p.near(q, "after the update")
		}
	}
}

// 1..2 inputs and outputs, 3 steps (5 thorough), every rate, decay and momentum,
// every gradient.
//v: mode=R
func H_C14_Steps() { c14(size("in", 2), size("out", 2), 0, tiered(3, 5)) }

// 3x4 parameters, 2 steps.
//v: mode=R
func H_C14_Large() { s := pick("shape", []int{3, 4}, []int{6, 1}, []int{1, 6}); c14(s[0], s[1], 0, 2) }

// Late steps: 2 free steps after 1, 9, 10 or 300 (1100 thorough) steps of zero gradient.
//v: mode=R
func H_C14_Late() {
	idle := []int{1, 9, 10, tiered(300, 1100)}[vPick("idle", 4)]
	c14(1, 1, idle, 2)
}

// Two layers, each with its own optimizer, updated in turns.
//v: mode=R
func H_C14_TwoLayers() {
	rate, decay, momentum := sgdSettings()
	var o [2]nn.SGDOptimizer
	var p, q [2]params
	var ref [2]*sgd
	for i := range o {
		x, err := nn.NewSGDOptimizer(rate, decay, momentum)
		vAssert(err == nil, "optimizer")
		o[i], p[i] = x, symParams(1+i, 1)
		q[i] = p[i].clone()
		ref[i] = &sgd{rate: rate, decay: decay, momentum: momentum, v: params{zeros(1+i, 1), zeros(1, 1)}}
	}
	for k := 0; k < 4; k++ {
		i := k % 2
		g := symParams(1+i, 1)
		vAssert(o[i].Update(&p[i].w, &p[i].b, g.w, g.b) == nil, "update")
		ref[i].step(q[i], g)
		p[0].near(q[0], "of the first layer")
		p[1].near(q[1], "of the second layer")
	}
}

// Long runs: a free step, 11, 101 or 260 (1030 thorough) fixed steps, and a free
// one, with fixed settings: momentum 0, 1/2 or 1, decay 0 or 1/8.
//v: mode=R
func H_C14_Long() {
	rate := vFinite("rate")
	vAssume(rate > 0)
	momentum, decay := []float64{0, 0.5, 1}[vPick("momentum", 3)], []float64{0, 0.125}[vPick("decay", 2)]
	if decay != 0 {
		vAssume(momentum != 0.5)
	}
	idle := []int{11, 101, tiered(260, 1030)}[vPick("idle", 3)]
	o, err := nn.NewSGDOptimizer(rate, decay, momentum)
	vAssert(err == nil, "optimizer")
	p := symParams(1, 1)
	q := p.clone()
	ref := &sgd{rate: rate, decay: decay, momentum: momentum, v: params{zeros(1, 1), zeros(1, 1)}}
	for k := 0; k < idle+2; k++ {
		g := params{zeros(1, 1), zeros(1, 1)}
		if k == 0 || k == idle+1 {
			g = symParams(1, 1)
		} else if k%2 == 1 {
			g.w.M[0][0], g.b.M[0][0] = 1, -2
		}
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, g)
	}
	p.near(q, "after the update")
}

// More than a thousand parameters, 3 steps with given settings, gradients given but
// for the first, middle and last.
//v: fold
func H_C14_Bulk() {
	in, out := bulkShapes()
	o, err := nn.NewSGDOptimizer(0.5, 0.25, 0.5)
	vAssert(err == nil, "optimizer")
	p := params{bulk("w", in, out), bulk("b", 1, out)}
	q := p.clone()
	ref := &sgd{rate: 0.5, decay: 0.25, momentum: 0.5, v: params{zeros(in, out), zeros(1, out)}}
	for k := 0; k < 3; k++ {
		g := params{bulk("dw", in, out), bulk("db", 1, out)}
		h := g.clone()
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "update")
		ref.step(q, h)
		p.near(q, "after the update")
		same(g.w, h.w, "weight gradient unchanged")
		same(g.b, h.b, "bias gradient unchanged")
	}
}
