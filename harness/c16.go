package main

import nn "github.com/cubeflix/nn"

// Every pair and triple of numbers as settings, NaN excepted: both constructors
// and the by-type constructor agree.
func H_C16_Settings() {
	rate, decay, m := vFloat("rate"), vFloat("decay"), vFloat("momentum")
	vAssume(rate == rate && decay == decay && m == m)
	if vPick("kind", 2) == 0 {
		ok := rate > 0 && decay >= 0 && m >= 0
		o, err := nn.NewSGDOptimizer(rate, decay, m)
		vAssert((err == nil) == ok, "SGD refuses exactly the invalid settings")
		if err == nil {
			vSame(o.LearningRate, rate, "learning rate")
			vSame(o.Decay, decay, "decay")
			vSame(o.Momentum, m, "momentum")
		}
		_, err = nn.NewOptimizerFromType(nn.SGDOptimizerType, map[string]float64{"learningRate": rate, "decay": decay, "momentum": m})
		vAssert((err == nil) == ok, "by type SGD refuses exactly the invalid settings")
		return
	}
	ok := rate > 0 && decay >= 0
	e, b1, b2 := vFloat("epsilon"), vFloat("beta1"), vFloat("beta2")
	o, err := nn.NewAdamOptimizer(rate, decay, e, b1, b2)
	vAssert((err == nil) == ok, "Adam refuses exactly the invalid settings")
	if err == nil {
		vSame(o.LearningRate, rate, "learning rate")
		vSame(o.Decay, decay, "decay")
		vSame(o.Epsilon, e, "epsilon")
		vSame(o.Beta1, b1, "beta1")
		vSame(o.Beta2, b2, "beta2")
	}
	_, err = nn.NewOptimizerFromType(nn.AdamOptimizerType, map[string]float64{"learningRate": rate, "decay": decay, "epsilon": e, "beta1": b1, "beta2": b2})
	vAssert((err == nil) == ok, "by type Adam refuses exactly the invalid settings")
}

// Optimizer kinds: every int8.
func H_C16_Types() {
	t := vInt("type", -128, 127)
	o, err := nn.NewOptimizerFromType(nn.OptimizerType(t), map[string]float64{"learningRate": 1})
	vAssert((err == nil) == (t == 0 || t == 1), "refuses exactly the unknown kinds")
	if err == nil {
		_, sgd := o.(*nn.SGDOptimizer)
		_, adam := o.(*nn.AdamOptimizer)
		vAssert(sgd == (t == 0) && adam == (t == 1), "an optimizer of the kind asked for")
	}
}

func c16optimizer(kind int) nn.Optimizer {
	switch kind {
	case 0:
		o, err := nn.NewSGDOptimizer(0.5, 0.25, 0)
		vAssert(err == nil, "optimizer")
		return &o
	case 1:
		o, err := nn.NewSGDOptimizer(0.5, 0.25, 0.5)
		vAssert(err == nil, "optimizer")
		return &o
	}
	o, err := nn.NewAdamOptimizer(0.5, 0.25, 0.125, 0.875, 0.96875)
	vAssert(err == nil, "optimizer")
	return &o
}

// Gradients of any shape up to 3x3 for parameters of 1..2 inputs and outputs,
// before or after a valid update; another optimizer never sees the bad ones.
func H_C16_Gradients() {
	in, out := size("in", 2), size("out", 2)
	kind := vPick("optimizer", 3)
	o, ref := c16optimizer(kind), c16optimizer(kind)
	p := symParams(in, out)
	q := p.clone()
	before := vPick("before", 2)
	if before == 1 {
		g := symParams(in, out)
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "valid update")
		vAssert(ref.Update(&q.w, &q.b, g.w, g.b) == nil, "valid update")
	}
	dw := mat("dw", size("wr", 3), size("wc", 3))
	db := mat("db", size("br", 2), size("bc", 3))
	wdw, wdb := clone(dw), clone(db)
	err := o.Update(&p.w, &p.b, dw, db)
	fits := dw.Rows == in && dw.Cols == out && db.Rows == 1 && db.Cols == out
	vAssert((err == nil) == fits, "refuses exactly the gradients that do not fit")
	same(dw, wdw, "weight gradient unchanged")
	same(db, wdb, "bias gradient unchanged")
	if err != nil {
		same(p.w, q.w, "a refused update changes no weight")
		same(p.b, q.b, "a refused update changes no bias")
		g := symParams(in, out)
		vAssert(o.Update(&p.w, &p.b, g.w, g.b) == nil, "a later valid update")
		vAssert(ref.Update(&q.w, &q.b, g.w, g.b) == nil, "valid update")
		near(p.w, q.w, "weights as if nothing had been refused")
		near(p.b, q.b, "biases as if nothing had been refused")
	}
}
