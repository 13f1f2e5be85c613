package main

import nn "github.com/cubeflix/nn"

// part is one layer of a model with its kind and the matrices it holds.
type part struct {
	kind  int
	slope float64
	rate  float64
	l     nn.Layer
	w, b  *nn.Matrix
}

// settings are the numbers an optimizer is made from.
type settings struct {
	adam                     bool
	rate, decay, momentum    float64
	epsilon, beta1, beta2    float64
}

// exactSGD and the others are settings whose arithmetic is easy to follow.
func exactSGD() settings      { return settings{rate: 0.5, decay: 0.25} }
func exactMomentum() settings { return settings{rate: 0.5, decay: 0.25, momentum: 0.5} }
func exactAdam() settings {
	return settings{adam: true, rate: 0.5, decay: 0.25, epsilon: 0.125, beta1: 0.875, beta2: 0.96875}
}

func someSettings(kind int) settings {
	switch kind {
	case 0:
		return exactSGD()
	case 1:
		return exactMomentum()
	}
	return exactAdam()
}

func (s settings) make() nn.Optimizer {
	if s.adam {
		o, err := nn.NewAdamOptimizer(s.rate, s.decay, s.epsilon, s.beta1, s.beta2)
		vAssert(err == nil, "optimizer")
		return &o
	}
	o, err := nn.NewSGDOptimizer(s.rate, s.decay, s.momentum)
	vAssert(err == nil, "optimizer")
	return &o
}

// holds tells whether an optimizer is of the kind and has exactly the settings.
func (s settings) holds(o nn.Optimizer, label string) {
	if s.adam {
		a, ok := o.(*nn.AdamOptimizer)
		vAssert(ok, label+" (kind)")
		if ok {
			vSame(a.LearningRate, s.rate, label)
			vSame(a.Decay, s.decay, label)
			vSame(a.Epsilon, s.epsilon, label)
			vSame(a.Beta1, s.beta1, label)
			vSame(a.Beta2, s.beta2, label)
		}
		return
	}
	a, ok := o.(*nn.SGDOptimizer)
	vAssert(ok, label+" (kind)")
	if ok {
		vSame(a.LearningRate, s.rate, label)
		vSame(a.Decay, s.decay, label)
		vSame(a.Momentum, s.momentum, label)
	}
}

// ratedParts makes layers of the kinds and sizes given, with symbolic parameters
// and dropout rates of 0.5, 0 or 1.
func ratedParts(kinds, sizes []int) []part {
	rate := 0.5
	for _, k := range kinds {
		if k == kDropout {
			rate = []float64{0.5, 0, 1}[vPick("rate", 3)]
			break
		}
	}
	return partsOf(kinds, sizes, rate)
}

// symParts makes layers of the kinds and sizes given, with symbolic parameters.
func symParts(kinds, sizes []int) []part { return partsOf(kinds, sizes, 0.5) }

func partsOf(kinds, sizes []int, rate float64) []part {
	ps := make([]part, len(kinds))
	for i, k := range kinds {
		ps[i] = part{kind: k, slope: 0.25, rate: rate}
		ps[i].l, ps[i].w, ps[i].b = symLayer(k, sizes[i], sizes[i+1], ps[i].slope, ps[i].rate)
	}
	return ps
}

// copies makes layers of the same kinds with the same parameters.
func copies(ps []part) []part {
	qs := make([]part, len(ps))
	for i, p := range ps {
		qs[i] = p
		var err error
		qs[i].l, qs[i].w, qs[i].b, err = newLayer(p.kind, p.w.Rows, p.w.Cols, p.slope, p.rate)
		vAssert(err == nil, "layer")
		for r := range p.w.M {
			copy(qs[i].w.M[r], p.w.M[r])
		}
		copy(qs[i].b.M[0], p.b.M[0])
	}
	return qs
}

// assemble makes a finalized model of the layers.
func assemble(ps []part, loss int, s settings, acc nn.AccuracyType, precision float64) *nn.Model {
	m := nn.NewModel()
	for _, p := range ps {
		vAssert(m.AddLayer(p.l) == nil, "a layer that fits is accepted")
	}
	l, err := newLoss(loss, ps[len(ps)-1].w.Cols)
	vAssert(err == nil, "loss")
	vAssert(m.Finalize(l, s.make(), acc, precision) == nil, "a model that fits is finalized")
	return &m
}

// snapshot copies the parameters of the layers.
func snapshot(ps []part) []params {
	s := make([]params, len(ps))
	for i, p := range ps {
		s[i] = params{clone(*p.w), clone(*p.b)}
	}
	return s
}

// untouched claims that the parameters are bit for bit those of the snapshot.
func untouched(ps []part, s []params, label string) {
	for i, p := range ps {
		same(*p.w, s[i].w, label)
		same(*p.b, s[i].b, label)
	}
}

// plain is the output of every layer without dropout, the input first: each by
// a layer of its own that has the parameters of the snapshot.
func plain(ps []part, s []params, x nn.Matrix) []nn.Matrix {
	out := []nn.Matrix{clone(x)}
	for i, p := range ps {
		l, w, b, err := newLayer(p.kind, s[i].w.Rows, s[i].w.Cols, p.slope, p.rate)
		vAssert(err == nil, "layer")
		for r := range w.M {
			copy(w.M[r], s[i].w.M[r])
		}
		copy(b.M[0], s[i].b.M[0])
		y, err := infer(l, clone(out[i]))
		vAssert(err == nil, "layer's forward pass")
		out = append(out, y)
	}
	return out
}
