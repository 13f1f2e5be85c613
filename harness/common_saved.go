package main

import (
	"bytes"

	nn "github.com/cubeflix/nn"
)

// anySettings are settings of any value an optimizer can be made from.
func anySettings(adam bool) settings {
	s := settings{adam: adam, rate: vFinite("rate"), decay: vFinite("decay")}
	vAssume(s.rate > 0 && s.decay >= 0)
	if adam {
		s.epsilon, s.beta1, s.beta2 = vFloat("epsilon"), vFloat("beta1"), vFloat("beta2")
	} else {
		s.momentum = vFinite("momentum")
		vAssume(s.momentum >= 0)
	}
	return s
}

// serialized is what is written for a model.
func serialized(m *nn.Model, label string) []byte {
	d := nn.NewSavedModelData(*m)
	var buf bytes.Buffer
	vAssert(d.Serialize(&buf) == nil, label)
	return buf.Bytes()
}

// isModel claims that a model is a finalized one with exactly the parts given.
func isModel(m *nn.Model, ps []part, loss int, s settings, acc nn.AccuracyType, precision float64, label string) bool {
	n := len(ps)
	in, out := 0, 0
	if n > 0 {
		in, out = ps[0].w.Rows, ps[n-1].w.Cols
	}
	vAssert(m.ModelSize == n && m.InputSize == in && m.OutputSize == out, label+" (sizes)")
	vAssert(int(m.LossType) == loss, label+" (loss kind)")
	k, sz := -1, 0
	switch l := m.Loss.(type) {
	case *nn.MeanSquaredLoss:
		k, sz = kMSE, l.Size
	case *nn.MeanAbsoluteLoss:
		k, sz = kMAE, l.Size
	case *nn.CrossEntropyLoss:
		k, sz = kCE, l.Size
	case *nn.BinaryCrossEntropyLoss:
		k, sz = kBCE, l.Size
	}
	vAssert(k == loss && sz == out, label+" (loss)")
	vAssert(m.AccuracyType == acc, label+" (accuracy kind)")
	vSame(m.AccuracyPercision, precision, label+" (accuracy precision)")
	vAssert((m.OptimizerType == nn.AdamOptimizerType) == s.adam, label+" (optimizer kind)")
	vSame(m.OptimizerValues["learningRate"], s.rate, label+" (learning rate)")
	vSame(m.OptimizerValues["decay"], s.decay, label+" (decay)")
	if s.adam {
		vSame(m.OptimizerValues["epsilon"], s.epsilon, label+" (epsilon)")
		vSame(m.OptimizerValues["beta1"], s.beta1, label+" (beta1)")
		vSame(m.OptimizerValues["beta2"], s.beta2, label+" (beta2)")
	} else {
		vSame(m.OptimizerValues["momentum"], s.momentum, label+" (momentum)")
	}
	ok := len(m.Layers) == n && len(m.Optimizers) == n
	vAssert(ok, label+" (number of layers and optimizers)")
	if !ok {
		return false
	}
	for i, p := range ps {
		ok = isLayer(m.Layers[i], p.kind, p.slope, p.rate, *p.w, *p.b, label) && ok
		s.holds(m.Optimizers[i], label+" (layer's optimizer)")
		for j := 0; j < i; j++ {
			vAssert(m.Optimizers[i] != m.Optimizers[j], label+" (own optimizers)")
		}
	}
	return ok
}

// parts are the layers of a model.
func parts(m *nn.Model) []part {
	ps := make([]part, len(m.Layers))
	for i, l := range m.Layers {
		p := part{l: l}
		p.kind, _, _, p.slope, p.rate, p.w, p.b = details(l)
		ps[i] = p
	}
	return ps
}

// anyParts makes layers of the kinds and sizes given with parameters, slopes
// and dropout rates of any value they can have.
func anyParts(kinds, sizes []int) []part {
	ps := make([]part, len(kinds))
	for i, k := range kinds {
		p := part{kind: k}
		if k == kLeaky {
			p.slope = vFloat("slope")
			vAssume(p.slope >= 0)
		}
		if k == kDropout {
			p.rate = vFloat("dropout")
			vAssume(p.rate >= 0 && p.rate <= 1)
		}
		var err error
		p.l, p.w, p.b, err = newLayer(k, sizes[i], sizes[i+1], p.slope, p.rate)
		vAssert(err == nil, "layer")
		setParams(p.w, p.b)
		ps[i] = p
	}
	return ps
}
