package main

import nn "github.com/cubeflix/nn"

// Four attempts to add layers of every kind and of sizes 1..2; the model always
// describes the accepted ones.
func H_C18_Layers() {
	m := nn.NewModel()
	vAssert(m.ModelSize == 0 && len(m.Layers) == 0, "a new model is empty")
	k := vPick("kind", 6)
	var accepted []nn.Layer
	first, last := 0, 0
	for i := 0; i < 4; i++ {
		in, out := size("in", 2), size("out", 2)
		l, _, _, err := newLayer((k+i)%6, in, out, 0.25, 0.5)
		vAssert(err == nil, "layer")
		err = m.AddLayer(l)
		fits := len(accepted) == 0 || in == last
		vAssert((err == nil) == fits, "refuses exactly the layers that do not fit")
		if fits {
			if len(accepted) == 0 {
				first = in
			}
			last = out
			accepted = append(accepted, l)
		}
		vAssert(m.ModelSize == len(accepted), "layer count")
		vAssert(m.InputSize == first, "input size")
		vAssert(m.OutputSize == last, "output size")
		vAssert(len(m.Layers) == len(accepted), "number of layers held")
		if len(m.Layers) == len(accepted) {
			for j := range accepted {
				vAssert(m.Layers[j] == accepted[j], "the accepted layers in order")
			}
		}
	}
}

// Two layers of sizes 1..5.
func H_C18_Sizes() {
	m := nn.NewModel()
	k := vPick("kind", 6)
	a, b, c, d := size("a", 5), size("b", 5), size("c", 5), size("d", 2)
	l, _, _, err := newLayer(k, a, b, 0.25, 0.5)
	vAssert(err == nil, "layer")
	vAssert(m.AddLayer(l) == nil, "the first layer is accepted")
	vAssert(m.ModelSize == 1 && m.InputSize == a && m.OutputSize == b, "sizes after the first layer")
	o, _, _, err := newLayer(5-k, c, d, 0.25, 0.5)
	vAssert(err == nil, "layer")
	err = m.AddLayer(o)
	vAssert((err == nil) == (b == c), "refuses exactly the layers that do not fit")
	if err == nil {
		vAssert(m.ModelSize == 2 && m.InputSize == a && m.OutputSize == d, "sizes after the second layer")
	} else {
		vAssert(m.ModelSize == 1 && m.InputSize == a && m.OutputSize == b && len(m.Layers) == 1, "a refused layer leaves the model unchanged")
	}
}

// Finalizing a model of 1..3 layers: every loss kind and sizes 1..4, any valid
// settings, any precision but NaN, every accuracy kind.
func H_C18_Finalize() {
	n, out := size("layers", 3), size("out", 3)
	m := nn.NewModel()
	var ws []params
	for i := 0; i < n; i++ {
		in, o := 2, 2
		if i == n-1 {
			o = out
		}
		l, w, b := symLayer(i, in, o, 0, 0)
		vAssert(m.AddLayer(l) == nil, "add layer")
		ws = append(ws, params{*w, *b})
	}
	kind, lsize := vPick("loss", 4), size("loss size", 4)
	loss, err := newLoss(kind, lsize)
	vAssert(err == nil, "loss")
	s := settings{adam: vPick("adam", 2) == 1, rate: vFinite("rate"), decay: vFinite("decay"), momentum: vFinite("momentum"),
		epsilon: vFinite("epsilon"), beta1: vFinite("beta1"), beta2: vFinite("beta2")}
	vAssume(s.rate > 0 && s.decay >= 0 && s.momentum >= 0)
	o := s.make()
	acc, precision := nn.AccuracyType(vPick("accuracy", 3)), vFloat("precision")
	vAssume(precision == precision)
	err = m.Finalize(loss, o, acc, precision)
	vAssert((err == nil) == (lsize == out && precision >= 0), "succeeds exactly when the loss fits and the precision is not negative")
	s.holds(o, "the given optimizer keeps its settings")
	if err != nil {
		vReach("refused")
		return
	}
	vReach("finalized")
	vAssert(int(m.LossType) == kind, "loss kind")
	vAssert(m.Loss == loss, "loss")
	vAssert(m.AccuracyType == acc, "accuracy kind")
	vSame(m.AccuracyPercision, precision, "accuracy precision")
	vAssert((m.OptimizerType == nn.AdamOptimizerType) == s.adam, "optimizer kind")
	vAssert(m.ModelSize == n && m.InputSize == 2 && m.OutputSize == out && len(m.Layers) == n, "finalizing keeps the layers")
	vAssert(len(m.Optimizers) == n, "one optimizer for every layer")
	if len(m.Optimizers) != n {
		return
	}
	for i := range m.Optimizers {
		s.holds(m.Optimizers[i], "settings of the layer's optimizer")
		vAssert(m.Optimizers[i] != o, "the given optimizer is not used itself")
		for j := 0; j < i; j++ {
			vAssert(m.Optimizers[i] != m.Optimizers[j], "every layer has its own optimizer")
		}
	}
}

// The optimizers of a finalized model start afresh, whatever the given one has
// been used for, or the model was finalized with before, and none affects
// another; 1..3 layers and every kind of optimizer.
//v: mode=R
func H_C18_Fresh() {
	n := size("layers", 3)
	sizes := []int{1, 2, 1, 1}
	ps := symParts([]int{kHidden, kLinear, kSigmoid}[:n], sizes[:n+1])
	s := someSettings(vPick("optimizer", 3))
	o := s.make()
	used := symParams(1, 2)
	vAssert(o.Update(&used.w, &used.b, mat("dw", 1, 2), mat("db", 1, 2)) == nil, "update")
	m := nn.NewModel()
	for _, p := range ps {
		vAssert(m.AddLayer(p.l) == nil, "add layer")
	}
	l, err := newLoss(kMSE, sizes[n])
	vAssert(err == nil, "loss")
	vAssert(m.Finalize(l, o, nn.RegressionAccuracyType, 0.5) == nil, "finalize")
	if vPick("again", 2) == 1 {
		first := m.Optimizers[0]
		vAssert(first.Update(ps[0].w, ps[0].b, mat("dw", 1, 2), mat("db", 1, 2)) == nil, "update")
		vAssert(m.Finalize(l, o, nn.RegressionAccuracyType, 0.5) == nil, "finalize again")
	}
	vAssert(len(m.Optimizers) == n, "one optimizer for every layer")
	for step := 0; step < 2; step++ {
		for i := 0; i < n; i++ {
			ref := s.make()
			p := symParams(sizes[i], sizes[i+1])
			q := p.clone()
			if step == 1 {
				idle := symParams(sizes[i], sizes[i+1])
				z := params{zeros(sizes[i], sizes[i+1]), zeros(1, sizes[i+1])}
				vAssert(ref.Update(&idle.w, &idle.b, z.w, z.b) == nil, "update")
			}
			g := symParams(sizes[i], sizes[i+1])
			if step == 0 {
				g = params{zeros(sizes[i], sizes[i+1]), zeros(1, sizes[i+1])}
			}
			vAssert(m.Optimizers[i].Update(&p.w, &p.b, g.w, g.b) == nil, "update")
			vAssert(ref.Update(&q.w, &q.b, g.w, g.b) == nil, "update")
			p.near(q, "as by a new optimizer")
		}
	}
}

// Constructors: every int as a size, with slopes and rates of any value but NaN.
func H_C18_Layer() {
	kind := vPick("kind", 6)
	in, out := dim("in", 4), dim("out", 4)
	slope, rate := vFloat("slope"), vFloat("rate")
	vAssume(slope == slope && rate == rate)
	ok := in > 0 && out > 0
	if kind == kLeaky {
		ok = ok && slope >= 0
	}
	if kind == kDropout {
		ok = ok && rate >= 0 && rate <= 1
	}
	l, w, b, err := newLayer(kind, in, out, slope, rate)
	vAssert((err == nil) == ok, "refuses exactly the layers that cannot be")
	if err != nil {
		return
	}
	same(*w, zeros(in, out), "weights start at zero")
	same(*b, zeros(1, out), "biases start at zero")
	rowsApart(*w, "rows share no storage")
	switch x := l.(type) {
	case *nn.HiddenLayer:
		vAssert(kind == kHidden && x.InputSize == in && x.OutputSize == out, "sizes")
	case *nn.LinearLayer:
		vAssert(kind == kLinear && x.InputSize == in && x.OutputSize == out, "sizes")
	case *nn.SigmoidLayer:
		vAssert(kind == kSigmoid && x.InputSize == in && x.OutputSize == out, "sizes")
	case *nn.LeakyLayer:
		vAssert(kind == kLeaky && x.InputSize == in && x.OutputSize == out, "sizes")
		vSame(x.Slope, slope, "slope")
	case *nn.SoftmaxLayer:
		vAssert(kind == kSoftmax && x.InputSize == in && x.OutputSize == out, "sizes")
	case *nn.DropoutLayer:
		vAssert(kind == kDropout && x.InputSize == in && x.OutputSize == out, "sizes")
		vSame(x.Dropout, rate, "rate")
	}
}

// Losses of every int size.
func H_C18_Loss() {
	n := vInt("size", minInt, maxInt)
	_, err := newLoss(vPick("kind", 4), n)
	vAssert((err == nil) == (n >= 1), "refuses exactly the sizes below one")
}

// Finalizing twice, successfully or not, possibly with another layer added in
// between: the second time succeeds and is refused under the same conditions.
func H_C18_Twice() {
	m := nn.NewModel()
	out := size("out", 2)
	l, _, _ := symLayer(vPick("kind", 6), 1, out, 0, 0)
	vAssert(m.AddLayer(l) == nil, "add layer")
	s := someSettings(vPick("optimizer", 3))
	first, err := newLoss(vPick("first loss", 2), size("first size", 3))
	vAssert(err == nil, "loss")
	_ = m.Finalize(first, s.make(), nn.CategoricalAccuracyType, 0.5)
	n := 1
	if vPick("grow", 2) == 1 {
		n, out = 2, 3
		l, _, _ := symLayer(kLinear, m.OutputSize, 3, 0, 0)
		vAssert(m.AddLayer(l) == nil, "add another layer")
	}
	t := someSettings(vPick("new optimizer", 3))
	kind, lsize := vPick("loss", 4), size("loss size", 3)
	loss, err := newLoss(kind, lsize)
	vAssert(err == nil, "loss")
	precision := vFinite("precision")
	err = m.Finalize(loss, t.make(), nn.RegressionAccuracyType, precision)
	vAssert((err == nil) == (lsize == out && precision >= 0), "succeeds exactly when the loss fits and the precision is not negative")
	if err != nil {
		return
	}
	vAssert(int(m.LossType) == kind && m.Loss == loss && m.AccuracyType == nn.RegressionAccuracyType, "loss and accuracy kind")
	vSame(m.AccuracyPercision, precision, "accuracy precision")
	vAssert(m.ModelSize == n && m.InputSize == 1 && m.OutputSize == out && len(m.Layers) == n, "finalizing keeps the layers")
	vAssert(len(m.Optimizers) == n, "one optimizer for every layer")
	for i := range m.Optimizers {
		t.holds(m.Optimizers[i], "settings of the layer's optimizer")
	}
}

// Models of 12, 33 and 127 layers: every layer is kept in its place and gets an
// optimizer of its own.
func H_C18_Many() {
	n := []int{12, 33, 127}[vPick("layers", 3)]
	m := nn.NewModel()
	var ls []nn.Layer
	for i := 0; i < n; i++ {
		l, _, _, err := newLayer(i%6, 1+i%2, 1+(i+1)%2, 0.25, 0.5)
		vAssert(err == nil, "layer")
		vAssert(m.AddLayer(l) == nil, "a layer that fits is added")
		ls = append(ls, l)
	}
	wrong, _, _, err := newLayer(kLinear, 2+n%2, 1, 0, 0)
	vAssert(err == nil, "layer")
	if n%2 == 1 {
		vAssert(m.AddLayer(wrong) != nil, "a layer that does not fit is refused")
	}
	s := someSettings(vPick("optimizer", 3))
	loss, err := newLoss(kMSE, m.OutputSize)
	vAssert(err == nil, "loss")
	vAssert(m.Finalize(loss, s.make(), nn.RegressionAccuracyType, 0.5) == nil, "finalize")
	vAssert(m.ModelSize == n && len(m.Layers) == n && len(m.Optimizers) == n, "the model holds every layer")
	if len(m.Layers) != n || len(m.Optimizers) != n {
		return
	}
	for i := range ls {
		vAssert(m.Layers[i] == ls[i], "every layer in its place")
		s.holds(m.Optimizers[i], "settings of the layer's optimizer")
		for j := 0; j < i; j++ {
			vAssert(m.Optimizers[i] != m.Optimizers[j], "every layer has its own optimizer")
		}
	}
}
