package main

import (
	"bytes"

	nn "github.com/cubeflix/nn"
)

// c24 saves a model and loads it again.
func c24(kinds, sizes []int, loss int, adam bool, acc nn.AccuracyType) {
	ps := anyParts(kinds, sizes)
	s := anySettings(adam)
	precision := vFloat("precision")
	vAssume(precision >= 0)
	m := assemble(ps, loss, s, acc, precision)
	was := copies(ps)
	data := nn.NewSavedModelData(*m)
	var buf bytes.Buffer
	vAssert(data.Serialize(&buf) == nil, "a model is saved")
	isModel(m, was, loss, s, acc, precision, "saving leaves the model unchanged")
	tail := []byte{vByte("tail"), vByte("tail")}
	nt := vPick("tail", 3)
	buf.Write(tail[:nt])
	r, err := nn.LoadModel(&buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	isModel(&r, was, loss, s, acc, precision, "the loaded model")
	sameBytes(buf.Bytes(), tail[:nt], "exactly the written bytes are consumed")
}

// Two layers of every pair of kinds (quick: of neighbouring kinds), every loss,
// settings, slopes, rates, precision and parameters of any value they can have;
// SGD with its settings in any order.
//v: maporder=all
func H_C24_SGD() {
	k, j := vPick("kind", 6), 1
	if vTier() > 0 {
		j = vPick("other", 6)
	}
	c24([]int{k, (k + j) % 6}, []int{2, 1, 2}, vPick("loss", 4), false, nn.AccuracyType((k+j)%3))
}

// As above with Adam; settings in their order or the opposite one.
//v: maporder=ends
func H_C24_Adam() {
	k := vPick("kind", 6)
	c24([]int{k, (k + 1) % 6}, []int{1, 2, 1}, vPick("loss", 4), true, nn.AccuracyType(k%3))
}

// Adam with its settings in every order; one layer.
//v: maporder=all tier=thorough time=600
func H_C24_AdamOrders() {
	c24([]int{kLinear}, []int{1, 1}, kMSE, true, nn.RegressionAccuracyType)
}

// One to four layers with sizes up to 5, every kind of accuracy.
//v: maporder=ends
func H_C24_Deep() {
	n := size("layers", 4)
	k := vPick("kind", 6)
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, (k+i)%6)
	}
	c24(kinds, []int{3, 5, 1, 4, 2}[:n+1], vPick("loss", 4), vPick("adam", 2) == 1, nn.AccuracyType(vPick("accuracy", 3)))
}

// A loaded model predicts, evaluates and trains on exactly like the one saved:
// two layers, every last kind, every loss, SGD with and without momentum and
// Adam, one or two samples and steps (thorough: and every accuracy kind with
// each).
//v: time=400
func H_C24_Same() {
	k, loss, opt := vPick("kind", 6), vPick("loss", 4), vPick("optimizer", 3)
	acc := nn.AccuracyType(vPick("accuracy", 3))
	if vTier() == 0 && int(acc) != (k+loss)%3 {
		vAssume(false)
	}
	ps := symParts([]int{(k + 2) % 6, k}, []int{1, 1, 2})
	s := someSettings(opt)
	m := assemble(ps, loss, s, acc, 0.5)
	r, err := nn.LoadModel(bytes.NewBuffer(serialized(m, "a model is saved")))
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	rows := size("rows", 2)
	if vTier() == 0 && rows != 1+(k+opt)%2 {
		vAssume(false)
	}
	x, y := mat("x", rows, 1), zeros(rows, 2)
	for i := range y.M {
		y.M[i][i] = 1
	}
	same2 := func(what string) {
		a, err := m.Forward(clone(x), false)
		vAssert(err == nil, "forward pass")
		b, err := r.Forward(clone(x), false)
		vAssert(err == nil && len(b) == len(a), "forward pass of the loaded model")
		if err != nil || len(a) != len(b) {
			return
		}
		for i := range a {
			same(b[i], a[i], what+" outputs")
		}
		la, err := m.CalculateLoss(clone(x), clone(y))
		vAssert(err == nil, "loss")
		lb, err := r.CalculateLoss(clone(x), clone(y))
		vAssert(err == nil, "loss of the loaded model")
		vSame(lb, la, what+" loss")
	}
	same2("the same")
	at := vDrawCount()
	vAssert(m.Fit(clone(x), clone(y), 1, 1, nn.Matrix{}, nn.Matrix{}, 0) == nil, "fit")
	vDrawSeek(at)
	vAssert(r.Fit(clone(x), clone(y), 1, 1, nn.Matrix{}, nn.Matrix{}, 0) == nil, "fit of the loaded model")
	ts := parts(&r)
	for i := range ps {
		same(*ts[i].w, *ps[i].w, "the same weights after training")
		same(*ts[i].b, *ps[i].b, "the same biases after training")
	}
}

// Predictions and accuracy of the loaded model: one layer, every kind, every
// accuracy kind, 2 samples.
func H_C24_Accuracy() {
	k, acc := vPick("kind", 6), nn.AccuracyType(vPick("accuracy", 3))
	ps := symParts([]int{k}, []int{1, 2})
	precision := vFinite("precision")
	vAssume(precision >= 0)
	m := assemble(ps, kMSE, exactSGD(), acc, precision)
	r, err := nn.LoadModel(bytes.NewBuffer(serialized(m, "a model is saved")))
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	x, y := mat("x", 2, 1), mk([][]float64{{1, 0}, {0, 1}})
	a, err := m.CalculateAccuracy(clone(x), clone(y))
	vAssert(err == nil, "accuracy")
	b, err := r.CalculateAccuracy(clone(x), clone(y))
	vAssert(err == nil, "accuracy of the loaded model")
	vSame(b, a, "the same accuracy")
	p, err := m.Predict(clone(x))
	vAssert(err == nil, "predictions")
	q, err := r.Predict(clone(x))
	vAssert(err == nil, "predictions of the loaded model")
	same(q, p, "the same predictions")
}

// A model saved after some training: the trained parameters are saved, and the
// loaded model trains on as a new model with these parameters would.
func H_C24_Trained() {
	opt := vPick("optimizer", 3)
	ps := symParts([]int{kLeaky, kLinear}, []int{1, 2, 1})
	s := someSettings(opt)
	m := assemble(ps, kMSE, s, nn.RegressionAccuracyType, 0.5)
	x, y := mat("x", 2, 1), mat("y", 2, 1)
	vAssert(m.Fit(clone(x), clone(y), 1, 1, nn.Matrix{}, nn.Matrix{}, 0) == nil, "fit")
	fresh := copies(ps)
	r, err := nn.LoadModel(bytes.NewBuffer(serialized(m, "a model is saved")))
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	isModel(&r, fresh, kMSE, s, nn.RegressionAccuracyType, 0.5, "the loaded model")
	f := assemble(fresh, kMSE, s, nn.RegressionAccuracyType, 0.5)
	vAssert(r.Fit(clone(x), clone(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0) == nil, "fit")
	vAssert(f.Fit(clone(x), clone(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0) == nil, "fit")
	for i, p := range parts(&r) {
		same(*p.w, *fresh[i].w, "the same weights after further training")
		same(*p.b, *fresh[i].b, "the same biases after further training")
	}
}

// Models of 126 to 130 layers and of 255 to 257: up to 127 can be represented,
// more are refused.
func H_C24_Layers() {
	n := []int{126, 127, 128, 130, 255, 256, 257}[vPick("layers", 7)]
	kinds, sizes := make([]int, n), make([]int, n+1)
	for i := range sizes {
		sizes[i] = 1
	}
	for i := range kinds {
		kinds[i] = i % 6
	}
	ps := anyParts1(kinds, sizes)
	m := assemble(ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	d := nn.NewSavedModelData(*m)
	var buf bytes.Buffer
	err := d.Serialize(&buf)
	if n > 127 {
		vAssert(err != nil, "a model of too many layers is refused")
		return
	}
	vAssert(err == nil, "a model of many layers is saved")
	if err != nil {
		return
	}
	r, err := nn.LoadModel(&buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	isModel(&r, ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5, "the loaded model")
	vAssert(buf.Len() == 0, "exactly the written bytes are consumed")
}

// anyParts1 makes layers with one symbolic bias each.
func anyParts1(kinds, sizes []int) []part {
	ps := make([]part, len(kinds))
	for i, k := range kinds {
		p := part{kind: k, slope: float64(i), rate: float64(i) / 256}
		var err error
		p.l, p.w, p.b, err = newLayer(k, sizes[i], sizes[i+1], p.slope, p.rate)
		vAssert(err == nil, "layer")
		p.b.M[0][0] = vFloat("b")
		ps[i] = p
	}
	return ps
}

// Data the format cannot represent: versions of 0..7 bytes, a setting whose name
// has 126..129 or 255..257 bytes, 126..129 or 255..257 settings. It is refused,
// or else loading it gives it back.
//v: maporder=ends steps=20000000
func H_C24_Refused() {
	ps := symParts([]int{kLinear}, []int{1, 1})
	m := assemble(ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	d := nn.NewSavedModelData(*m)
	values := map[string]float64{}
	for k, v := range d.OptimizerValues {
		values[k] = v
	}
	d.OptimizerValues = values
	fits := true
	many := []int{126, 127, 128, 129, 255, 256, 257}
	extra := ""
	switch vPick("what", 4) {
	case 0:
		n := vPick("version", 8)
		d.Version = repeated("1", n)
		fits = n == 5
	case 1:
		n := many[vPick("length", 7)]
		extra = repeated("k", n)
		values[extra] = 0.75
		fits = n < 128
	case 2:
		n := many[vPick("count", 7)]
		for i := 0; len(values) < n; i++ {
			extra = string([]byte{'a' + byte(i%16), 'a' + byte(i/16)})
			values[extra] = 0.25
		}
		values[extra] = 0.75
		fits = n < 128
	}
	var buf bytes.Buffer
	err := d.Serialize(&buf)
	vAssert((err == nil) == fits, "refuses exactly what cannot be represented")
	if err != nil {
		return
	}
	r, err := nn.LoadModel(&buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	isModel(&r, ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5, "the loaded model")
	vAssert(buf.Len() == 0, "exactly the written bytes are consumed")
}

// Layers whose parameters do not match their declared sizes are refused with
// the model, wherever they are.
func H_C24_Mismatch() {
	ps := symParts([]int{kHidden, kLinear, kSoftmax}, []int{2, 2, 2, 2})
	m := assemble(ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	i, what := vPick("layer", 3), vPick("what", 3)
	switch what {
	case 0:
		*ps[i].w = mat("w", size("r", 3), size("c", 3))
	case 1:
		*ps[i].b = mat("b", size("r", 3), size("c", 3))
	}
	d := nn.NewSavedModelData(*m)
	var buf bytes.Buffer
	err := d.Serialize(&buf)
	w, b := *ps[i].w, *ps[i].b
	vAssert((err == nil) == (w.Rows == 2 && w.Cols == 2 && b.Rows == 1 && b.Cols == 2), "refuses exactly the parameters that do not match")
}

func repeated(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}
