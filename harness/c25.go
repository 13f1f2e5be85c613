package main

import (
	"bytes"

	nn "github.com/cubeflix/nn"
)

// loadable is the memory loading n bytes may take.
func loadable(n int) int { return 4096 + 128*n }

// wellFormed claims that a layer is of a known kind, has positive sizes and
// parameters that match them, and can be used.
func wellFormed(l nn.Layer) (int, int) {
	k, in, out, _, _, w, b := details(l)
	ok := k >= 0 && in > 0 && out > 0 && w != nil && b != nil
	vAssert(ok, "a loaded layer is of a known kind and has positive sizes")
	if !ok {
		return 0, 0
	}
	shape(*w, in, out, "a loaded layer's weights match its sizes")
	shape(*b, 1, out, "a loaded layer's biases match its sizes")
	rowsApart(*w, "rows share no storage")
	return in, out
}

// loadLayer loads a layer from data and claims that the result, if any, is a
// proper one.
func loadLayer(data []byte) {
	vAllocBudget(loadable(len(data)))
	l, err := nn.LoadLayer(bytes.NewBuffer(data))
	vAllocBudget(-1)
	if err != nil {
		vReach("refused")
		return
	}
	vReach("loaded")
	vAssert(l != nil, "a layer or an error")
	if l != nil {
		wellFormed(l)
	}
}

// loadModel loads a model from data and claims that the result, if any, is a
// proper one.
func loadModel(data []byte) {
	vAllocBudget(loadable(len(data)))
	m, err := nn.LoadModel(bytes.NewBuffer(data))
	vAllocBudget(-1)
	if err != nil {
		vReach("refused")
		return
	}
	vReach("loaded")
	vAssert(m.ModelSize == len(m.Layers), "layer count")
	vAssert(len(m.Optimizers) == len(m.Layers), "one optimizer for every layer")
	if len(data) >= 10 {
		n := int(int8(data[9]))
		vAssert(n < 0 || m.ModelSize == n, "as many layers as the data say")
	}
	last := 0
	for i, l := range m.Layers {
		vAssert(l != nil, "a layer or an error")
		if l == nil {
			return
		}
		in, out := wellFormed(l)
		if i == 0 {
			vAssert(m.InputSize == in, "input size")
		} else {
			vAssert(last == in, "the layers chain together")
		}
		last = out
	}
	vAssert(m.OutputSize == last, "output size")
	k, sz := -1, 0
	switch l := m.Loss.(type) {
	case *nn.MeanSquaredLoss:
		k, sz = kMSE, l.Size
	case *nn.MeanAbsoluteLoss:
		k, sz = kMAE, l.Size
	case *nn.CrossEntropyLoss:
		k, sz = kCE, l.Size
	case *nn.BinaryCrossEntropyLoss:
		k, sz = kBCE, l.Size
	}
	vAssert(k >= 0 && k == int(m.LossType) && sz == last, "the loss is a known one and fits")
	vAssert(m.OptimizerType == nn.SGDOptimizerType || m.OptimizerType == nn.AdamOptimizerType, "the optimizer is a known one")
}

func anyBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vByte("byte")
	}
	return b
}

// Every string of 0..43 bytes as a layer (59 thorough), read by LoadLayer.
//v: time=300 need=loaded,refused
func H_C25_AnyLayer() {
	n := tiered(43, 59)
	loadLayer(anyBytes(n - vPick("shorter", n+1)))
}

// Every string of bytes that starts like a layer and has room for 0..8 (12
// thorough) parameters: any kind, any sizes, any values.
//v: time=300 need=loaded,refused
func H_C25_Layer() {
	data := anyBytes(27 + 8*vPick("room", tiered(9, 13)) + vPick("odd", 2))
	copy(data, "LA")
	loadLayer(data)
}

// Every string of 0..36 bytes as a model (44 thorough).
//v: time=300 need=loaded,refused
func H_C25_AnyModel() {
	n := tiered(36, 44)
	loadModel(anyBytes(n - vPick("shorter", n+1)))
}

// Every string of bytes that starts like a model, with settings of any values,
// any sizes, kinds and counts, and then any bytes, with room for a layer of one
// or two parameters (thorough: two layers).
//v: time=300 need=loaded,refused
func H_C25_Header() {
	w := &writer{}
	w.str("NNML1.0.3")
	w.b = append(w.b, anyBytes(21)...)
	names := []string{"learningRate", "decay", "momentum"}
	if vPick("adam", 2) == 1 {
		names = []string{"learningRate", "decay", "epsilon", "beta1", "beta2"}
	}
	w.b[len(w.b)-1] = byte(len(names))
	for _, n := range names {
		w.byte(byte(len(n)))
		w.str(n)
		w.b = append(w.b, anyBytes(8)...)
	}
	w.b = append(w.b, anyBytes([]int{0, 1, 27, 42, 43, 59, 86, 94}[vPick("rest", tiered(6, 8))])...)
	loadModel(w.b)
}

// valid is a valid model's data: two layers, every kind,
// with SGD or Adam.
func valid(adam bool) []byte {
	k := vPick("kind", 6)
	loss := k % 4
	if vTier() > 0 {
		loss = vPick("loss", 4)
	}
	w := &writer{}
	s, opt := exactSGD(), 0
	if adam {
		s, opt = exactAdam(), 1
	}
	w.header("1.0.3", 2, 2, 1, loss, k%3, 0.5, opt, s.entries(k))
	w.layer(k, 2, 1, 0.25, 0.5, mk([][]float64{{1.0 / 3}, {-5e-9}}), mk([][]float64{{17}}))
	w.layer((k+1)%6, 1, 1, 0.25, 0.5, mk([][]float64{{-0.7}}), mk([][]float64{{1e30}}))
	return w.b
}

// Valid data of a model in which any one byte is replaced by any other.
//v: time=300 need=loaded,refused
func H_C25_Byte() {
	data := valid(vPick("adam", 2) == 1)
	i := vPick("position", len(data))
	data[i] = vByte("byte")
	loadModel(data)
}

// Valid data of a model in which any 4 (8 thorough) bytes in a row are replaced
// by others.
//v: time=400 need=loaded,refused
func H_C25_Window() {
	data := valid(false)
	n := tiered(4, 8)
	i := vPick("position", len(data)-n+1)
	copy(data[i:], anyBytes(n))
	loadModel(data)
}

// Valid data of a model in which all the sizes, kinds and counts are replaced
// by any others.
//v: time=400 need=loaded,refused
func H_C25_Fields() {
	data := valid(false)
	second := len(data) - (27 + 16)
	first := second - (27 + 24)
	switch vPick("what", 3) {
	case 0:
		copy(data[9:], anyBytes(10)) // layer count, sizes, loss
		data[27] = vByte("optimizer")
	case 1:
		copy(data[first+2:], anyBytes(9)) // kind and sizes of the first layer
	case 2:
		copy(data[second+2:], anyBytes(9)) // of the second layer
	}
	loadModel(data)
}

// Settings of any number and names of any length, and 0..40 bytes.
//v: time=300 need=loaded,refused
func H_C25_Settings() {
	w := &writer{}
	w.header("1.0.3", 0, 0, 0, 0, 0, 0.5, 0, nil)
	w.b[len(w.b)-1] = vByte("count")
	w.byte(vByte("length"))
	w.b = append(w.b, anyBytes(10*vPick("more", 3))...)
	loadModel(w.b)
}

// Valid data of a layer of every kind and sizes 1..2, cut short anywhere.
func H_C25_CutLayer() {
	in, out := size("in", 2), size("out", 2)
	w := &writer{}
	w.layer(vPick("kind", 6), in, out, vFloat("slope"), vFloat("rate"), matAny("w", in, out), matAny("b", 1, out))
	n := vPick("length", len(w.b))
	l, err := nn.LoadLayer(bytes.NewBuffer(w.b[:n]))
	vAssert(err != nil, "data cut short gives an error")
	_ = l
}

// Valid data of a model of two layers of every kind, with SGD or Adam, cut
// short anywhere; and without the cut it is loaded.
func H_C25_CutModel() {
	data := valid(vPick("adam", 2) == 1)
	n := vPick("length", len(data)+1)
	_, err := nn.LoadModel(bytes.NewBuffer(data[:n]))
	vAssert((err == nil) == (n == len(data)), "data cut short gives an error")
}

// What the library itself writes for a model, cut short anywhere.
func H_C25_CutSaved() {
	k := vPick("kind", 6)
	ps := symParts([]int{k, (k + 1) % 6}, []int{1, 1, 1})
	m := assemble(ps, kMSE, someSettings(k%3), nn.RegressionAccuracyType, 0.5)
	data := serialized(m, "a model is saved")
	n := vPick("length", len(data))
	_, err := nn.LoadModel(bytes.NewBuffer(data[:n]))
	vAssert(err != nil, "data cut short gives an error")
}

// Valid layers of every kind and of sizes 1..2 that need not fit each other or
// the loss: two or three layers, sizes of the model and of the loss from the first
// and the last layer or not.
//v: need=loaded,refused
func H_C25_Chain() {
	k, n := vPick("kind", 6), 2+vPick("layers", 2)
	in, out := make([]int, n), make([]int, n)
	fits := true
	for i := range in {
		in[i], out[i] = size("in", 2), size("out", 2)
		if i > 0 && in[i] != out[i-1] {
			fits = false
		}
	}
	w := &writer{}
	s := exactSGD()
	w.header("1.0.3", n, in[0], out[n-1], k%4, k%3, 0.5, 0, s.entries(k))
	for i := range in {
		w.layer((k+i)%6, in[i], out[i], 0.25, 0.5, fill(zeros(in[i], out[i]), 0.5), fill(zeros(1, out[i]), 0.25))
	}
	m, err := nn.LoadModel(bytes.NewBuffer(w.b))
	vAssert((err == nil) == fits, "a model is refused exactly when its layers do not fit each other")
	if err == nil {
		vReach("loaded")
		vAssert(m.ModelSize == n && len(m.Layers) == n, "every layer is loaded")
	} else {
		vReach("refused")
	}
}
