package main

import (
	"bytes"
	"math"

	nn "github.com/cubeflix/nn"
)

// writer lays out bytes by hand, little end first.
type writer struct{ b []byte }

func (w *writer) str(s string) { w.b = append(w.b, s...) }
func (w *writer) byte(x byte)  { w.b = append(w.b, x) }

func (w *writer) int32(x int32) {
	for k := 0; k < 4; k++ {
		w.b = append(w.b, byte(uint32(x)>>(8*k)))
	}
}

func (w *writer) float(x float64) {
	u := math.Float64bits(x)
	for k := 0; k < 8; k++ {
		w.b = append(w.b, byte(u>>(8*k)))
	}
}

func (w *writer) matrix(m nn.Matrix) {
	for i := range m.M {
		for j := range m.M[i] {
			w.float(m.M[i][j])
		}
	}
}

// layer lays a layer out as documented in LayerData.md.
func (w *writer) layer(kind, in, out int, slope, rate float64, m, b nn.Matrix) {
	w.str("LA")
	w.byte(byte(kind))
	w.int32(int32(in))
	w.int32(int32(out))
	w.float(slope)
	w.float(rate)
	w.matrix(m)
	w.matrix(b)
}

// entry is one named setting.
type entry struct {
	key string
	val float64
}

// entries are the settings of an optimizer, in some order.
func (s settings) entries(rotate int) []entry {
	e := []entry{{"learningRate", s.rate}, {"decay", s.decay}}
	if s.adam {
		e = append(e, entry{"epsilon", s.epsilon}, entry{"beta1", s.beta1}, entry{"beta2", s.beta2})
	} else {
		e = append(e, entry{"momentum", s.momentum})
	}
	rotate %= len(e)
	return append(append([]entry{}, e[rotate:]...), e[:rotate]...)
}

// header lays out a model up to its layers as documented in ModelData.md.
func (w *writer) header(version string, n, in, out, loss, acc int, precision float64, opt int, es []entry) {
	w.str("NNML")
	w.str(version)
	w.byte(byte(n))
	w.int32(int32(in))
	w.int32(int32(out))
	w.byte(byte(loss))
	w.byte(byte(acc))
	w.float(precision)
	w.byte(byte(opt))
	w.byte(byte(len(es)))
	for _, e := range es {
		w.byte(byte(len(e.key)))
		w.str(e.key)
		w.float(e.val)
	}
}

// sameBytes claims that two byte strings are equal.
func sameBytes(a, b []byte, label string) bool {
	vAssert(len(a) == len(b), label+" (length)")
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	vAssert(ok, label)
	return ok
}

// details are the public fields of a layer.
func details(l nn.Layer) (kind, in, out int, slope, rate float64, w, b *nn.Matrix) {
	switch x := l.(type) {
	case *nn.HiddenLayer:
		return kHidden, x.InputSize, x.OutputSize, 0, 0, x.Weights, x.Biases
	case *nn.LinearLayer:
		return kLinear, x.InputSize, x.OutputSize, 0, 0, x.Weights, x.Biases
	case *nn.SigmoidLayer:
		return kSigmoid, x.InputSize, x.OutputSize, 0, 0, x.Weights, x.Biases
	case *nn.LeakyLayer:
		return kLeaky, x.InputSize, x.OutputSize, x.Slope, 0, x.Weights, x.Biases
	case *nn.SoftmaxLayer:
		return kSoftmax, x.InputSize, x.OutputSize, 0, 0, x.Weights, x.Biases
	case *nn.DropoutLayer:
		return kDropout, x.InputSize, x.OutputSize, 0, x.Dropout, x.Weights, x.Biases
	}
	return -1, 0, 0, 0, 0, nil, nil
}

// isLayer claims that a layer is exactly of the kind and holds exactly the
// values given.
func isLayer(l nn.Layer, kind int, slope, rate float64, w, b nn.Matrix, label string) bool {
	k, in, out, s, d, lw, lb := details(l)
	ok := k == kind && in == w.Rows && out == w.Cols && lw != nil && lb != nil
	vAssert(ok, label+" (kind and sizes)")
	if !ok {
		return false
	}
	if kind == kLeaky {
		vSame(s, slope, label+" (slope)")
	}
	if kind == kDropout {
		vSame(d, rate, label+" (dropout)")
	}
	same(*lw, w, label+" (weights)")
	same(*lb, b, label+" (biases)")
	return true
}

// saved is what is written for a layer.
func saved(l nn.Layer, label string) []byte {
	d := nn.NewSavedLayerData(l)
	var buf bytes.Buffer
	vAssert(d.SerializeLayer(&buf) == nil, label)
	return buf.Bytes()
}

// setParams fills the parameters of a layer with numbers of any kind.
func setParams(w, b *nn.Matrix) {
	for _, m := range []*nn.Matrix{w, b} {
		for i := range m.M {
			for j := range m.M[i] {
				m.M[i][j] = vFloat("p")
			}
		}
	}
}
