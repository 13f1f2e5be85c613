package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

const maxInt = math.MaxInt64
const minInt = math.MinInt64

// ---- building inputs

// rows of symbolic finite numbers
func vRows(name string, r, c int) [][]float64 {
	m := make([][]float64, r)
	for i := range m {
		m[i] = make([]float64, c)
		for j := range m[i] {
			m[i][j] = vFinite(name)
		}
	}
	return m
}

// rows of symbolic numbers of any kind, NaN and infinities included
func vAnyRows(name string, r, c int) [][]float64 {
	m := make([][]float64, r)
	for i := range m {
		m[i] = make([]float64, c)
		for j := range m[i] {
			m[i][j] = vFloat(name)
		}
	}
	return m
}

func mk(rows [][]float64) nn.Matrix {
	return nn.Matrix{Rows: len(rows), Cols: len(rows[0]), M: rows}
}

func mat(name string, r, c int) nn.Matrix    { return mk(vRows(name, r, c)) }
func matAny(name string, r, c int) nn.Matrix { return mk(vAnyRows(name, r, c)) }

func zeros(r, c int) nn.Matrix {
	m := make([][]float64, r)
	for i := range m {
		m[i] = make([]float64, c)
	}
	return mk(m)
}

func fill(m nn.Matrix, v float64) nn.Matrix {
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = v
		}
	}
	return m
}

func clone(m nn.Matrix) nn.Matrix {
	r := make([][]float64, len(m.M))
	for i := range r {
		r[i] = make([]float64, len(m.M[i]))
		copy(r[i], m.M[i])
	}
	return nn.Matrix{Rows: m.Rows, Cols: m.Cols, M: r}
}

// ---- claims about matrices

// shape claims that m is a well-formed r by c matrix.
func shape(m nn.Matrix, r, c int, label string) bool {
	ok := m.Rows == r && m.Cols == c && len(m.M) == r
	for i := 0; i < len(m.M); i++ {
		ok = ok && len(m.M[i]) == c
	}
	vAssert(ok, label)
	return ok
}

// same claims that m has exactly the shape and elements of w, bit for bit.
func same(m, w nn.Matrix, label string) {
	if !shape(m, w.Rows, w.Cols, label+" (shape)") {
		return
	}
	for i := range w.M {
		for j := range w.M[i] {
			vSame(m.M[i][j], w.M[i][j], label)
		}
	}
}

// close claims that m equals w up to rounding.
func near(m, w nn.Matrix, label string) {
	if !shape(m, w.Rows, w.Cols, label+" (shape)") {
		return
	}
	for i := range w.M {
		for j := range w.M[i] {
			vEq(m.M[i][j], w.M[i][j], label)
		}
	}
}

// apart claims that two matrices share no storage.
func apart(a, b nn.Matrix, label string) {
	ok := true
	for i := range a.M {
		for j := range b.M {
			for k := range a.M[i] {
				for l := range b.M[j] {
					if &a.M[i][k] == &b.M[j][l] {
						ok = false
					}
				}
			}
		}
	}
	vAssert(ok, label)
}

// rowsApart claims that no two rows of a matrix share storage.
func rowsApart(a nn.Matrix, label string) {
	ok := true
	for i := range a.M {
		for j := 0; j < i; j++ {
			for k := range a.M[i] {
				for l := range a.M[j] {
					if &a.M[i][k] == &a.M[j][l] {
						ok = false
					}
				}
			}
		}
	}
	vAssert(ok, label)
}

// unit is a matrix of any numbers from -1 to 1.
func unit(name string, r, c int) nn.Matrix {
	m := mat(name, r, c)
	for i := range m.M {
		for j := range m.M[i] {
			vGiven(m.M[i][j] >= -1 && m.M[i][j] <= 1)
		}
	}
	return m
}

// longShapes are shapes past the block sizes of blocked, unrolled or split loops.
func longShapes() (int, int) {
	s := pick("shape", []int{1, 70}, []int{70, 1}, []int{2, 130}, []int{130, 2}, []int{1, 300}, []int{300, 1}, []int{18, 18})
	return s[0], s[1]
}

// scribbled overwrites every element of a matrix and claims that each keeps its own
// value.
func scribbled(m nn.Matrix, label string) {
	n := float64(0)
	for i := range m.M {
		for j := range m.M[i] {
			n++
			m.M[i][j] = n
		}
	}
	n = 0
	ok := true
	for i := range m.M {
		for j := range m.M[i] {
			n++
			ok = ok && m.M[i][j] == n
		}
	}
	vAssert(ok, label)
}

func isFinite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func size(name string, max int) int { return 1 + vPick(name, max) }

// tiered picks a bound by tier.
func tiered(quick, thorough int) int {
	if vTier() > 0 {
		return thorough
	}
	return quick
}

// dim picks a dimension: any non-positive int, or 1..max.
func dim(name string, max int) int {
	if vPick(name+" ok", 2) == 0 {
		return vInt(name, minInt, 0)
	}
	return size(name, max)
}

// pick chooses one of the listed shapes.
func pick(name string, shapes ...[]int) []int { return shapes[vPick(name, len(shapes))] }

// ---- layers

const (
	kHidden = iota
	kLinear
	kSigmoid
	kLeaky
	kSoftmax
	kDropout
)

// newLayer makes a layer of the given kind; the parameters are still zero.
func newLayer(kind, in, out int, slope, rate float64) (nn.Layer, *nn.Matrix, *nn.Matrix, error) {
	switch kind {
	case kHidden:
		l, err := nn.NewLayer(in, out)
		return &l, l.Weights, l.Biases, err
	case kLinear:
		l, err := nn.NewLinearLayer(in, out)
		return &l, l.Weights, l.Biases, err
	case kSigmoid:
		l, err := nn.NewSigmoidLayer(in, out)
		return &l, l.Weights, l.Biases, err
	case kLeaky:
		l, err := nn.NewLeakyLayer(in, out, slope)
		return &l, l.Weights, l.Biases, err
	case kSoftmax:
		l, err := nn.NewSoftmaxLayer(in, out)
		return &l, l.Weights, l.Biases, err
	default:
		l, err := nn.NewDropoutLayer(in, out, rate)
		return &l, l.Weights, l.Biases, err
	}
}

// symLayer makes a layer with symbolic parameters.
func symLayer(kind, in, out int, slope, rate float64) (nn.Layer, *nn.Matrix, *nn.Matrix) {
	l, w, b, err := newLayer(kind, in, out, slope, rate)
	vAssert(err == nil, "a layer of positive size is created")
	for i := range w.M {
		for j := range w.M[i] {
			w.M[i][j] = vFinite("w")
		}
	}
	for j := range b.M[0] {
		b.M[0][j] = vFinite("b")
	}
	return l, w, b
}

// affine is xw + b.
func affine(x, w, b nn.Matrix) nn.Matrix {
	z := zeros(x.Rows, w.Cols)
	for i := range z.M {
		for j := range z.M[i] {
			z.M[i][j] = product(i, j, x.M, w.M) + b.M[0][j]
		}
	}
	return z
}

func logistic(z float64) float64 { return 1 / (1 + math.Exp(-z)) }

// activate is the activation of a layer kind, when nothing is dropped.
func activate(kind int, z nn.Matrix, slope float64) nn.Matrix {
	a := clone(z)
	for i := range a.M {
		switch kind {
		case kHidden, kDropout:
			for j := range a.M[i] {
				if z.M[i][j] < 0 {
					a.M[i][j] = 0
				}
			}
		case kSigmoid:
			for j := range a.M[i] {
				a.M[i][j] = logistic(z.M[i][j])
			}
		case kLeaky:
			for j := range a.M[i] {
				if z.M[i][j] < 0 {
					a.M[i][j] = z.M[i][j] * slope
				}
			}
		case kSoftmax:
			s := float64(0)
			for j := range a.M[i] {
				s += math.Exp(z.M[i][j])
			}
			for j := range a.M[i] {
				a.M[i][j] = math.Exp(z.M[i][j]) / s
			}
		}
	}
	return a
}

// infer is a layer's forward pass outside training.
func infer(l nn.Layer, x nn.Matrix) (nn.Matrix, error) {
	if d, ok := l.(*nn.DropoutLayer); ok {
		return d.ForwardNoDropout(x)
	}
	return l.Forward(x)
}

// product is an element of a matrix product by definition.
func product(i, j int, a, b [][]float64) float64 {
	s := float64(0)
	for k := range b {
		s += a[i][k] * b[k][j]
	}
	return s
}

// freshSeeds claims that no two of the seeds used from the given one on agree,
// so that no random sequence is replayed.
func freshSeeds(from int, label string) {
	for i := from; i < vSeeds(); i++ {
		for j := from; j < i; j++ {
			vAssert(!vSeedSame(i, j), label)
		}
	}
}

// bulk is a matrix of small numbers of either sign, zero included, of which the
// first, a middle and the last are any finite numbers.
func bulk(name string, r, c int) nn.Matrix {
	m := given(r, c)
	m.M[0][0], m.M[r/2][c/2], m.M[r-1][c-1] = vFinite(name), vFinite(name), vFinite(name)
	return m
}

// given is a matrix of small numbers of either sign, zero included.
func given(r, c int) nn.Matrix {
	m := zeros(r, c)
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = float64((7*i+5*j)%13-6) / 8
		}
	}
	return m
}

// bulkShapes are shapes with more than a thousand elements.
func bulkShapes() (int, int) {
	s := pick("shape", []int{1, 1100}, []int{1100, 1}, []int{40, 40}, []int{600, 2}, []int{2, 600})
	return s[0], s[1]
}

// bulkLayers are batch sizes, inputs and outputs of which some are large.
func bulkLayers() (int, int, int) {
	s := pick("shape", []int{300, 2, 2}, []int{2, 300, 2}, []int{2, 2, 300}, []int{40, 40, 40}, []int{1, 1100, 1}, []int{1, 1, 1100}, []int{1100, 1, 1})
	return s[0], s[1], s[2]
}
