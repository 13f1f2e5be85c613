package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

func one(c bool) int {
	n := 0
	if c {
		n = 1
	}
	return n
}

// hit tells whether a prediction thresholded at one half equals its label.
func hit(p, y float64) int {
	want, n := 0.0, 0
	if p >= 0.5 {
		want = 1
	}
	if y == want {
		n = 1
	}
	return n
}

// shapes of predictions with up to 6 elements, and a few larger ones.
func shape28() (int, int) {
	s := [][]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {1, 5}, {5, 1}, {1, 9}, {9, 1}, {4, 4}, {17, 1}, {3, 11}}
	t := s[vPick("shape", tiered(10, 13))]
	return t[0], t[1]
}

// Regression accuracy of 1x1 to 3x2, 1x9 and 9x1 predictions (thorough: 4x4,
// 17x1, 3x11), any numbers and any precision but NaN.
func H_C28_Regression() {
	r, c := shape28()
	p, y := mat("p", r, c), mat("y", r, c)
	prec := vFloat("precision")
	vAssume(prec == prec)
	cp, cy := clone(p), clone(y)
	acc := nn.RegressionAccuracy(p, y, prec)
	n := 0
	for i := range p.M {
		for j := range p.M[i] {
			n += one(math.Abs(p.M[i][j]-y.M[i][j]) < prec)
		}
	}
	vEq(acc, float64(n)/float64(r*c), "the fraction of elements with an error below the precision")
	same(p, cp, "predictions unchanged")
	same(y, cy, "labels unchanged")
}

// An error that is exactly the precision does not count, one just below does.
func H_C28_Edge() {
	d := []float64{0, 1, 0.25, 1e-7, 1e300}[vPick("d", 5)]
	p := mk([][]float64{{d, -d, 0, math.Nextafter(d, -1)}})
	y := mk([][]float64{{0, 0, d, 0}})
	want := 0.0
	if d > 0 {
		want = 0.25
	}
	vSame(nn.RegressionAccuracy(p, y, d), want, "only errors below the precision count")
}

// Categorical accuracy of 1..3 rows of 1..3 classes, 1x9, 9x1 (thorough: also
// 4x4, 3x11), any finite predictions, one-hot labels of every class.
//v: mode=R
func H_C28_Categorical() {
	r, c := shape28()
	if r > 4 {
		vAssume(c == 1)
	}
	p, y := mat("p", r, c), zeros(r, c)
	lo, hi := 0, 0
	for i := range y.M {
		k := vPick("label", c)
		y.M[i][k] = 1
		above, atLeast := true, true
		for j := range p.M[i] {
			if j != k {
				above = above && p.M[i][k] > p.M[i][j]
				atLeast = atLeast && p.M[i][k] >= p.M[i][j]
			}
		}
		lo += one(above)
		hi += one(atLeast)
	}
	cp, cy := clone(p), clone(y)
	acc := nn.CategoricalAccuracy(p, y)
	right, m := 0, nn.RowMax(cp)
	for i := range cy.M {
		for j := range cy.M[i] {
			if cy.M[i][j] == 1 {
				right += one(m.M[i][0] == float64(j))
			}
		}
	}
	vEq(acc, float64(right)/float64(r), "the fraction of rows predicted right")
	vAssert(right >= lo, "rows with the largest prediction at the label count")
	vAssert(right <= hi, "rows with a larger prediction elsewhere do not count")
	same(p, cp, "predictions unchanged")
	same(y, cy, "labels unchanged")
}

// Binary accuracy of the shapes of regression accuracy, any finite predictions
// and any labels.
func H_C28_Binary() {
	r, c := shape28()
	p, y := mat("p", r, c), mat("y", r, c)
	cp, cy := clone(p), clone(y)
	acc := nn.BinaryCategoricalAccuracy(p, y)
	n := 0
	for i := range cp.M {
		for j := range cp.M[i] {
			n += hit(cp.M[i][j], cy.M[i][j])
		}
	}
	vEq(acc, float64(n)/float64(r*c), "the fraction of elements predicted right")
	same(p, cp, "predictions unchanged")
	same(y, cy, "labels unchanged")
}

// A finalized model reports its own metric of its own outputs: every last
// layer kind, every accuracy kind, 1..2 samples, any precision.
func H_C28_Model() {
	k, acc, rows := vPick("kind", 6), vPick("accuracy", 3), size("rows", 2)
	ps := symParts([]int{kLinear, k}, []int{1, 1, 2})
	prec := vFinite("precision")
	vAssume(prec >= 0)
	m := assemble(ps, vPick("loss", tiered(2, 4)), exactSGD(), nn.AccuracyType(acc), prec)
	x, y := mat("x", rows, 1), zeros(rows, 2)
	for i := range y.M {
		y.M[i][vPick("label", 2)] = 1
	}
	cy := clone(y)
	outs := plain(ps, snapshot(ps), x)
	out := outs[len(outs)-1]
	got, err := m.CalculateAccuracy(x, y)
	vAssert(err == nil, "accuracy")
	var want float64
	switch acc {
	case 0:
		want = nn.RegressionAccuracy(out, cy, prec)
	case 1:
		want = nn.CategoricalAccuracy(out, cy)
	default:
		want = nn.BinaryCategoricalAccuracy(out, cy)
	}
	vEq(got, want, "the model reports the metric it was finalized with")
	same(y, cy, "labels unchanged")
}

// Hundreds of elements: 300x1, 1x300 and 70x5, all predicted right or wrong but for
// two of any finite values; every metric.
func H_C28_Hundreds() {
	s := pick("shape", []int{300, 1}, []int{1, 300}, []int{70, 5})
	r, c := s[0], s[1]
	right := vPick("right", 2) == 1
	p, y := zeros(r, c), zeros(r, c)
	for i := range p.M {
		for j := range p.M[i] {
			y.M[i][j] = float64((i + j) % 2)
			p.M[i][j] = y.M[i][j]
			if !right {
				p.M[i][j] = 1 - y.M[i][j]
			}
		}
	}
	p.M[0][0], p.M[r-1][c-1] = vFinite("p"), vFinite("p")
	n, k := 0, 0
	for i := range p.M {
		for j := range p.M[i] {
			n += one(math.Abs(p.M[i][j]-y.M[i][j]) < 0.5)
			k += hit(p.M[i][j], y.M[i][j])
		}
	}
	vEq(nn.RegressionAccuracy(p, y, 0.5), float64(n)/float64(r*c), "the fraction of elements with an error below the precision")
	vEq(nn.BinaryCategoricalAccuracy(p, y), float64(k)/float64(r*c), "the fraction of elements predicted right")
}

// Hundreds of rows, 300x2: all predicted right or wrong but for two of any values.
//v: mode=R
func H_C28_HundredRows() {
	r := 300
	right := vPick("right", 2)
	p, y := zeros(r, 2), zeros(r, 2)
	for i := range p.M {
		y.M[i][i%2] = 1
		p.M[i][(i+1+right)%2] = 1
	}
	n := (r - 2) * right
	for _, i := range []int{0, r - 1} {
		p.M[i][0], p.M[i][1] = vFinite("p"), vFinite("p")
		vAssume(p.M[i][0] != p.M[i][1])
		n += one(p.M[i][i%2] > p.M[i][(i+1)%2])
	}
	vEq(nn.CategoricalAccuracy(p, y), float64(n)/float64(r), "the fraction of rows predicted right")
}
