package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// shape29 picks shapes of 1..3 rows and 1..4 columns, and a few larger ones.
func shape29() (int, int) {
	if k := vPick("large", tiered(4, 7)); k > 0 {
		t := [][]int{{1, 9}, {7, 1}, {2, 5}, {1, 12}, {2, 7}, {10, 2}}[k-1]
		return t[0], t[1]
	}
	return size("rows", 3), size("cols", 4)
}

// The row maximum of 1..3 rows of 1..4 columns, 1x9, 7x1, 2x5 (thorough: 1x12,
// 2x7, 10x2) of any finite numbers.
//v: mode=R
func H_C29_RowMax() {
	r, c := shape29()
	x := mat("x", r, c)
	w := clone(x)
	m := nn.RowMax(x)
	same(x, w, "input unchanged")
	if !shape(m, r, 1, "one index per row") {
		return
	}
	for i := range w.M {
		found := 0
		for k := 0; k < c; k++ {
			if m.M[i][0] != float64(k) {
				continue
			}
			found++
			for j := 0; j < c; j++ {
				vAssert(w.M[i][k] >= w.M[i][j], "the index of the largest value")
				vAssert(j >= k || w.M[i][k] > w.M[i][j], "the first such index")
			}
		}
		vAssert(found == 1, "an index within the row")
	}
	apart(m, x, "the result shares no storage with the input")
}

// All values negative, infinite ones included, or all equal.
func H_C29_Negative() {
	c := size("cols", 4)
	x := zeros(1, c)
	for j := range x.M[0] {
		x.M[0][j] = vFloat("x")
		vAssume(x.M[0][j] < 0)
	}
	if vPick("equal", 2) == 1 {
		for j := range x.M[0] {
			x.M[0][j] = x.M[0][0]
		}
	}
	w := clone(x)
	m := nn.RowMax(x)
	if !shape(m, 1, 1, "one index per row") {
		return
	}
	for k := 0; k < c; k++ {
		if m.M[0][0] == float64(k) {
			for j := 0; j < c; j++ {
				vAssert(w.M[0][k] >= w.M[0][j], "the largest value")
				vAssert(j >= k || w.M[0][k] > w.M[0][j], "the first one")
			}
			return
		}
	}
	vAssert(false, "an index within the row")
}

// Labels of every integer within the range, 1..3 rows with 1..2 columns of which
// the first counts, sizes 1..4 (also 9, 17), and back.
func H_C29_OneHot() {
	r, n := size("rows", 3), []int{1, 2, 3, 4, 9, 17}[vPick("size", 6)]
	if n > 4 {
		vAssume(r == 1)
	}
	x := mat("x", r, size("cols", 2))
	for i := range x.M {
		x.M[i][0] = float64(vPick("label", n))
	}
	w := clone(x)
	h, err := nn.SparseToOneHot(x, n)
	vAssert(err == nil, "labels within the range are accepted")
	same(x, w, "input unchanged")
	if err != nil || !shape(h, r, n, "one row per label") {
		return
	}
	for i := range h.M {
		for j := range h.M[i] {
			vSame(h.M[i][j], b2f29(w.M[i][0] == float64(j)), "a single 1 at the label")
		}
	}
	rowsApart(h, "rows share no storage")
	m := nn.RowMax(h)
	for i := range w.M {
		vSame(m.M[i][0], w.M[i][0], "the row maximum gives back the label")
	}
}

func b2f29(c bool) float64 {
	v := 0.0
	if c {
		v = 1
	}
	return v
}

// Labels of any value that is not an integer within the range, and sizes of
// every int up to 5: nothing crashes and what is out of range is refused; two
// rows, the other being in the range.
func H_C29_Range() {
	n := vInt("size", minInt, 5)
	x := zeros(2, 1)
	k := vPick("row", 2)
	v := vFloat("label")
	x.M[k][0] = v
	h, err := nn.SparseToOneHot(x, n)
	in := false
	for j := 0; j < 5; j++ {
		in = in || j < n && v == float64(j)
	}
	if in {
		vAssert(err == nil, "labels within the range are accepted")
	}
	if n < 1 || v != v || v <= -1 || v >= float64(n) {
		vAssert(err != nil, "labels outside the range and sizes below one are refused")
	}
	if err == nil {
		shape(h, 2, n, "one row per label")
	}
}

// Thresholding of 1..3 rows of 1..4 columns, 1x9, 7x1, 2x5 (thorough: 1x12,
// 2x7, 10x2) of any numbers but NaN.
func H_C29_Threshold() {
	r, c := shape29()
	x := matAny("x", r, c)
	for i := range x.M {
		for j := range x.M[i] {
			vGiven(x.M[i][j] == x.M[i][j])
		}
	}
	w := clone(x)
	o := nn.OutputBinaryValues(x)
	same(x, w, "input unchanged")
	if !shape(o, r, c, "shape") {
		return
	}
	for i := range w.M {
		for j := range w.M[i] {
			if w.M[i][j] < 0.5 {
				vSame(o.M[i][j], 0, "values below one half give 0")
			} else {
				vSame(o.M[i][j], 1, "all others give 1")
			}
		}
	}
	apart(o, x, "the result shares no storage with the input")
	rowsApart(o, "rows share no storage")
}

// The values right at and next to one half.
func H_C29_Half() {
	o := nn.OutputBinaryValues(mk([][]float64{{0.5, 0.49999999999999994, 0.5000000000000001, 0, 1, -1, 0.75, 0.25}}))
	same(o, mk([][]float64{{1, 0, 1, 0, 1, 0, 1, 0}}), "one half and above give 1")
}

// The row maximum of 1..2 rows of 1..4 columns in IEEE arithmetic: any numbers but
// NaN, as close together as they may be.
//v: real=no
func H_C29_Exact() {
	r, c := size("rows", 2), size("cols", 4)
	x := matAny("x", r, c)
	for i := range x.M {
		for j := range x.M[i] {
			vAssume(x.M[i][j] == x.M[i][j])
		}
	}
	w := clone(x)
	m := nn.RowMax(x)
	if !shape(m, r, 1, "one index per row") {
		return
	}
	for i := range w.M {
		k := vConc(int(m.M[i][0]))
		ok := k >= 0 && k < c && m.M[i][0] == float64(k)
		vAssert(ok, "an index within the row")
		if !ok {
			continue
		}
		for j := 0; j < c; j++ {
			vAssert(w.M[i][k] >= w.M[i][j], "the index of the largest value")
			vAssert(j >= k || w.M[i][k] > w.M[i][j], "the first such index")
		}
	}
}

// Labels right below a size, above -1 or between integers, sizes 1..4, 9 and 300:
// nothing crashes; labels from the size on and up to -1 are refused.
func H_C29_Next() {
	n := []int{1, 2, 3, 4, 9, 300}[vPick("size", 6)]
	f := float64(n)
	v := []float64{math.Nextafter(f, 0), f - 1e-12, f - 1e-7, f - 0.5, f, math.Nextafter(f, 1000), math.Nextafter(f-1, 0), math.Nextafter(f-1, 1000),
		-0.5, math.Nextafter(-1, 0), -1, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1e300, -1e300, 9223372036854775808, -9223372036854775808}[vPick("label", 19)]
	x := zeros(2, 1)
	x.M[vPick("row", 2)][0] = v
	h, err := nn.SparseToOneHot(x, n)
	if v != v || v <= -1 || v >= f {
		vAssert(err != nil, "labels outside the range are refused")
	}
	if err != nil {
		return
	}
	shape(h, 2, n, "one row per label")
	for i := range h.M {
		count := 0
		for j := range h.M[i] {
			if h.M[i][j] == 1 {
				count++
			}
		}
		vAssert(count == 1, "a single 1 per row")
	}
}

// Labels and classes by the hundreds: 300 labels of 300 classes, and back.
func H_C29_Hundreds() {
	n := 300
	x := zeros(n, 1)
	for i := range x.M {
		x.M[i][0] = float64(n - 1 - i)
	}
	h, err := nn.SparseToOneHot(x, n)
	vAssert(err == nil, "labels within the range are accepted")
	if err != nil || !shape(h, n, n, "one row per label") {
		return
	}
	m := nn.RowMax(h)
	for i := range h.M {
		s := 0.0
		for j := range h.M[i] {
			s += h.M[i][j]
		}
		vSame(s, 1, "a single 1 at the label")
		vSame(m.M[i][0], float64(n-1-i), "the row maximum gives back the label")
	}
}
