package main

import nn "github.com/cubeflix/nn"

// NewMatrix: every non-positive int dimension, and 1..4 by 1..4 (7 by 7 thorough).
func H_C02_New() {
	max := tiered(4, 7)
	r, c := dim("rows", max), dim("cols", max)
	m, err := nn.NewMatrix(r, c)
	vAssert((err == nil) == (r > 0 && c > 0), "NewMatrix refuses exactly the non-positive dimensions")
	if err != nil {
		return
	}
	if !shape(m, r, c, "NewMatrix shape") {
		return
	}
	rowsApart(m, "rows share no storage")
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vSame(m.M[i][j], 0, "new elements are zero")
		}
	}
	// stores through the public interface go to one element each
	i, j := vPick("i", r), vPick("j", c)
	x := vFloat("x")
	vAssert(m.Set(i, j, x) == nil, "Set works on a new matrix")
	for k := 0; k < r; k++ {
		for l := 0; l < c; l++ {
			v, err := m.Get(k, l)
			vAssert(err == nil, "Get works on a new matrix")
			if k == i && l == j {
				vSame(v, x, "the stored element")
			} else {
				vSame(v, 0, "the other elements stay zero")
			}
		}
	}
}

// Dimensions beyond the small ones: fixed larger shapes.
func H_C02_NewLarge() {
	s := pick("shape", []int{1, 40}, []int{40, 1}, []int{17, 9}, []int{8, 33}, []int{300, 2}, []int{2, 300}, []int{70, 70}, []int{1100, 1}, []int{1, 1100})
	m, err := nn.NewMatrix(s[0], s[1])
	vAssert(err == nil, "NewMatrix accepts positive dimensions")
	if !shape(m, s[0], s[1], "NewMatrix shape") {
		return
	}
	for i := range m.M {
		m.M[i][0] = float64(i + 1)
		m.M[i][s[1]-1] = float64(i + 1)
	}
	for i := range m.M {
		vAssert(m.M[i][0] == float64(i+1) && m.M[i][s[1]-1] == float64(i+1), "rows share no storage")
		for j := 1; j < s[1]-1; j++ {
			vSame(m.M[i][j], 0, "new elements are zero")
		}
	}
}

// NewMatrixFromSlice: 0..3 rows (4 thorough), each of its own length 0..3, nil
// rows included, every element any float64.
func H_C02_FromSlice() {
	n := vPick("rows", tiered(4, 5))
	s := make([][]float64, n)
	ok := n > 0
	for i := range s {
		l := vPick("length", 5)
		if l == 4 {
			ok = false // a nil row
			continue
		}
		s[i] = make([]float64, l)
		for j := range s[i] {
			s[i][j] = vFloat("e")
		}
		ok = ok && l > 0 && l == len(s[0])
	}
	if n == 0 && vPick("nil", 2) == 1 {
		s = nil
	}
	w := make([][]float64, n)
	for i := range w {
		w[i] = make([]float64, len(s[i]))
		copy(w[i], s[i])
	}
	m, err := nn.NewMatrixFromSlice(s)
	vAssert((err == nil) == ok, "NewMatrixFromSlice refuses exactly the slices that are no matrix")
	if err == nil && ok {
		same(m, mk(w), "NewMatrixFromSlice elements")
		vReach("accepted")
	}
	for i := range s {
		vAssert(len(s[i]) == len(w[i]), "the slices keep their lengths")
		for j := range w[i] {
			vSame(s[i][j], w[i][j], "the slices keep their elements")
		}
	}
}

// NewMatrixFromSlice: 9, 20, 70 or 300 rows of 1..2 elements of which none or any one
// of five is longer, shorter, empty or nil.
func H_C02_Long() {
	n, c := []int{9, 20, 70, 300}[vPick("rows", 4)], size("cols", 2)
	s := make([][]float64, n)
	at := []int{-1, 0, 1, n / 2, n - 2, n - 1}[vPick("odd", 6)]
	for i := range s {
		l := c
		if i == at {
			l = []int{c + 1, c - 1, 0}[vPick("length", 3)]
			if l == 0 && vPick("nil", 2) == 1 {
				continue
			}
		}
		s[i] = make([]float64, l)
		for j := range s[i] {
			s[i][j] = vFloat("e")
		}
	}
	m, err := nn.NewMatrixFromSlice(s)
	vAssert((err == nil) == (at < 0), "NewMatrixFromSlice refuses exactly the slices that are no matrix")
	if err == nil && at < 0 {
		same(m, mk(s), "NewMatrixFromSlice elements")
	}
}
