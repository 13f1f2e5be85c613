package main

func c05shape() (int, int) {
	s := pick("shape", []int{1, 1}, []int{1, 2}, []int{2, 1}, []int{2, 2}, []int{2, 3}, []int{3, 2}, []int{3, 3}, []int{1, 5}, []int{5, 1}, []int{4, 3}, []int{9, 2}, []int{2, 17}, []int{6, 6}, []int{33, 1})
	return s[0], s[1]
}

// T on fourteen shapes up to 9x2, 2x17, 6x6 and 33x1, every element any float64.
func H_C05_Transpose() {
	r, c := c05shape()
	a := matAny("a", r, c)
	w := clone(a)
	t := a.T()
	same(a, w, "operand unchanged")
	if !shape(t, c, r, "transpose shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vSame(t.M[j][i], w.M[i][j], "transpose element")
		}
	}
	apart(t, a, "result has its own storage")
	rowsApart(t, "result rows have their own storage")
	same(t.T(), w, "transposing twice gives the original")
}

// Sum over both axes on the same shapes, every element any finite number.
func H_C05_Sum() {
	r, c := c05shape()
	a := mat("a", r, c)
	w := clone(a)
	if vPick("axis", 2) == 0 {
		s := a.Sum(0)
		if shape(s, 1, c, "shape of the column sums") {
			for j := 0; j < c; j++ {
				t := float64(0)
				for i := 0; i < r; i++ {
					t += w.M[i][j]
				}
				vEq(s.M[0][j], t, "column sum")
			}
		}
		apart(s, a, "result has its own storage")
	} else {
		s := a.Sum(1)
		if shape(s, 1, r, "shape of the row sums") {
			for i := 0; i < r; i++ {
				t := float64(0)
				for j := 0; j < c; j++ {
					t += w.M[i][j]
				}
				vEq(s.M[0][i], t, "row sum")
			}
		}
		apart(s, a, "result has its own storage")
	}
	same(a, w, "operand unchanged")
}

// Transposes and sums of seven larger shapes up to 300x1, 1x300 and 18x18.
func H_C05_Long() {
	r, c := longShapes()
	a := mat("a", r, c)
	w := clone(a)
	switch vPick("op", 3) {
	case 0:
		t := a.T()
		if shape(t, c, r, "transpose shape") {
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					vSame(t.M[j][i], w.M[i][j], "transpose element")
				}
			}
		}
		scribbled(t, "result rows have their own storage")
	case 1:
		s := a.Sum(0)
		if shape(s, 1, c, "shape of the column sums") {
			for j := 0; j < c; j++ {
				t := float64(0)
				for i := 0; i < r; i++ {
					t += w.M[i][j]
				}
				vEq(s.M[0][j], t, "column sum")
			}
		}
		scribbled(s, "result rows have their own storage")
	default:
		s := a.Sum(1)
		if shape(s, 1, r, "shape of the row sums") {
			for i := 0; i < r; i++ {
				t := float64(0)
				for j := 0; j < c; j++ {
					t += w.M[i][j]
				}
				vEq(s.M[0][i], t, "row sum")
			}
		}
		scribbled(s, "result rows have their own storage")
	}
	same(a, w, "operand unchanged")
}

// Transposes and sums of matrices of more than a thousand elements, the first,
// middle and last of any value.
func H_C05_Bulk() {
	r, c := bulkShapes()
	a := bulk("a", r, c)
	w := clone(a)
	t, rows, cols := a.T(), a.Sum(1), a.Sum(0)
	if shape(t, c, r, "transpose shape") {
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				vSame(t.M[j][i], w.M[i][j], "transpose element")
			}
		}
	}
	if shape(cols, 1, c, "shape of the column sums") {
		for j := 0; j < c; j++ {
			s := float64(0)
			for i := 0; i < r; i++ {
				s += w.M[i][j]
			}
			vEq(cols.M[0][j], s, "column sum")
		}
	}
	if shape(rows, 1, r, "shape of the row sums") {
		for i := 0; i < r; i++ {
			s := float64(0)
			for j := 0; j < c; j++ {
				s += w.M[i][j]
			}
			vEq(rows.M[0][i], s, "row sum")
		}
	}
	scribbled(t, "result rows have their own storage")
	same(a, w, "operand unchanged")
}
