package main



// Get and Set on matrices up to 3x3 (4x4 thorough), every element any float64
// (NaN and infinities included), every pair of int indices.
func H_C01_GetSet() {
	r, c := size("rows", tiered(3, 4)), size("cols", tiered(3, 4))
	m := matAny("m", r, c)
	w := clone(m)
	row, col := vInt("row", minInt, maxInt), vInt("col", minInt, maxInt)
	in := row >= 0 && row < r && col >= 0 && col < c
	v, err := m.Get(row, col)
	vAssert((err == nil) == in, "Get refuses exactly the indices outside")
	if err == nil {
		vSame(v, w.M[row][col], "Get value")
	}
	same(m, w, "Get changes nothing")
	x := vFloat("x")
	err = m.Set(row, col, x)
	vAssert((err == nil) == in, "Set refuses exactly the indices outside")
	if err == nil {
		w.M[row][col] = x
		v, err = m.Get(row, col)
		vAssert(err == nil, "Get after Set")
		vSame(v, x, "Get returns what Set stored")
	}
	same(m, w, "Set changes that element only")
}

// GetRow and GetColumn, every int index.
func H_C01_RowColumn() {
	r, c := size("rows", tiered(3, 4)), size("cols", tiered(3, 4))
	m := matAny("m", r, c)
	w := clone(m)
	k := vInt("index", minInt, maxInt)
	if vPick("axis", 2) == 0 {
		s, err := m.GetRow(k)
		vAssert((err == nil) == (k >= 0 && k < r), "GetRow refuses exactly the indices outside")
		if err == nil {
			vAssert(len(s) == c, "GetRow length")
			for j := 0; j < c; j++ {
				vSame(s[j], w.M[k][j], "GetRow values")
			}
		}
		same(m, w, "GetRow changes nothing")
	} else {
		s, err := m.GetColumn(k)
		vAssert((err == nil) == (k >= 0 && k < c), "GetColumn refuses exactly the indices outside")
		if err == nil {
			vAssert(len(s) == r, "GetColumn length")
			for i := 0; i < r; i++ {
				vSame(s[i], w.M[i][k], "GetColumn values")
			}
		}
		same(m, w, "GetColumn changes nothing")
	}
}

// SetRow and SetColumn: every int index, slices of length 0..5.
func H_C01_SetRowColumn() {
	r, c := size("rows", tiered(3, 4)), size("cols", tiered(3, 4))
	m := matAny("m", r, c)
	w := clone(m)
	k := vInt("index", minInt, maxInt)
	n := vPick("length", 6)
	s := make([]float64, n)
	for i := range s {
		s[i] = vFloat("v")
	}
	t := make([]float64, n)
	copy(t, s)
	if vPick("axis", 2) == 0 {
		err := m.SetRow(k, s)
		vAssert((err == nil) == (k >= 0 && k < r && n == c), "SetRow refuses exactly what does not fit")
		if err == nil {
			for j := 0; j < c; j++ {
				w.M[k][j] = t[j]
			}
		}
		same(m, w, "SetRow changes that row only")
	} else {
		err := m.SetColumn(k, s)
		vAssert((err == nil) == (k >= 0 && k < c && n == r), "SetColumn refuses exactly what does not fit")
		if err == nil {
			for i := 0; i < r; i++ {
				w.M[i][k] = t[i]
			}
		}
		same(m, w, "SetColumn changes that column only")
	}
	for i := range s {
		vSame(s[i], t[i], "the given slice is not changed")
	}
}

// Two stores in a row (any mixture of Set, SetRow and SetColumn, the same slice
// given twice) followed by reading every element back, 2x2 and 2x3.
func H_C01_History() {
	r, c := 2, 2+vPick("wide", 2)
	m := matAny("m", r, c)
	w := clone(m)
	a := make([]float64, c)
	for i := range a {
		a[i] = vFloat("a")
	}
	b := make([]float64, r)
	for i := range b {
		b[i] = vFloat("b")
	}
	steps := tiered(3, 4)
	for s := 0; s < steps; s++ {
		i, j := vPick("i", r), vPick("j", c)
		switch vPick("op", 3) {
		case 0:
			x := vFloat("x")
			vAssert(m.Set(i, j, x) == nil, "Set inside succeeds")
			w.M[i][j] = x
		case 1:
			// what the slice holds at the time of the call
			for k := range a {
				w.M[i][k] = a[k]
			}
			vAssert(m.SetRow(i, a) == nil, "SetRow inside succeeds")
		case 2:
			for k := range b {
				w.M[k][j] = b[k]
			}
			vAssert(m.SetColumn(j, b) == nil, "SetColumn inside succeeds")
		}
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			v, err := m.Get(i, j)
			vAssert(err == nil, "Get inside succeeds")
			vSame(v, w.M[i][j], "reading returns what was last stored")
		}
	}
	if vPick("again", 2) == 1 {
		row, err := m.GetRow(1)
		vAssert(err == nil && len(row) == c, "GetRow inside succeeds")
		for j := range row {
			vSame(row[j], w.M[1][j], "reading a row returns what was last stored")
		}
	}
}

// Matrices of more than a thousand elements: every index near the ends and the
// middle, and far outside; any values.
func H_C01_Bulk() {
	r, c := bulkShapes()
	m := bulk("m", r, c)
	w := clone(m)
	n := []int{r, c}[vPick("axis", 2)]
	byRow := n == r && (n != c || vPick("by row", 2) == 1)
	k := []int{0, 1, n / 2, n - 2, n - 1, n, n + 1, 2 * n, -1, -n, maxInt, minInt}[vPick("index", 12)]
	x, y := vFloat("x"), vFloat("y")
	in := k >= 0 && k < n
	if byRow {
		s := make([]float64, c)
		s[0], s[c-1] = x, y
		err := m.SetRow(k, s)
		vAssert((err == nil) == in, "SetRow refuses exactly what does not fit")
		if in {
			copy(w.M[k], s)
		}
		s[0], s[c-1] = 7, 7
		same(m, w, "SetRow changes that row only")
		t, err := m.GetRow(k)
		vAssert((err == nil) == in && (!in || len(t) == c), "GetRow refuses exactly the indices outside")
		if in && err == nil {
			for j := range t {
				vSame(t[j], w.M[k][j], "GetRow values")
			}
		}
		v, err := m.Get(k, c-1)
		vAssert((err == nil) == in, "Get refuses exactly the indices outside")
		if in && err == nil {
			vSame(v, w.M[k][c-1], "Get value")
		}
		return
	}
	s := make([]float64, r)
	s[0], s[r-1] = x, y
	err := m.SetColumn(k, s)
	vAssert((err == nil) == in, "SetColumn refuses exactly what does not fit")
	if in {
		for i := range s {
			w.M[i][k] = s[i]
		}
	}
	same(m, w, "SetColumn changes that column only")
	t, err := m.GetColumn(k)
	vAssert((err == nil) == in && (!in || len(t) == r), "GetColumn refuses exactly the indices outside")
	if in && err == nil {
		for i := range t {
			vSame(t[i], w.M[i][k], "GetColumn values")
		}
	}
	err = m.Set(r-1, k, x)
	vAssert((err == nil) == in, "Set refuses exactly the indices outside")
	if in {
		w.M[r-1][k] = x
	}
	same(m, w, "Set changes that element only")
}
