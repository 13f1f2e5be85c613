package main

import nn "github.com/cubeflix/nn"

// tagged returns samples and labels whose first columns tell the row.
func tagged(n, c, d int) (nn.Matrix, nn.Matrix) {
	x, y := mat("x", n, c), mat("y", n, d)
	for i := range x.M {
		x.M[i][0] = float64(i)
		y.M[i][0] = float64(100 + i)
	}
	return x, y
}

func orderOf(x nn.Matrix, n int) string {
	s := "order_"
	for i := range x.M {
		for k := 0; k < n; k++ {
			if x.M[i][0] == float64(k) {
				s += string(rune('0' + k))
			}
		}
	}
	return s
}

// shuffled checks a shuffled data set against the original one.
func shuffled(sx, sy, x, y nn.Matrix) {
	if !shape(sx, x.Rows, x.Cols, "shape of the samples") || !shape(sy, y.Rows, y.Cols, "shape of the labels") {
		return
	}
	seen := make([]bool, x.Rows)
	for i := range sx.M {
		found := false
		for k := range x.M {
			if sx.M[i][0] != x.M[k][0] {
				continue
			}
			found = true
			vAssert(!seen[k], "no sample appears twice")
			seen[k] = true
			for j := range x.M[k] {
				vSame(sx.M[i][j], x.M[k][j], "samples stay intact")
			}
			for j := range y.M[k] {
				vSame(sy.M[i][j], y.M[k][j], "every sample keeps its label")
			}
		}
		vAssert(found, "only samples of the data set")
	}
	rowsApart(sx, "rows share no storage")
	rowsApart(sy, "rows share no storage")
}

// Data sets of 1..5 rows (thorough: 6), 1..2 columns of samples and labels, any
// values, every outcome of the random numbers.
func H_C30_Pairs() {
	n := size("rows", tiered(5, 6))
	c, d := 2, 1
	if n < 4 {
		c, d = size("cols", 2), size("label cols", 2)
	}
	x, y := tagged(n, c, d)
	cx, cy := clone(x), clone(y)
	sx, sy := nn.ShuffleDataset(x, y)
	shuffled(sx, sy, cx, cy)
}

// Two rows: both orders occur.
//v: need=order_01,order_10
func H_C30_Orders2() {
	x, y := tagged(2, 1, 1)
	sx, _ := nn.ShuffleDataset(x, y)
	vReach(orderOf(sx, 2))
}

// Three rows: all six orders occur.
//v: need=order_012,order_021,order_102,order_120,order_201,order_210
func H_C30_Orders3() {
	x, y := tagged(3, 1, 1)
	sx, _ := nn.ShuffleDataset(x, y)
	vReach(orderOf(sx, 3))
}

// Four rows: all 24 orders occur.
//v: need=order_0123,order_0132,order_0213,order_0231,order_0312,order_0321,order_1023,order_1032,order_1203,order_1230,order_1302,order_1320,order_2013,order_2031,order_2103,order_2130,order_2301,order_2310,order_3012,order_3021,order_3102,order_3120,order_3201,order_3210
func H_C30_Orders4() {
	x, y := tagged(4, 1, 1)
	sx, _ := nn.ShuffleDataset(x, y)
	vReach(orderOf(sx, 4))
}

// Data sets of 2..3 rows of any finite numbers, repeated ones included: every
// pair appears as often as before.
func H_C30_Multiset() {
	n := 1 + size("rows", 2)
	x, y := mat("x", n, 1), mat("y", n, 1)
	cx, cy := clone(x), clone(y)
	sx, sy := nn.ShuffleDataset(x, y)
	if !shape(sx, n, 1, "shape of the samples") || !shape(sy, n, 1, "shape of the labels") {
		return
	}
	for k := range cx.M {
		before, after := 0, 0
		for i := range cx.M {
			before += pairs(cx.M[i][0], cx.M[k][0], cy.M[i][0], cy.M[k][0])
			after += pairs(sx.M[i][0], cx.M[k][0], sy.M[i][0], cy.M[k][0])
		}
		vAssert(before == after, "every pair appears as often as before")
	}
}

func pairs(a, b, c, d float64) int {
	n := 0
	if a == b {
		if c == d {
			n = 1
		}
	}
	return n
}

// Three shuffles in a row of 3 rows: still the same pairs, and no two of them
// use the same random numbers.
func H_C30_Again() {
	x, y := tagged(3, 2, 2)
	cx, cy := clone(x), clone(y)
	first := vSeeds()
	for i := 0; i < tiered(2, 3); i++ {
		x, y = nn.ShuffleDataset(x, y)
	}
	shuffled(x, y, cx, cy)
	freshSeeds(first, "two shuffles do not share their random numbers")
}
