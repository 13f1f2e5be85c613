package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// oneHot makes a label matrix with one 1 in every row, at any place.
func oneHot(r, c int) (nn.Matrix, []int) {
	y := zeros(r, c)
	at := make([]int, r)
	for i := range at {
		at[i] = vPick("label", c)
		y.M[i][at[i]] = 1
	}
	return y, at
}

// inside keeps probabilities away from the clipped ends.
func inside(p nn.Matrix) {
	for i := range p.M {
		for j := range p.M[i] {
			vGiven(p.M[i][j] >= 1.0/1024 && p.M[i][j] <= 1023.0/1024)
		}
	}
}

// crossEntropy is the mean over the rows of -log p[label].
func crossEntropy(p nn.Matrix, at []int) float64 {
	s := float64(0)
	for i, k := range at {
		s -= math.Log(p.M[i][k])
	}
	return s / float64(len(at))
}

const (
	kMSE = iota
	kMAE
	kCE
	kBCE
)

func newLoss(kind, n int) (nn.Loss, error) {
	switch kind {
	case kMSE:
		l, err := nn.NewMeanSquaredLoss(n)
		return &l, err
	case kMAE:
		l, err := nn.NewMeanAbsoluteLoss(n)
		return &l, err
	case kCE:
		l, err := nn.NewCrossEntropyLoss(n)
		return &l, err
	default:
		l, err := nn.NewBinaryCrossEntropyLoss(n)
		return &l, err
	}
}

// lossInputs makes predictions and labels of the kind a loss is for, away from
// kinks and the clipped ends.
func lossInputs(kind, r, c int) (p, y nn.Matrix) {
	p = mat("p", r, c)
	switch kind {
	case kCE:
		y, _ = oneHot(r, c)
		inside(p)
	case kBCE:
		y = mat("y", r, c)
		for i := range y.M {
			for j := range y.M[i] {
				vAssume(y.M[i][j] >= 0 && y.M[i][j] <= 1)
			}
		}
		inside(p)
	default:
		y = mat("y", r, c)
		if kind == kMAE {
			for i := range y.M {
				for j := range y.M[i] {
					if vPick("above", 2) == 1 {
						vAssume(p.M[i][j]-y.M[i][j] >= 1.0/1024)
					} else {
						vAssume(p.M[i][j]-y.M[i][j] <= -1.0/1024)
					}
				}
			}
		}
	}
	return p, y
}

// lossOf is the documented loss.
func lossOf(kind int, p, y nn.Matrix) float64 {
	s := float64(0)
	for i := range p.M {
		row := float64(0)
		for j := range p.M[i] {
			q, t := p.M[i][j], y.M[i][j]
			switch kind {
			case kMSE:
				s += (q - t) * (q - t)
			case kMAE:
				if q > t {
					s += q - t
				} else {
					s += t - q
				}
			case kCE:
				row += q * t
			default:
				s -= t*math.Log(q) + (1-t)*math.Log(1-q)
			}
		}
		if kind == kCE {
			s -= math.Log(row)
		}
	}
	if kind == kCE {
		return s / float64(p.Rows)
	}
	return s / float64(p.Rows*p.Cols)
}

// lossShapes claims that a loss refuses exactly what does not fit.
func lossShapes(f func(l nn.Loss, p, y nn.Matrix) error) {
	kind, n := vPick("kind", 4), size("size", 3)
	l, err := newLoss(kind, n)
	vAssert(err == nil, "loss")
	p := mat("p", size("pr", 3), size("pc", 4))
	y := mat("y", size("yr", 3), size("yc", 4))
	wp, wy := clone(p), clone(y)
	err = f(l, p, y)
	fits := p.Cols == n && y.Cols == n && p.Rows == y.Rows
	vAssert((err == nil) == fits, "refuses exactly what does not fit")
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
}

func longShape(kind int) []int {
	if kind == kCE {
		return pick("shape", []int{9, 2}, []int{17, 3}, []int{2, 9}, []int{33, 2}, []int{1, 17})
	}
	return pick("shape", []int{9, 1}, []int{1, 9}, []int{17, 2}, []int{2, 17})
}

// longInputs makes predictions and labels of many rows or columns.
func longInputs(kind, r, c int) (p, y nn.Matrix) {
	p = mat("p", r, c)
	at, of := vPick("row", r), vPick("variant", 2)
	if kind == kCE {
		y = zeros(r, c)
		for i := range y.M {
			k := i % c
			if i == at {
				k = (i + of) % c
			}
			y.M[i][k] = 1
		}
		inside(p)
		return p, y
	}
	y = mat("y", r, c)
	for i := range p.M {
		for j := range p.M[i] {
			up := (i+j)%2 == 0
			if i == at && of == 1 {
				up = !up
			}
			if up {
				vAssume(p.M[i][j] > y.M[i][j])
			} else {
				vAssume(p.M[i][j] < y.M[i][j])
			}
		}
	}
	return p, y
}

// bulkInputs makes many predictions and labels, most of them given.
func bulkInputs(kind, r, c int) (p, y nn.Matrix) {
	p, y = given(r, c), zeros(r, c)
	for i := range p.M {
		for j := range p.M[i] {
			switch kind {
			case kCE, kBCE:
				p.M[i][j] = (p.M[i][j] + 1) / 2
				if kind == kBCE {
					y.M[i][j] = float64((i + j) % 2)
				}
			default:
				y.M[i][j] = float64((i+2*j)%5) / 4 - 0.03125
			}
		}
		if kind == kCE {
			y.M[i][i%c] = 1
		}
	}
	switch kind {
	case kCE:
		if c > 1 {
			i := []int{0, r / 2, r - 1}[vPick("row", 3)]
			y.M[i][i%c] = 0
			y.M[i][(i+1)%c] = 1
		}
	case kBCE:
		for _, k := range [][]int{{0, 0}, {r / 2, c / 2}, {r - 1, c - 1}} {
			v := vFinite("y")
			vAssume(v >= 0 && v <= 1)
			y.M[k[0]][k[1]] = v
		}
	default:
		for _, k := range [][]int{{0, 0}, {r / 2, c / 2}, {r - 1, c - 1}} {
			v := vFinite("p")
			if kind == kMAE {
				if vPick("above", 2) == 1 {
					vAssume(v-y.M[k[0]][k[1]] >= 1.0/1024)
				} else {
					vAssume(v-y.M[k[0]][k[1]] <= -1.0/1024)
				}
			}
			p.M[k[0]][k[1]] = v
		}
	}
	return p, y
}

// sureInputs makes probabilities close to 0 or 1 and labels.
func sureInputs(kind int) (p, y nn.Matrix) {
	e := []float64{2e-7, 1e-6, 5e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1}[vPick("close", 8)]
	r := size("rows", 2)
	p, y = fill(zeros(r, 2), 0.5), zeros(r, 2)
	k, at := vPick("column", 2), vPick("row", r)
	p.M[at][k], p.M[at][1-k] = e, 1-e
	for i := range y.M {
		y.M[i][vPick("label", 2)] = 1
		if kind == kBCE {
			y.M[i][0] = float64(vPick("first", 2))
		}
	}
	return p, y
}
