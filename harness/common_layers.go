package main

import nn "github.com/cubeflix/nn"

// offKink keeps a pre-activation away from the kink of ReLU-like activations.
func offKink(kind int, z nn.Matrix) {
	if kind != kHidden && kind != kLeaky && kind != kDropout {
		return
	}
	for i := range z.M {
		for j := range z.M[i] {
			if vPick("active", 2) == 1 {
				vAssume(z.M[i][j] >= 1.0/1024)
			} else {
				vAssume(z.M[i][j] <= -1.0/1024)
			}
		}
	}
}

// dotted is the sum of the products of the elements.
func dotted(a, b nn.Matrix) float64 {
	s := float64(0)
	for i := range a.M {
		for j := range a.M[i] {
			s += a.M[i][j] * b.M[i][j]
		}
	}
	return s
}

// gradients claims that the given matrices are the derivatives of f by the
// parameters and the batch.
func gradients(f func() float64, w, b, x, dw, db, dx nn.Matrix) {
	if shape(dw, w.Rows, w.Cols, "shape of the weight gradient") {
		for i := range w.M {
			for j := range w.M[i] {
				vGrad("weight gradient", &w.M[i][j], f, dw.M[i][j])
			}
		}
	}
	if shape(db, 1, b.Cols, "shape of the bias gradient") {
		for j := range b.M[0] {
			vGrad("bias gradient", &b.M[0][j], f, db.M[0][j])
		}
	}
	if shape(dx, x.Rows, x.Cols, "shape of the input gradient") {
		for i := range x.M {
			for j := range x.M[i] {
				vGrad("input gradient", &x.M[i][j], f, dx.M[i][j])
			}
		}
	}
}

// renew gives every element of a matrix a new value in place.
func renew(m nn.Matrix, name string) {
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = vFinite(name)
		}
	}
}

// put copies the elements of a matrix into another.
func put(to, from nn.Matrix) {
	for i := range from.M {
		for j := range from.M[i] {
			to.M[i][j] = from.M[i][j]
		}
	}
}

// weightGradients claims the gradients that follow from those of the
// pre-activation.
func weightGradients(x, w, e, dw, db, dx nn.Matrix) {
	if shape(dw, w.Rows, w.Cols, "shape of the weight gradient") {
		for i := range dw.M {
			for j := range dw.M[i] {
				s := float64(0)
				for k := range x.M {
					s += x.M[k][i] * e.M[k][j]
				}
				vEq(dw.M[i][j], s, "weight gradient")
			}
		}
	}
	if shape(db, 1, w.Cols, "shape of the bias gradient") {
		for j := range db.M[0] {
			s := float64(0)
			for k := range e.M {
				s += e.M[k][j]
			}
			vEq(db.M[0][j], s, "bias gradient")
		}
	}
	if shape(dx, x.Rows, x.Cols, "shape of the input gradient") {
		for k := range dx.M {
			for i := range dx.M[k] {
				s := float64(0)
				for j := range e.M[k] {
					s += e.M[k][j] * w.M[i][j]
				}
				vEq(dx.M[k][i], s, "input gradient")
			}
		}
	}
}
