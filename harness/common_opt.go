package main

import nn "github.com/cubeflix/nn"

// params are the parameters of one layer.
type params struct{ w, b nn.Matrix }

func symParams(in, out int) params { return params{mat("w", in, out), mat("b", 1, out)} }

func (p params) clone() params { return params{clone(p.w), clone(p.b)} }

// near claims that the parameters are those expected.
func (p params) near(q params, label string) {
	near(p.w, q.w, "weights "+label)
	near(p.b, q.b, "biases "+label)
}

// each runs f on corresponding elements of p, q, r, and so on.
func each(f func(v []*float64), ps ...params) {
	for k := 0; k < 2; k++ {
		part := func(p params) nn.Matrix {
			if k == 0 {
				return p.w
			}
			return p.b
		}
		m := part(ps[0])
		for i := range m.M {
			for j := range m.M[i] {
				v := make([]*float64, len(ps))
				for n := range ps {
					v[n] = &part(ps[n]).M[i][j]
				}
				f(v)
			}
		}
	}
}
