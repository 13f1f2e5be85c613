package main

import nn "github.com/cubeflix/nn"

func one34(c bool) int {
	n := 0
	if c {
		n = 1
	}
	return n
}

// sampled claims that a sample counts the draws that succeed: those below the
// probability, or those not below one minus it.
func sampled(s float64, n, first int, p float64) {
	vAssert(vDrawCount() == first+n, "one draw per trial")
	if vDrawCount() < first+n {
		return
	}
	low, high := 0, 0
	for k := 0; k < n; k++ {
		if vDrawKind(first+k) != "u" {
			vUndecided("trials decided by other draws than uniform numbers in [0,1)")
		}
		low += one34(vDraw(first+k) < p)
		high += one34(!(vDraw(first+k) < 1-p))
	}
	vAssert(s == float64(low) || s == float64(high), "the number of trials that succeed")
	in := false
	for k := 0; k <= n; k++ {
		in = in || s == float64(k)
	}
	vAssert(in, "an integer between 0 and the number of trials")
}

// counted tells how many draws are below the probability, and how many are not
// below one minus it.
func counted(n, first int, p float64) (low, high float64) {
	a, b := 0, 0
	for k := 0; k < n; k++ {
		a += one34(vDraw(first+k) < p)
		b += one34(!(vDraw(first+k) < 1-p))
	}
	return float64(a), float64(b)
}

// Two samples of 1..3 trials (thorough: 4) of the same probability: the same rule
// explains both.
//v: mode=R
func H_C34_Rule() {
	n := size("trials", tiered(3, 4))
	p := vFinite("p")
	vAssume(p >= 0 && p <= 1)
	src := vPick("source", 2) == 1
	f := vDrawCount()
	s := nn.ZZBinomial(float64(n), p, src)
	g := vDrawCount()
	t := nn.ZZBinomial(float64(n), p, src)
	vAssert(g == f+n && vDrawCount() == g+n, "one draw per trial")
	if g != f+n || vDrawCount() != g+n {
		return
	}
	for k := 0; k < 2*n; k++ {
		if vDrawKind(f+k) != "u" {
			vUndecided("trials decided by other draws than uniform numbers in [0,1)")
		}
	}
	a, b := counted(n, f, p)
	c, d := counted(n, g, p)
	vAssert(s == a && t == c || s == b && t == d, "a trial succeeds with the probability")
}

// 1..6 trials (thorough: 10), every probability from 0 to 1, every outcome of the
// draws, with a source of its own or not.
//v: mode=R
func H_C34_Trials() {
	n := size("trials", tiered(6, 10))
	p := vFinite("p")
	vAssume(p >= 0 && p <= 1)
	first := vDrawCount()
	s := nn.ZZBinomial(float64(n), p, vPick("source", 2) == 1)
	sampled(s, n, first, p)
}

// One trial, every floating-point probability and draw.
func H_C34_One() {
	p := vFinite("p")
	vAssume(p >= 0 && p <= 1)
	first := vDrawCount()
	s := nn.ZZBinomial(1, p, false)
	vAssert(vDrawCount() == first+1, "one draw per trial")
	if vDrawCount() != first+1 || vDrawKind(first) != "u" {
		vUndecided("not a single uniform draw")
	}
	u := vDraw(first)
	if p <= 0.5 {
		vAssert(s == 1 || s == 0, "an integer between 0 and the number of trials")
	}
	vAssert(s == float64(one34(u < p)) || s == float64(one34(!(u < 1-p))), "the trial succeeds with the probability")
}

// Probabilities 0 and 1 and right beside a half, 1..24 trials.
func H_C34_Edges() {
	n, p := size("trials", 24), []float64{0, 1, 0.5}[vPick("p", 3)]
	first := vDrawCount()
	s := nn.ZZBinomial(float64(n), p, false)
	vAssert(vDrawCount() == first+n, "one draw per trial")
	switch p {
	case 0:
		vSame(s, 0, "nothing succeeds with probability 0")
	case 1:
		vSame(s, float64(n), "everything succeeds with probability 1")
	default:
		vAssert(s >= 0 && s <= float64(n), "between 0 and the number of trials")
	}
}

// Two samples of 1..3 trials use different draws.
//v: mode=R
func H_C34_Again() {
	n := size("trials", 3)
	p := vFinite("p")
	vAssume(p >= 0 && p <= 1)
	from := vSeeds()
	for i := 0; i < 2; i++ {
		first := vDrawCount()
		sampled(nn.ZZBinomial(float64(n), p, true), n, first, p)
	}
	freshSeeds(from, "no sample repeats the random numbers of another")
}
