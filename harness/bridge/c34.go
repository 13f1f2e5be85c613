package nn

// ZZBinomial draws from the sampler the dropout masks are made with.
func ZZBinomial(n, p float64, source bool) float64 {
	b := binomial{N: n, P: p}
	if source {
		b.NewSource()
	}
	return b.Rand()
}
