package xp

import "math"

// statZ is how many standard deviations a statistic may stray.
const statZ = 7.5

// chi2z returns the approximate standard normal quantile of a chi-squared
// statistic (Wilson-Hilferty), merging bins with a small expectation.
func chi2z(obs, exp []float64) float64 {
	var so, se, x2 float64
	df := -1
	for i := range obs {
		so += obs[i]
		se += exp[i]
		if se >= 40 {
			x2 += (so - se) * (so - se) / se
			df++
			so, se = 0, 0
		}
	}
	if so > se+12*math.Sqrt(se)+40 {
		return math.Inf(1)
	}
	if df < 1 {
		return 0
	}
	d := float64(df)
	return (math.Cbrt(x2/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
}
