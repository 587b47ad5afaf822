package ref

import "math"

// RegIncBeta is the regularized incomplete beta function I_x(a,b).
func RegIncBeta(a, b, x float64) float64 {
	if x <= 0 {
		return 0
	}
	if x >= 1 {
		return 1
	}
	la, _ := math.Lgamma(a)
	lb, _ := math.Lgamma(b)
	lab, _ := math.Lgamma(a + b)
	front := math.Exp(lab - la - lb + a*math.Log(x) + b*math.Log1p(-x))
	if x < (a+1)/(a+b+2) {
		return front * betacf(a, b, x) / a
	}
	return 1 - front*betacf(b, a, 1-x)/b
}

func betacf(a, b, x float64) float64 {
	const tiny = 1e-300
	c, d := 1.0, 1-(a+b)*x/(a+1)
	if math.Abs(d) < tiny {
		d = tiny
	}
	d = 1 / d
	h := d
	for m := 1; m <= 20000; m++ {
		fm := float64(m)
		aa := fm * (b - fm) * x / ((a + 2*fm - 1) * (a + 2*fm))
		d = 1 + aa*d
		if math.Abs(d) < tiny {
			d = tiny
		}
		c = 1 + aa/c
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		h *= d * c
		aa = -(a + fm) * (a + b + fm) * x / ((a + 2*fm) * (a + 2*fm + 1))
		d = 1 + aa*d
		if math.Abs(d) < tiny {
			d = tiny
		}
		c = 1 + aa/c
		if math.Abs(c) < tiny {
			c = tiny
		}
		d = 1 / d
		del := d * c
		h *= del
		if math.Abs(del-1) < 1e-14 {
			break
		}
	}
	return h
}

// NormTail is P(Z > k).
func NormTail(k float64) float64 { return 0.5 * math.Erfc(k/math.Sqrt2) }

// SampledBounds returns the exact one-sided confidence bounds on the number of
// items N when n of them survived independent sampling with probability p:
// the N for which P(Bin(N,p) >= n) (lower) and P(Bin(N,p) <= n) (upper) equal
// the tail probability of kappa standard deviations.
func SampledBounds(n float64, p, kappa float64) (lo, hi float64) {
	delta := NormTail(kappa)
	solve := func(f func(N float64) float64, lo, hi float64, incr bool) float64 {
		for i := 0; i < 200 && hi-lo > 1e-9*hi; i++ {
			mid := (lo + hi) / 2
			if (f(mid) < delta) == incr {
				lo = mid
			} else {
				hi = mid
			}
		}
		return (lo + hi) / 2
	}
	top := 4*(n+20)/p + 10
	if n > 0 {
		lo = solve(func(N float64) float64 { return RegIncBeta(n, N-n+1, p) }, n, top, true)
	}
	hi = solve(func(N float64) float64 { return 1 - RegIncBeta(n+1, N-n, p) }, n, top, false)
	return
}

// ProportionBounds is the exact (Clopper-Pearson) confidence interval for a
// proportion with x of n successes at kappa standard deviations per side.
func ProportionBounds(n, x int, kappa float64) (lo, hi float64) {
	delta := NormTail(kappa)
	solve := func(f func(p float64) float64, incr bool) float64 {
		a, b := 0.0, 1.0
		for i := 0; i < 100; i++ {
			m := (a + b) / 2
			if (f(m) < delta) == incr {
				a = m
			} else {
				b = m
			}
		}
		return (a + b) / 2
	}
	hi = 1
	if x > 0 {
		lo = solve(func(p float64) float64 { return RegIncBeta(float64(x), float64(n-x+1), p) }, true)
	}
	if x < n {
		hi = solve(func(p float64) float64 { return 1 - RegIncBeta(float64(x+1), float64(n-x), p) }, false)
	}
	return
}

// BinomUpperTail is P(X >= x) for X binomial(n, p).
func BinomUpperTail(n, x int, p float64) float64 {
	if x <= 0 {
		return 1
	}
	if x > n {
		return 0
	}
	return RegIncBeta(float64(x), float64(n-x+1), p)
}

// BinomLowerTail is P(X <= x) for X binomial(n, p).
func BinomLowerTail(n, x int, p float64) float64 {
	if x >= n {
		return 1
	}
	if x < 0 {
		return 0
	}
	return RegIncBeta(float64(n-x), float64(x+1), 1-p)
}
