package mon

import (
	"math"
	"slices"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("T05", "every case computes the Jaccard triple of two real sketches in random forms and compares it with the exact index of the retained samples, its symmetric counterpart and the similarity tests; distinct = distinct pairs of contents",
		core.Family{Name: "pairs", Quick: 40000, Thorough: 100000, Run: t05Pairs},
		core.Family{Name: "coverage", Quick: 100, Thorough: 400, Run: t05Coverage},
	)
}

func t05Pairs(t *T) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	universe := 4 + t.IntN(3000)
	sa := buildTheta(t, uint8(5+t.IntN(6)), seed, universe)
	sb := buildTheta(t, uint8(5+t.IntN(6)), seed, universe)
	if t.IntN(6) == 0 {
		sb = sa
	}
	a, fa := anyForm(t, sa, seed)
	b, fb := anyForm(t, sb, seed)
	na, nb := snapOf(a), snapOf(b)
	t.Desc("%s retained=%d theta=%d / %s retained=%d theta=%d", fa, len(na.hashes), na.theta, fb, len(nb.hashes), nb.theta)
	t.Sig(na.theta, len(na.hashes), nb.theta, len(nb.hashes), fa, fb)
	if len(na.hashes) == 0 && !na.empty || len(nb.hashes) == 0 && !nb.empty {
		t.Ev("degenerate-input")
	}
	j, err := theta.Jaccard(a, b, seed)
	t.NoErr(err, "jaccard")
	r, err := theta.Jaccard(b, a, seed)
	t.NoErr(err, "jaccard")
	t.Check(j == r, "symmetry", "J(a,b)=%+v, J(b,a)=%+v", j, r)
	t.Check(0 <= j.LowerBound && j.LowerBound <= j.Estimate && j.Estimate <= j.UpperBound && j.UpperBound <= 1, "order", "bounds out of order: %+v", j)
	eq, err := theta.IsExactlyEqual(a, b, seed)
	t.NoErr(err, "exactly-equal")
	same := na.empty && nb.empty || !na.empty && !nb.empty && na.theta == nb.theta && slices.Equal(na.hashes, nb.hashes)
	t.Check(eq == same, "exactly-equal", "IsExactlyEqual=%v but the contents are equal: %v", eq, same)
	th := min(na.theta, nb.theta)
	ha, hb := below(na.hashes, th), below(nb.hashes, th)
	var inter, uni int
	all := append(slices.Clone(ha), hb...)
	slices.Sort(all)
	uni = len(slices.Compact(all))
	for _, h := range ha {
		if _, ok := slices.BinarySearch(hb, h); ok {
			inter++
		}
	}
	switch {
	case same:
		t.Check(j == theta.JaccardSimilarityResult{LowerBound: 1, Estimate: 1, UpperBound: 1}, "self", "equal sketches: %+v", j)
		t.Ev("equal-pair")
	case na.empty != nb.empty:
		t.Check(j == theta.JaccardSimilarityResult{}, "one-empty", "one empty sketch: %+v", j)
		t.Ev("one-empty")
	case uni > 0:
		t.NonTrivial()
		want := float64(inter) / float64(uni)
		t.Check(math.Abs(j.Estimate-want) < 1e-12, "estimate", "estimate %v, retained samples give %d/%d", j.Estimate, inter, uni)
		if th == theta.MaxTheta {
			t.Check(j.LowerBound == j.Estimate && j.UpperBound == j.Estimate, "exact", "both exact but bounds %+v", j)
			t.Ev("exact-pair")
		} else {
			// two-standard-deviation exact binomial proportion limits, with the
			// finite-population shrinkage the interval uses
			lo, hi := ref.ProportionBounds(uni, inter, 2)
			f := float64(th) / math.MaxInt64
			adj := math.Sqrt(1 - f)
			if f > 0.5 {
				adj += 0.01 * (f - 0.5)
			}
			slo, shi := ref.ProportionBounds(uni, inter, 2*adj)
			tol := 0.003
			if uni <= 30 {
				tol = 0.01
			} else if uni <= 100 {
				tol = 0.006
			}
			tlo, thi := tol, tol
			if inter <= 1 || inter == uni {
				tlo = 1e-5 // closed forms
			}
			if inter >= uni-1 || inter == 0 {
				thi = 1e-5
			}
			t.Check(math.Abs(j.LowerBound-slo) <= tlo, "lower-limit", "lower bound %v, exact binomial limit at the sampling-corrected width %v (%d of %d, theta %v)", j.LowerBound, slo, inter, uni, f)
			t.Check(math.Abs(j.UpperBound-shi) <= thi, "upper-limit", "upper bound %v, exact binomial limit at the sampling-corrected width %v (%d of %d, theta %v)", j.UpperBound, shi, inter, uni, f)
			t.Check(j.LowerBound >= lo-0.02 && j.UpperBound <= hi+0.02, "loose", "bounds [%v,%v] looser than the unshrunk binomial limits [%v,%v] for %d of %d", j.LowerBound, j.UpperBound, lo, hi, inter, uni)
			if uni >= 30 {
				t.Check(j.LowerBound < j.Estimate || inter == 0 || f > 0.9, "degenerate-lower", "zero-width lower bound %+v for %d of %d (theta %v)", j, inter, uni, f)
				t.Check(j.UpperBound > j.Estimate || inter == uni || f > 0.9, "degenerate-upper", "zero-width upper bound %+v for %d of %d (theta %v)", j, inter, uni, f)
			}
			t.Ev("sampled-pair")
		}
	}
	for _, th := range []float64{0, 0.01, j.LowerBound, j.Estimate, j.UpperBound, 0.5, 0.99, 1} {
		s, err := theta.IsSimilar(a, b, th, seed)
		t.NoErr(err, "similar")
		d, err := theta.IsDissimilar(a, b, th, seed)
		t.NoErr(err, "dissimilar")
		t.Check(s == (j.LowerBound >= th) && d == (j.UpperBound <= th), "tests", "threshold %v: similar=%v dissimilar=%v with %+v", th, s, d, j)
	}
	t.Check(sameSnap(snapOf(a), na) && sameSnap(snapOf(b), nb), "input-changed", "an argument changed")
}

func t05Coverage(t *T) {
	lgK := uint8(6 + t.IntN(6))
	n := int(float64(uint(1)<<lgK) * (2 + 6*t.Float64()))
	ov := t.IntN(n)
	truth := float64(n-ov) / float64(n+ov)
	in, trials := 0, 150
	sum := 0.0
	for r := 0; r < trials; r++ {
		base := int64(t.Uint64() >> 2)
		a, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK))
		b, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK))
		for i := 0; i < n; i++ {
			_ = a.UpdateInt64(base + int64(i))
			_ = b.UpdateInt64(base + int64(i+ov))
		}
		j, err := theta.Jaccard(a, b, 9001)
		t.NoErr(err, "jaccard")
		if j.LowerBound <= truth && truth <= j.UpperBound {
			in++
		}
		sum += j.Estimate
	}
	t.Desc("lgK=%d n=%d true J=%v inside %d/%d", lgK, n, truth, in, trials)
	t.Sig(lgK, n, ov)
	t.NonTrivial()
	t.EvN("coverage-trials", trials)
	t.Check(float64(in) >= 0.85*float64(trials), "coverage", "true index inside the 2-sigma bounds in %d of %d (J=%v)", in, trials, truth)
	se := math.Sqrt(truth*(1-truth)/math.Ldexp(1, int(lgK))*1.3 + 1e-9)
	t.Check(math.Abs(sum/float64(trials)-truth) < 6*se/math.Sqrt(float64(trials)), "bias", "mean estimate %v, truth %v", sum/float64(trials), truth)
}
