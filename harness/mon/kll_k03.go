package mon

import (
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"

	"verif/harness/core"
)

func init() {
	core.Register("K03", "ranks of known streams: every error within a multiple of the advertised one, mean error zero, mean square within the advertised one",
		core.Family{Name: "error", Quick: 600, Thorough: 6000, Run: k03Error},
		core.Family{Name: "bias", Quick: 24, Thorough: 120, Run: k03Bias},
		core.Family{Name: "mixed", Quick: 1200, Thorough: 12000, Run: k03Mixed})
	core.Assume("K03", "statistical limits: an individual error above 2.4 times the advertised 99% error, a mean error over 7 standard errors from zero, or a mean square above the square of 0.38 times the advertised error counts as a violation; measured on this tree each is far below one chance in 1e9 per run")
}

// k03Order maps arrival position to value 0..n-1.
func k03Order(t *T, n, kind int) []int {
	p := make([]int, n)
	switch kind {
	case 0:
		return t.Perm(n)
	case 1:
		for i := range p {
			p[i] = i
		}
	case 2:
		for i := range p {
			p[i] = n - 1 - i
		}
	case 3:
		for i := range p {
			p[i] = i / 2
			if i%2 == 1 {
				p[i] = n - 1 - i/2
			}
		}
	case 4: // sqrt-sized blocks, interleaved
		b := int(math.Sqrt(float64(n))) + 1
		k := 0
		for o := 0; o < b; o++ {
			for i := o; i < n; i += b {
				p[k] = i
				k++
			}
		}
	case 5: // sorted runs whose order is random
		b := 1 + t.IntN(500)
		var starts []int
		for i := 0; i < n; i += b {
			starts = append(starts, i)
		}
		t.Shuffle(len(starts), func(i, j int) { starts[i], starts[j] = starts[j], starts[i] })
		k := 0
		for _, s := range starts {
			for i := s; i < min(n, s+b); i++ {
				p[k] = i
				k++
			}
		}
	case 6: // alternating highs and lows, random inside
		for i := range p {
			p[i] = i
		}
		h := n / 2
		t.Shuffle(h, func(i, j int) { p[i], p[j] = p[j], p[i] })
		t.Shuffle(n-h, func(i, j int) { p[h+i], p[h+j] = p[h+j], p[h+i] })
		q := make([]int, 0, n)
		for i := 0; i < h; i++ {
			q = append(q, p[i], p[h+i])
		}
		q = append(q, p[2*h:]...)
		return q
	}
	return p
}

// k03Mixed merges sketches of several k in a random tree. Whoever takes in a
// sketch that has already discarded items inherits at least its error.
func k03Mixed(t *T) {
	parts := 2 + t.IntN(6)
	n := 200 + t.IntN(30000)
	ks := []uint16{8, 10, 20, 50, 100, 200, 400, 1000}
	ss := make([]*kll.ItemsSketch[int64], parts)
	kk := make([]uint16, parts)
	mk := func(k uint16) *kll.ItemsSketch[int64] {
		s, err := kll.NewKllItemsSketch[int64](k, 8, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
		t.NoErr(err, "new")
		return s
	}
	for i := range ss {
		kk[i] = ks[t.IntN(len(ks))]
		ss[i] = mk(kk[i])
	}
	kind := t.IntN(7)
	cut := make([]int, n) // which part takes the i-th arrival
	for i := range cut {
		cut[i] = i * parts / n
		if kind%2 == 0 {
			cut[i] = min(parts-1, int(float64(parts)*math.Pow(float64(i)/float64(n), 3)))
		}
	}
	for i, v := range k03Order(t, n, kind) {
		ss[cut[i]].Update(int64(v))
	}
	t.Desc("k=%v n=%d order=%d", kk, n, kind)
	t.Sig(kk, n, kind)
	advertised := func(s *kll.ItemsSketch[int64]) (float64, float64) {
		return s.GetNormalizedRankError(false), s.GetNormalizedRankError(true)
	}
	lossy := make([]bool, parts) // has discarded items
	minK := make([]uint16, parts)
	for i, s := range ss {
		lossy[i], minK[i] = s.IsEstimationMode(), kk[i]
	}
	for len(ss) > 1 {
		i := t.IntN(len(ss))
		j := (i + 1 + t.IntN(len(ss)-1)) % len(ss)
		a1, a2 := advertised(ss[i])
		b1, b2 := advertised(ss[j])
		if t.IntN(3) == 0 { // through bytes
			img, err := ss[j].ToSlice()
			t.NoErr(err, "serialize")
			d, err := kll.NewKllItemsSketchFromSlice[int64](img, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
			t.NoErr(err, "decode")
			c1, c2 := advertised(d)
			t.Check(c1 == b1 && c2 == b2, "decoded-error", "advertised error %v, %v before serializing and %v, %v after", b1, b2, c1, c2)
			ss[j] = d
		}
		ss[i].Merge(ss[j])
		if lossy[j] {
			minK[i] = min(minK[i], minK[j])
		}
		lossy[i] = ss[i].IsEstimationMode()
		g1, g2 := advertised(ss[i])
		t.Check(g1 >= a1 && g2 >= a2, "error-shrinks", "merging lowered the receiver's advertised error from %v to %v", a1, g1)
		if lossy[j] {
			t.Check(g1 >= b1 && g2 >= b2, "error-not-inherited", "took in a sketch of advertised error %v and advertises %v (k of the parts %v)", b1, g1, kk)
			t.NonTrivial()
		}
		ref := mk(minK[i])
		r1, r2 := advertised(ref)
		t.Check(g1 == r1 && g2 == r2, "error-of-smallest", "advertises %v, a sketch of the smallest k %d that discarded anything advertises %v", g1, minK[i], r1)
		t.Ev("advertised errors after merging")
		ss, lossy, minK = append(ss[:j], ss[j+1:]...), append(lossy[:j], lossy[j+1:]...), append(minK[:j], minK[j+1:]...)
	}
	s := ss[0]
	eps := s.GetNormalizedRankError(false)
	for g := 0; g < k03Grid; g++ {
		x := (g + 1) * n / (k03Grid + 1)
		r, err := s.GetRank(int64(x), false)
		t.NoErr(err, "rank")
		e := r - float64(x)/float64(n)
		t.Check(math.Abs(e) <= 2.4*eps+1e-12, "error", "k=%v n=%d order %d: rank error %v at the %d/%d point, advertised %v", kk, n, kind, e, g+1, k03Grid+1, eps)
	}
	t.EvN("rank errors measured", k03Grid)
}

const k03Grid = 19

// k03Errors feeds 0..n-1 in the given order, through parts sketches, and gives
// the signed rank error at evenly spaced points.
func k03Errors(t *T, k uint16, m uint8, n, kind, parts int) ([]float64, *kll.ItemsSketch[int64]) {
	mk := func() *kll.ItemsSketch[int64] {
		s, err := kll.NewKllItemsSketch[int64](k, m, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
		t.NoErr(err, "new")
		return s
	}
	ss := make([]*kll.ItemsSketch[int64], parts)
	for i := range ss {
		ss[i] = mk()
	}
	for i, v := range k03Order(t, n, kind) {
		ss[i*parts/n].Update(int64(v))
	}
	for len(ss) > 1 { // merge as a tree or as a chain
		i, j := 0, 1
		if t.IntN(2) == 0 {
			i = t.IntN(len(ss))
			j = (i + 1 + t.IntN(len(ss)-1)) % len(ss)
		}
		ss[i].Merge(ss[j])
		ss = append(ss[:j], ss[j+1:]...)
	}
	s := ss[0]
	out := make([]float64, k03Grid)
	for g := range out {
		x := (g + 1) * n / (k03Grid + 1)
		r, err := s.GetRank(int64(x), false)
		t.NoErr(err, "rank")
		out[g] = r - float64(x)/float64(n)
	}
	return out, s
}

func k03Error(t *T) {
	k := []uint16{8, 12, 20, 50, 100, 200, 400, 1000}[t.IntN(8)]
	m := []uint8{8, 8, 4, 2}[t.IntN(4)]
	n := int(k) + 1 + t.IntN(int(k)*200)
	if n > 60000 {
		n = 60000
	}
	kind, parts := t.IntN(7), []int{1, 1, 2, 3, 10}[t.IntN(5)]
	errs, s := k03Errors(t, k, m, n, kind, parts)
	eps := s.GetNormalizedRankError(false)
	for g, e := range errs {
		t.Check(math.Abs(e) <= 2.4*eps, "error", "k=%d n=%d order %d parts %d: rank error %v at the %d/%d point, advertised %v", k, n, kind, parts, e, g+1, k03Grid+1, eps)
	}
	t.Check(s.GetNormalizedRankError(true) >= eps, "double-sided", "double-sided error %v below single-sided %v", s.GetNormalizedRankError(true), eps)
	// quantile answers have the rank they were asked for
	for i := 0; i < 10; i++ {
		r := t.Float64()
		v, err := s.GetQuantile(r, true)
		t.NoErr(err, "quantile")
		top := 0.0
		for _, it := range kllRetained(s) {
			top = max(top, float64(it.w))
		}
		e := float64(v)/float64(n) - r
		t.Check(math.Abs(e) <= 3*eps+2*top/float64(n), "quantile-error", "k=%d n=%d: quantile(%v) has rank %v, advertised error %v", k, n, r, float64(v)/float64(n), eps)
	}
	t.EvN("rank errors measured", len(errs))
	t.Desc("k=%d m=%d n=%d order=%d parts=%d", k, m, n, kind, parts)
	t.Sig(k, m, n, kind, parts)
	t.NonTrivial()
}

// k03Bias repeats one configuration.
func k03Bias(t *T) {
	k := []uint16{20, 50, 128, 200}[t.Idx%4]
	kind := []int{0, 1, 2, 3, 5, 6}[t.Idx/4%6]
	parts := []int{1, 4}[t.IntN(2)]
	n := 60*int(k) + t.IntN(1000)
	trials := 120
	if t.Thorough() {
		trials = 600
	}
	sum, sq, eps := make([]float64, k03Grid), 0.0, 0.0
	sqs := make([]float64, k03Grid)
	for i := 0; i < trials; i++ {
		es, s := k03Errors(t, k, 8, n, kind, parts)
		eps = s.GetNormalizedRankError(false)
		for g, e := range es {
			sum[g] += e
			sqs[g] += e * e
			sq += e * e
		}
	}
	rms := math.Sqrt(sq / float64(trials*k03Grid))
	t.Logf("k=%d order=%d parts=%d rms/eps=%.3f", k, kind, parts, rms/eps)
	t.Check(rms <= 0.38*eps, "rms", "k=%d n=%d order %d parts %d: root mean square error %v, advertised (99%%) %v", k, n, kind, parts, rms, eps)
	for g := range sum {
		mean := sum[g] / float64(trials)
		se := math.Sqrt(sqs[g]/float64(trials))/math.Sqrt(float64(trials)) + 1e-12
		se = max(se, 0.02*eps)
		t.Check(math.Abs(mean) <= 7*se, "bias", "k=%d n=%d order %d parts %d: mean rank error %v at the %d/%d point (standard error %v)", k, n, kind, parts, mean, g+1, k03Grid+1, se)
	}
	t.EvN("rank errors measured", trials*k03Grid)
	t.Desc("k=%d n=%d order=%d parts=%d trials=%d rms/eps=%.3f", k, n, kind, parts, trials, rms/eps)
	t.Sig(k, n, kind, parts)
	t.NonTrivial()
}
