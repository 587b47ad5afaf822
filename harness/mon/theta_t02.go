package mon

import (
	"bytes"
	"fmt"
	"iter"
	"math"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("T02", "every case observes the estimate and bounds of real sketches (all forms) against the retained count/theta, an exact binomial confidence computation and the true distinct count; distinct = distinct (retained, theta, form) points",
		core.Family{Name: "forms", Quick: 4000, Thorough: 40000, Run: t02Forms},
		core.Family{Name: "grid", Quick: 40000, Thorough: 600000, Run: t02Grid},
		core.Family{Name: "coverage", Quick: 100, Thorough: 1000, Run: t02Coverage},
	)
}

// fakeSketch presents chosen content through the public Sketch interface, so
// that compact sketches of any (count, theta) can be built and queried.
type fakeSketch struct {
	theta.Sketch
	n     int
	th    uint64
	empty bool
	list  []uint64
	ord   bool
	seed  uint16
}

func (f *fakeSketch) IsEmpty() bool             { return f.empty }
func (f *fakeSketch) Theta64() uint64           { return f.th }
func (f *fakeSketch) NumRetained() uint32       { return uint32(len(f.list)) }
func (f *fakeSketch) SeedHash() (uint16, error) { return f.seed, nil }
func (f *fakeSketch) IsOrdered() bool           { return f.ord }
func (f *fakeSketch) All() iter.Seq[uint64] {
	return func(y func(uint64) bool) {
		for _, h := range f.list {
			if !y(h) {
				return
			}
		}
	}
}

func checkBounds(t *T, s theta.Sketch, trueN int, form string) {
	n, th := float64(s.NumRetained()), float64(s.Theta64())/math.MaxInt64
	est := s.Estimate()
	t.Check(math.Abs(est-n/th) <= 1e-9*est+1e-9, "estimate", "%s: estimate %v, retained %v / theta %v", form, est, n, th)
	t.Check(math.Abs(s.Theta()-th) <= 1e-12, "theta", "%s: Theta() %v for Theta64 %d", form, s.Theta(), s.Theta64())
	em := !s.IsEmpty() && s.Theta64() < theta.MaxTheta
	t.Check(s.IsEstimationMode() == em, "mode", "%s: IsEstimationMode %v, theta %d, empty %v", form, s.IsEstimationMode(), s.Theta64(), s.IsEmpty())
	if trueN >= 0 && !em {
		t.Check(est == float64(trueN), "exact", "%s: exact mode estimate %v for %d distinct items", form, est, trueN)
	}
	lp, up := math.Inf(1), math.Inf(-1)
	for k := uint8(1); k <= 3; k++ {
		lb, err := s.LowerBound(k)
		t.NoErr(err, "lb")
		ub, err := s.UpperBound(k)
		t.NoErr(err, "ub")
		if !em {
			t.Check(lb == est && ub == est, "exact-bounds", "%s: exact bounds [%v,%v] estimate %v", form, lb, ub, est)
			continue
		}
		t.Check(lb <= est && est <= ub, "bracket", "%s: [%v, %v] does not bracket %v (n=%v theta=%v k=%d)", form, lb, ub, est, n, th, k)
		t.Check(lb >= n, "lb-below-count", "%s: lower bound %v below %v retained", form, lb, n)
		t.Check(lb <= lp && ub >= up, "widening", "%s: bounds do not widen at %d std devs", form, k)
		lp, up = lb, ub
		t.Ev("bounds")
	}
	if em {
		for _, k := range []uint8{0, 4, 200} {
			_, e1 := s.LowerBound(k)
			_, e2 := s.UpperBound(k)
			t.Check(e1 != nil && e2 != nil, "numstddevs", "%s: numStdDevs=%d accepted", form, k)
		}
	}
	_ = s.String(true)
}

// thetaForms returns every form of a sketch.
func thetaForms(t *T, s *theta.QuickSelectUpdateSketch, seed uint64) map[string]theta.Sketch {
	out := map[string]theta.Sketch{"update": s}
	for _, ord := range []bool{false, true} {
		c := s.Compact(ord)
		out[fmt.Sprintf("compact-%v", ord)] = c
		for _, cmp := range []bool{false, true} {
			var buf bytes.Buffer
			e := theta.NewEncoder(&buf, cmp)
			t.NoErr(e.Encode(c), "encode")
			d, err := theta.Decode(buf.Bytes(), seed)
			t.NoErr(err, "decode")
			out[fmt.Sprintf("decoded-%v-%v", ord, cmp)] = d
			w, err := theta.WrapCompactSketch(buf.Bytes(), seed)
			t.NoErr(err, "wrap")
			out[fmt.Sprintf("wrapped-%v-%v", ord, cmp)] = w
		}
	}
	return out
}

func t02Forms(t *T) {
	lgK := uint8(5 + t.IntN(8))
	p := float32(1)
	if t.IntN(3) == 0 {
		p = []float32{0.5, 0.1, 0.9, 0.001}[t.IntN(4)]
	}
	seed := seedsPool[t.IntN(len(seedsPool))]
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	n := int(math.Exp(t.Float64() * math.Log(float64(uint(20)<<lgK))))
	if t.IntN(10) == 0 {
		n = 0
	}
	base := int64(t.Uint64())
	for i := 0; i < n; i++ {
		_ = s.UpdateInt64(base + int64(i))
	}
	t.Desc("lgK=%d p=%v n=%d", lgK, p, n)
	t.Sig(lgK, p, n, s.Theta64())
	if s.IsEstimationMode() {
		t.NonTrivial()
	}
	for f, x := range thetaForms(t, s, seed) {
		checkBounds(t, x, n, f)
		t.Check(x.Estimate() == s.Estimate(), "form-estimate", "%s estimate %v, update sketch %v", f, x.Estimate(), s.Estimate())
		for k := uint8(1); k <= 3; k++ {
			a, _ := s.LowerBound(k)
			b, _ := x.LowerBound(k)
			c, _ := s.UpperBound(k)
			d, _ := x.UpperBound(k)
			t.Check(a == b && c == d, "form-bounds", "%s bounds [%v,%v], update sketch [%v,%v]", f, b, d, a, c)
		}
	}
}

// t02Grid compares the bounds with exact binomial confidence limits over the
// whole (count, theta) plane.
func t02Grid(t *T) {
	var n int
	switch t.IntN(4) {
	case 0:
		n = t.IntN(4)
	case 1:
		n = t.IntN(130)
	case 2:
		n = 100 + t.IntN(60)
	default:
		n = int(math.Exp(t.Float64() * math.Log(30000)))
	}
	var th float64
	switch t.IntN(4) {
	case 0:
		th = math.Exp(-t.Float64() * 30)
	case 1:
		th = 1 - math.Exp(-t.Float64()*25)
	case 2:
		th = t.Float64()
	default:
		th = float64(n+1) / 360 * (0.2 + 4*t.Float64())
	}
	if th >= 1 || th <= 0 {
		th = 0.5
	}
	th64 := uint64(th * math.MaxInt64)
	if th64 < uint64(n)+2 || th64 >= theta.MaxTheta {
		th64 = 1 << 62
	}
	list := make([]uint64, n)
	for i := range list {
		list[i] = uint64(i) + 1
	}
	s := theta.NewCompactSketch(&fakeSketch{th: th64, list: list, ord: true}, true)
	th = s.Theta()
	t.Desc("retained=%d theta=%v", n, th)
	t.Sig(n, th64)
	t.NonTrivial()
	checkBounds(t, s, -1, "grid")
	for k := uint8(1); k <= 3; k++ {
		lb, _ := s.LowerBound(k)
		ub, _ := s.UpperBound(k)
		// for tiny theta the bounds scale as 1/theta (Poisson limit)
		rt := math.Max(th, 1e-6)
		lo, hi := ref.SampledBounds(float64(n), rt, float64(k))
		lo, hi = lo*rt/th, hi*rt/th
		est := float64(n) / th
		lo = math.Min(est, math.Max(lo, float64(n)))
		hi = math.Max(hi, est)
		dl, du := t02Dev(lb, lo, n, th), t02Dev(ub, hi, n, th)
		t.Check(dl <= t02Tol(n, th, k), "exact-lower", "n=%d theta=%v k=%d: lower bound %v, exact binomial %v (%.3f standard units off)", n, th, k, lb, lo, dl)
		t.Check(du <= t02Tol(n, th, k), "exact-upper", "n=%d theta=%v k=%d: upper bound %v, exact binomial %v (%.3f standard units off)", n, th, k, ub, hi, du)
		t.Ev("exact-compare")
	}
}

// t02Dev is the distance in standard deviations of the estimate, beyond the
// one item that rounding to whole items may cost.
func t02Dev(got, want float64, n int, th float64) float64 {
	sd := math.Sqrt(float64(n)+0.25) / th * math.Sqrt(1-th)
	d := math.Abs(got-want) - 1.01
	if d <= 0 {
		return 0
	}
	return d / (sd + 1e-9)
}

// t02Tol is about twice the largest deviation of the published approximation
// (tables and Gaussian formula of the reference libraries) from the exact
// limits, measured over 200000 points.
func t02Tol(n int, th float64, k uint8) float64 {
	switch {
	case n <= 1:
		return 0.008
	case n <= 120 && th < 1e-4:
		return 0.0005
	case n <= 120 && th < 0.003:
		return 0.006
	case n <= 120:
		return []float64{0, 0.002, 0.015, 0.09}[k]
	}
	return []float64{0, 0.002, 0.09, 0.5}[k]
}

func t02Coverage(t *T) {
	lgK := uint8(5 + t.IntN(6))
	p := float32(1)
	if t.IntN(3) == 0 {
		p = 0.3
	}
	n := int(float64(uint(1)<<lgK) * (1 + 12*t.Float64()))
	trials := 300
	var in [4]int
	used := 0
	var sum float64
	for r := 0; r < trials; r++ {
		s, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(p))
		for i := 0; i < n; i++ {
			_ = s.UpdateUint64(t.Uint64())
		}
		used++
		sum += s.Estimate()
		for k := uint8(1); k <= 3; k++ {
			lb, _ := s.LowerBound(k)
			ub, _ := s.UpperBound(k)
			if lb <= float64(n) && float64(n) <= ub {
				in[k]++
			}
		}
	}
	t.Desc("lgK=%d p=%v n=%d: inside %v of %d", lgK, p, n, in[1:], used)
	t.Sig(lgK, p, n)
	t.NonTrivial()
	t.EvN("coverage-trials", used)
	f := func(k int) float64 { return float64(in[k]) / float64(used) }
	t.Check(f(1) >= 0.52 && f(2) >= 0.87 && f(3) >= 0.96, "coverage", "true count inside the bounds in %.3f/%.3f/%.3f of %d streams (n=%d lgK=%d p=%v)", f(1), f(2), f(3), used, n, lgK, p)
	rse := 1 / math.Sqrt(float64(uint(1)<<lgK)) * 1.5
	if p < 1 {
		rse += math.Sqrt((1 - float64(p)) / float64(p) / float64(n))
	}
	t.Check(math.Abs(sum/float64(used)/float64(n)-1) < 6*rse/math.Sqrt(float64(used)), "bias", "mean estimate %v for n=%d over %d streams", sum/float64(used), n, used)
}
