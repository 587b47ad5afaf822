package mon

import (
	"bytes"
	"math"
	"slices"

	sp "github.com/apache/datasketches-go/sampling"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("S01", "samples checked against the positions of the fed stream after every few updates; retention counted over repeated runs; subset sums against counts of the samples and of the stream",
		core.Family{Name: "stream", Quick: 8000, Thorough: 80000, Run: spRun(s01Stream[int64], s01Stream[float64], s01Stream[float32], s01Stream[string])},
		core.Family{Name: "uniform", Quick: 60, Thorough: 1000, Run: s01Uniform},
		core.Family{Name: "coverage", Quick: 24, Thorough: 240, Run: s01Coverage},
		core.Family{Name: "aged", Quick: 400, Thorough: 8000, Run: spRun(s01Aged[int64], s01Aged[float64], s01Aged[float32], s01Aged[string])})
	core.Register("S02", "union results checked against the positions of all inputs; retention counted over repeated runs of the same script",
		core.Family{Name: "script", Quick: 8000, Thorough: 80000, Run: spRun(s02Script[int64], s02Script[float64], s02Script[float32], s02Script[string])},
		core.Family{Name: "uniform", Quick: 60, Thorough: 1000, Run: s02Uniform},
		core.Family{Name: "aged", Quick: 800, Thorough: 16000, Run: spRun(s02Aged[int64], s02Aged[float64], s02Aged[float32], s02Aged[string])},
		core.Family{Name: "share", Quick: 40, Thorough: 800, Run: s02Share})
	core.Assume("S01", "the pseudo-random source of the library is taken as given")
}

// spModel is what a reservoir was fed since its last reset.
type spModel[I comparable] struct {
	pos map[I]int // items fed -> position
	n   int64
}

// s01Check checks the samples against the stream and returns the positions.
func s01Check[I comparable](t *T, s *sp.ReservoirItemsSketch[I], m *spModel[I], k int, key string) []I {
	t.Check(s.K() == k, key+"/k", "k %d, configured %d", s.K(), k)
	t.Check(s.N() == m.n, key+"/n", "n %d, fed %d", s.N(), m.n)
	sam := s.Samples()
	want := int(min(int64(k), m.n))
	t.Check(len(sam) == want && s.NumSamples() == want, key+"/size", "%d samples (NumSamples %d), expected %d", len(sam), s.NumSamples(), want)
	seen := map[I]bool{}
	for _, x := range sam {
		_, ok := m.pos[x]
		t.Check(ok, key+"/foreign", "sample %v was never fed", x)
		t.Check(!seen[x], key+"/twice", "sample %v held twice", x)
		seen[x] = true
	}
	t.EvN("samples", len(sam))
	return sam
}

func s01Subset[I comparable](t *T, s *sp.ReservoirItemsSketch[I], m *spModel[I], key string) {
	mod := 1 + t.IntN(5)
	pred := func(x I) bool { return m.pos[x]%mod == 0 }
	switch t.IntN(8) {
	case 0:
		pred = func(I) bool { return true }
	case 1:
		pred = func(I) bool { return false }
	}
	ss, err := s.EstimateSubsetSum(pred)
	t.NoErr(err, key+"/subset")
	cnt := 0
	sam := s.Samples()
	for _, x := range sam {
		if pred(x) {
			cnt++
		}
	}
	truth := 0
	for x := range m.pos {
		if pred(x) {
			truth++
		}
	}
	t.Check(ss.TotalSketchWeight == float64(m.n), key+"/subset-total", "total weight %v of %d", ss.TotalSketchWeight, m.n)
	t.Check(ss.LowerBound <= ss.Estimate*(1+1e-12) && ss.Estimate <= ss.UpperBound*(1+1e-12), key+"/subset-order", "bounds %v %v %v", ss.LowerBound, ss.Estimate, ss.UpperBound)
	t.Check(ss.LowerBound >= 0 && ss.UpperBound <= float64(m.n)*(1+1e-12), key+"/subset-range", "bounds %v %v %v of %d", ss.LowerBound, ss.Estimate, ss.UpperBound, m.n)
	if m.n <= int64(s.K()) {
		t.Check(ss.Estimate == float64(truth) && ss.LowerBound == ss.Estimate && ss.UpperBound == ss.Estimate, key+"/subset-exact", "subset sum %v %v %v, exactly %d", ss.LowerBound, ss.Estimate, ss.UpperBound, truth)
	} else {
		want := float64(m.n) * float64(cnt) / float64(len(sam))
		t.Check(spClose(ss.Estimate, want, 1e-12), key+"/subset-estimate", "subset estimate %v, %d of %d samples of %d: %v", ss.Estimate, cnt, len(sam), m.n, want)
		spBounds(t, ss, len(sam), cnt, float64(len(sam))/float64(m.n), 0, float64(m.n), key)
		t.NonTrivial()
	}
	t.Ev("subset sums")
}

// spBounds compares the bounds of a subset sum with two standard deviations of
// a sample without replacement: base plus total times the exact binomial bounds
// on the proportion x of n, the deviations shrunk by the part sampled. The
// library's approximation of those stays within 0.05 standard errors.
func spBounds(t *T, ss sp.SampleSubsetSummary, n, x int, rate, base, total float64, key string) {
	lo, hi := ref.ProportionBounds(n, x, 2*math.Sqrt(max(0, 1-rate)))
	fn := float64(n)
	fx := min(max(float64(x), 1), fn-0.5)
	tol := total*0.15*math.Sqrt(fx*(fn-fx)/fn)/fn + 1e-9*(base+total)
	t.Check(math.Abs(ss.LowerBound-base-total*lo) <= tol, key+"/subset-lower", "lower bound %v, two standard deviations of %d of %d (rate %v, %v + p*%v) give %v (tolerance %v)", ss.LowerBound, x, n, rate, base, total, base+total*lo, tol)
	t.Check(math.Abs(ss.UpperBound-base-total*hi) <= tol, key+"/subset-upper", "upper bound %v, two standard deviations of %d of %d (rate %v, %v + p*%v) give %v (tolerance %v)", ss.UpperBound, x, n, rate, base, total, base+total*hi, tol)
	t.Ev("subset bounds against exact proportions")
}

func s01New[I comparable](t *T, k int) (*sp.ReservoirItemsSketch[I], sp.ResizeFactor) {
	rf := spRFs[t.IntN(4)]
	var opts []sp.ReservoirItemsSketchOptionFunc
	if t.IntN(3) > 0 {
		opts = append(opts, sp.WithReservoirItemsSketchResizeFactor(rf))
	} else {
		rf = sp.ResizeX8
	}
	s, err := sp.NewReservoirItemsSketch[I](k, opts...)
	t.NoErr(err, "new")
	return s, rf
}

func s01K(t *T) int {
	switch t.IntN(5) {
	case 0:
		return 2 + t.IntN(4)
	case 1:
		return 2 + t.IntN(400)
	case 2:
		return []int{15, 16, 17, 31, 32, 33, 64, 127, 128, 129}[t.IntN(10)]
	}
	return 2 + t.IntN(40)
}

func s01N(t *T, k int) int {
	switch t.IntN(6) {
	case 0:
		return t.IntN(k + 1)
	case 1:
		return k
	case 2:
		return k + t.IntN(3)
	case 3:
		return t.IntN(10*k + 10)
	}
	return t.IntN(3*k + 3)
}

func s01Stream[I comparable](t *T, kd *spKind[I]) {
	k := s01K(t)
	s, rf := s01New[I](t, k)
	m := &spModel[I]{pos: map[I]int{}}
	t.Desc("%s reservoir k=%d rf=%d", kd.name, k, rf)
	t.Sig(kd.name, k, rf)
	next := 0
	feed := func(n int) {
		for range n {
			x := kd.key(next)
			t.NoErr(s.Update(x), "update")
			m.pos[x] = next
			m.n++
			next++
			t.Ev("updates")
			if t.IntN(16) == 0 {
				s01Check(t, s, m, k, "stream")
			}
		}
	}
	for range 1 + t.IntN(4) {
		feed(s01N(t, k))
		before := s01Check(t, s, m, k, "stream")
		s01Subset(t, s, m, "stream")
		if m.n > int64(k) {
			t.NonTrivial()
		}
		t.Sig(m.n)
		switch t.IntN(6) {
		case 0:
			s.Reset()
			m = &spModel[I]{pos: map[I]int{}}
			t.Check(s.N() == 0 && s.NumSamples() == 0 && len(s.Samples()) == 0, "reset", "n %d, %d samples after reset", s.N(), s.NumSamples())
			t.Ev("resets")
		case 1: // the original continues, its copy stays
			c := s.Copy()
			old := &spModel[I]{pos: map[I]int{}, n: m.n}
			for x, p := range m.pos {
				old.pos[x] = p
			}
			feed(s01N(t, k))
			t.Check(slices.Equal(c.Samples(), before), "copy-changed", "updating the original changed its copy")
			s01Check(t, c, old, k, "copy")
			s01Check(t, s, m, k, "stream")
		case 2: // the copy continues, the original stays
			c := s.Copy()
			orig := s
			s = c
			feed(s01N(t, k))
			t.Check(slices.Equal(orig.Samples(), before), "original-changed", "updating the copy changed its original")
		case 3:
			img, err := s.ToSlice(kd.serde)
			t.NoErr(err, "encode")
			s, err = sp.NewReservoirItemsSketchFromSlice[I](img, kd.serde)
			t.NoErr(err, "decode")
			s01Check(t, s, m, k, "decoded")
		case 4: // the result is the caller's
			sam := s.Samples()
			var zero I
			for i := range sam {
				sam[i] = zero
			}
			t.Check(slices.Equal(s.Samples(), before), "samples-aliased", "writing to returned samples changed the sketch")
		}
	}
	s01Check(t, s, m, k, "end")
	for _, bad := range []int{1, 0, -1, math.MinInt32} {
		_, err := sp.NewReservoirItemsSketch[I](bad)
		t.Check(err != nil, "bad-k", "k=%d accepted", bad)
	}
}

// s01Uniform counts how often each position is retained.
func s01Uniform(t *T) {
	k := 2 + t.IntN(20)
	n := k + 1 + t.IntN(60)
	mode := t.IntN(5)
	reps := 4000
	if t.Thorough() {
		reps = 20000
	}
	cut := t.IntN(n + 1)
	rf := spRFs[t.IntN(4)]
	t.Desc("retention of reservoir k=%d n=%d mode %d cut %d", k, n, mode, cut)
	t.Sig(k, n, mode, cut)
	counts := make([]int, n)
	// joint retention of two neighbours, which sampling without replacement fixes too
	joint := 0
	a := t.IntN(n - 1)
	for range reps {
		s, err := sp.NewReservoirItemsSketch[int64](k, sp.WithReservoirItemsSketchResizeFactor(rf))
		t.NoErr(err, "new")
		for i := range n {
			if i == cut {
				switch mode {
				case 1:
					s = s.Copy()
				case 2:
					img, err := s.ToSlice(spLong.serde)
					t.NoErr(err, "encode")
					s, err = sp.NewReservoirItemsSketchFromSlice[int64](img, spLong.serde)
					t.NoErr(err, "decode")
				case 3:
					_, err := s.EstimateSubsetSum(func(int64) bool { return true })
					t.NoErr(err, "subset")
				case 4:
					if i == cut {
						s.Reset()
						for j := range i {
							t.NoErr(s.Update(int64(j)), "update")
						}
					}
				}
			}
			t.NoErr(s.Update(int64(i)), "update")
		}
		both := 0
		for _, x := range s.Samples() {
			counts[x]++
			if int(x) == a || int(x) == a+1 {
				both++
			}
		}
		if both == 2 {
			joint++
		}
	}
	t.EvN("runs", reps)
	t.NonTrivial()
	spUniform(t, counts, reps, float64(k)/float64(n), "uniform")
	pj := float64(k) * float64(k-1) / (float64(n) * float64(n-1))
	t.Check(ref.BinomUpperTail(reps, joint, pj) > 1e-11 && ref.BinomLowerTail(reps, joint, pj) > 1e-11, "pairs", "positions %d and %d kept together %d of %d times, expected %.1f", a, a+1, joint, reps, pj*float64(reps))
}

// s01Coverage counts how often the two-standard-deviation bounds hold the truth.
func s01Coverage(t *T) {
	k := 20 + t.IntN(60)
	n := k * (2 + t.IntN(10))
	mod := 2 + t.IntN(4)
	reps := 600
	t.Desc("coverage of subset sums, reservoir k=%d n=%d, every %dth", k, n, mod)
	t.Sig(k, n, mod)
	truth := float64((n + mod - 1) / mod)
	out := 0
	sum := 0.0
	for range reps {
		s, err := sp.NewReservoirItemsSketch[int64](k)
		t.NoErr(err, "new")
		for i := range n {
			t.NoErr(s.Update(int64(i)), "update")
		}
		ss, err := s.EstimateSubsetSum(func(x int64) bool { return x%int64(mod) == 0 })
		t.NoErr(err, "subset")
		if truth < ss.LowerBound || truth > ss.UpperBound {
			out++
		}
		sum += ss.Estimate
	}
	t.EvN("estimates", reps)
	t.EvN("out of bounds", out)
	t.NonTrivial()
	t.Logf("out %d of %d", out, reps)
	t.Check(ref.BinomUpperTail(reps, out, 0.08) > 1e-10, "coverage", "%d of %d subset sums out of their two-sigma bounds", out, reps)
	p := truth / float64(n)
	sd := float64(n) * math.Sqrt(p*(1-p)/float64(k)/float64(reps))
	t.Check(math.Abs(sum/float64(reps)-truth) < 7.5*sd, "bias", "mean subset estimate %v of %v (sd %v)", sum/float64(reps), truth, sd)
}

// ---- S02

type s02Step struct {
	kind int // 0 sketch, 1 direct items, 2 raw, 3 serialize, 4 result
	k, n int
}

func s02Steps(t *T, maxK int, count int) []s02Step {
	var out []s02Step
	for range count {
		st := s02Step{kind: t.IntN(7)}
		switch t.IntN(4) {
		case 0:
			st.k = maxK
		case 1:
			st.k = 2 + t.IntN(maxK)
		default:
			st.k = 2 + t.IntN(3*maxK)
		}
		st.n = s01N(t, st.k)
		if st.kind > 4 {
			st.kind = 0
		}
		if st.kind == 1 {
			st.n = t.IntN(2 * maxK)
		}
		out = append(out, st)
	}
	return out
}

// s02Run plays steps on a fresh union and returns it and the positions fed.
func s02Run[I comparable](t *T, kd *spKind[I], maxK int, steps []s02Step, deep bool) (u *sp.ReservoirItemsUnion[I], m *spModel[I], minK int) {
	u, err := sp.NewReservoirItemsUnion[I](maxK)
	t.NoErr(err, "new")
	m = &spModel[I]{pos: map[I]int{}}
	next := 0
	minK = maxK
	one := func() I {
		x := kd.key(next)
		m.pos[x] = next
		next++
		m.n++
		return x
	}
	for _, st := range steps {
		switch st.kind {
		case 0, 2:
			s, err := sp.NewReservoirItemsSketch[I](st.k)
			t.NoErr(err, "new")
			for range st.n {
				t.NoErr(s.Update(one()), "update")
			}
			if st.n > st.k {
				minK = min(minK, st.k)
			}
			if st.kind == 2 && st.n > 0 {
				t.NoErr(u.UpdateFromRaw(int64(st.n), st.k, s.Samples()), "update-raw")
				t.Ev("raw merges")
				break
			}
			var before []I
			if deep {
				before = s.Samples()
			}
			t.NoErr(u.UpdateSketch(s), "update-sketch")
			t.Ev("merges")
			if deep {
				t.Check(slices.Equal(before, s.Samples()) && s.N() == int64(st.n) && s.K() == st.k, "input-changed", "the union changed its input")
				if t.IntN(3) == 0 { // changing the input afterwards must not reach the union
					r1, err := u.Result()
					t.NoErr(err, "result")
					for range 3 {
						t.NoErr(s.Update(kd.key(1<<20)), "update")
					}
					s.Reset()
					r2, err := u.Result()
					t.NoErr(err, "result")
					t.Check(slices.Equal(r1.Samples(), r2.Samples()), "input-aliased", "changing a merged input changed the union")
				}
			}
		case 1:
			for range st.n {
				t.NoErr(u.Update(one()), "update")
			}
		case 3:
			img, err := u.ToSlice(kd.serde)
			t.NoErr(err, "encode")
			u, err = sp.NewReservoirItemsUnionFromSlice[I](img, kd.serde)
			t.NoErr(err, "decode")
			t.Ev("restored unions")
		case 4:
			r, err := u.Result()
			t.NoErr(err, "result")
			if deep && r != nil {
				s02Check(t, u, m, maxK, minK, "step")
				for range 3 { // the result is the caller's
					t.NoErr(r.Update(kd.key(1<<20)), "update")
				}
				s02Check(t, u, m, maxK, minK, "after-result-changed")
			}
		}
		if deep {
			s02Check(t, u, m, maxK, minK, "step")
		}
	}
	return u, m, minK
}

func s02Check[I comparable](t *T, u *sp.ReservoirItemsUnion[I], m *spModel[I], maxK, minK int, key string) {
	t.Check(u.MaxK() == maxK, key+"/maxk", "maximum k %d, configured %d", u.MaxK(), maxK)
	r, err := u.Result()
	t.NoErr(err, key+"/result")
	if r == nil {
		t.Check(m.n == 0, key+"/nil", "no result after %d items", m.n)
		return
	}
	t.Check(r.K() <= maxK && r.K() >= minK, key+"/k", "result k %d, limit %d, smallest sampled input %d", r.K(), maxK, minK)
	s01Check(t, r, m, r.K(), key)
	if minK == maxK && m.n <= int64(maxK) {
		t.Check(len(r.Samples()) == int(m.n), key+"/kept", "%d of %d items kept although all fit", len(r.Samples()), m.n)
	} else {
		t.NonTrivial()
	}
	s01Subset(t, r, m, key)
}

func s02Script[I comparable](t *T, kd *spKind[I]) {
	maxK := s01K(t)
	steps := s02Steps(t, maxK, 1+t.IntN(6))
	t.Desc("%s reservoir union max k=%d: %v", kd.name, maxK, steps)
	t.Sig(kd.name, maxK, steps)
	u, m, minK := s02Run(t, kd, maxK, steps, true)
	s02Check(t, u, m, maxK, minK, "end")
	if t.IntN(3) == 0 {
		u.Reset()
		if r, err := u.Result(); r != nil {
			t.NoErr(err, "result")
			t.Check(r.N() == 0 && r.NumSamples() == 0, "reset", "n %d after reset", r.N())
		}
		m2 := &spModel[I]{pos: map[I]int{}}
		n := s01N(t, maxK)
		for i := range n {
			x := kd.key(5000 + i)
			m2.pos[x] = i
			m2.n++
			t.NoErr(u.Update(x), "update")
		}
		if n > 0 {
			s02Check(t, u, m2, maxK, maxK, "after-reset")
		}
		t.Ev("resets")
	}
	img, err := u.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	img2, err := u.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	t.Check(bytes.Equal(img, img2), "encode-twice", "encoding twice gives different bytes")
	for _, bad := range []int{1, 0, -3} {
		b, err := sp.NewReservoirItemsUnion[I](bad)
		t.Check(err != nil && b == nil, "bad-k", "maximum k=%d accepted", bad)
	}
}

func s02Uniform(t *T) {
	maxK := 2 + t.IntN(16)
	var steps []s02Step
	total := 0
	for total < maxK+2 || total > 90 {
		steps = s02Steps(t, maxK, 2+t.IntN(3))
		total = 0
		for _, st := range steps {
			if st.kind < 3 {
				total += st.n
			}
		}
	}
	reps := 4000
	if t.Thorough() {
		reps = 20000
	}
	t.Desc("retention of reservoir union max k=%d: %v", maxK, steps)
	t.Sig(maxK, steps)
	counts := make([]int, total)
	var p float64
	kept := -1
	for range reps {
		u, m, _ := s02Run(t, &spLong, maxK, steps, false)
		r, err := u.Result()
		t.NoErr(err, "result")
		sam := r.Samples()
		for _, x := range sam {
			pos, ok := m.pos[x]
			t.Check(ok, "foreign", "sample %v was never fed", x)
			counts[pos]++
		}
		t.Check(kept < 0 || kept == len(sam), "size-varies", "%d samples in one run, %d in another", kept, len(sam))
		kept = len(sam)
		p = float64(kept) / float64(total)
	}
	t.EvN("runs", reps)
	t.NonTrivial()
	spUniform(t, counts, reps, p, "uniform")
}
