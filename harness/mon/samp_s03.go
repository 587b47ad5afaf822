package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"

	sp "github.com/apache/datasketches-go/sampling"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("S03", "samples checked against the weights fed and the exact variance-optimal threshold of the whole stream; inclusion frequencies against their exact probabilities",
		core.Family{Name: "stream", Quick: 12000, Thorough: 100000, Run: spRun(s03Stream[int64], s03Stream[float64], s03Stream[float32], s03Stream[string])},
		core.Family{Name: "inclusion", Quick: 80, Thorough: 1200, Run: s03Inclusion},
		core.Family{Name: "coverage", Quick: 120, Thorough: 2400, Run: s03Coverage},
		core.Family{Name: "aged", Quick: 800, Thorough: 16000, Run: spRun(s03Aged[int64], s03Aged[float64], s03Aged[float32], s03Aged[string])})
	core.Register("S04", "union results checked against the weights of all inputs, used on as sketches and as inputs of further unions; mean adjusted weights over repeated runs",
		core.Family{Name: "script", Quick: 12000, Thorough: 100000, Run: spRun(s04Script[int64], s04Script[float64], s04Script[float32], s04Script[string])},
		core.Family{Name: "unbiased", Quick: 60, Thorough: 1000, Run: s04Unbiased},
		core.Family{Name: "aged", Quick: 800, Thorough: 16000, Run: spRun(s04Aged[int64], s04Aged[float64], s04Aged[float32], s04Aged[string])})
	core.Register("S05", "images read by an independent parser and by the library, compared sample by sample and evolved",
		core.Family{Name: "varopt", Quick: 8000, Thorough: 80000, Run: spRun(s05VarOpt[int64], s05VarOpt[float64], s05VarOpt[float32], s05VarOpt[string])},
		core.Family{Name: "varopt-union", Quick: 6000, Thorough: 60000, Run: spRun(s05Union[int64], s05Union[float64], s05Union[float32], s05Union[string])},
		core.Family{Name: "reservoir", Quick: 8000, Thorough: 80000, Run: spRun(s05Reservoir[int64], s05Reservoir[float64], s05Reservoir[float32], s05Reservoir[string])},
		core.Family{Name: "aged", Quick: 800, Thorough: 16000, Run: spRun(s05Aged[int64], s05Aged[float64], s05Aged[float32], s05Aged[string])})
	core.Assume("S03", "the pseudo-random source of the library is taken as given", "weights span less than fifteen decimal orders of magnitude per stream and add up to a finite total")
}

// voModel is the weighted stream fed.
type voModel[I comparable] struct {
	pos map[I]int
	ws  []float64 // by position
}

func newVoModel[I comparable]() *voModel[I] { return &voModel[I]{pos: map[I]int{}} }

func (m *voModel[I]) add(x I, w float64) { m.pos[x] = len(m.ws); m.ws = append(m.ws, w) }

func (m *voModel[I]) clone() *voModel[I] {
	c := newVoModel[I]()
	for x, p := range m.pos {
		c.pos[x] = p
	}
	c.ws = slices.Clone(m.ws)
	return c
}

func (m *voModel[I]) total() float64 {
	s := 0.0
	for _, w := range m.ws {
		s += w
	}
	return s
}

type voSam[I comparable] struct {
	item I
	w    float64
}

func voAll[I comparable](s *sp.VarOptItemsSketch[I]) (out []voSam[I]) {
	for x := range s.All() {
		out = append(out, voSam[I]{x.Item, x.Weight})
	}
	return
}

func voSorted[I comparable](s *sp.VarOptItemsSketch[I]) (out []float64) {
	for x := range s.All() {
		out = append(out, x.Weight)
	}
	slices.Sort(out)
	return
}

const voTol = 1e-9

// voBase holds for the sketches of a stream and for results of unions alike.
func voBase[I comparable](t *T, s *sp.VarOptItemsSketch[I], m *voModel[I], key string) []voSam[I] {
	t.Check(s.N() == int64(len(m.ws)), key+"/n", "n %d, fed %d", s.N(), len(m.ws))
	t.Check(s.IsEmpty() == (len(m.ws) == 0), key+"/empty", "empty %v after %d", s.IsEmpty(), len(m.ws))
	sam := voAll(s)
	t.Check(len(sam) == s.NumSamples() && s.H()+s.R() == len(sam), key+"/size", "%d samples, NumSamples %d, H %d R %d", len(sam), s.NumSamples(), s.H(), s.R())
	t.Check(len(sam) <= s.K(), key+"/limit", "%d samples with k %d", len(sam), s.K())
	seen := map[I]bool{}
	sum := 0.0
	maxLight := 0.0
	tau := 0.0
	for i, x := range sam {
		p, ok := m.pos[x.item]
		t.Check(ok, key+"/foreign", "sample %v was never fed", x.item)
		t.Check(!seen[x.item], key+"/twice", "sample %v held twice", x.item)
		seen[x.item] = true
		sum += x.w
		if i < s.H() {
			t.Check(x.w == m.ws[p], key+"/heavy-weight", "heavy sample %v has weight %v, fed with %v", x.item, x.w, m.ws[p])
		} else {
			t.Check(x.w >= m.ws[p]*(1-voTol), key+"/light-weight", "light sample %v has weight %v below its own %v", x.item, x.w, m.ws[p])
			t.Check(tau == 0 || x.w == tau, key+"/tau", "light samples with weights %v and %v", x.w, tau)
			tau = x.w
			maxLight = max(maxLight, m.ws[p])
		}
	}
	t.Check(spClose(sum, m.total(), voTol), key+"/sum", "adjusted weights add up to %v, fed %v", sum, m.total())
	for i, x := range sam[:s.H()] {
		t.Check(tau == 0 || x.w >= tau*(1-voTol), key+"/heavy-light", "heavy sample %d has weight %v below the threshold %v", i, x.w, tau)
	}
	if tau > 0 {
		for x, p := range m.pos {
			t.Check(m.ws[p] <= tau*(1+voTol) || seen[x], key+"/heavy-lost", "item %v of weight %v above the threshold %v is missing", x, m.ws[p], tau)
		}
	} else {
		t.Check(len(sam) == len(m.ws), key+"/exact", "%d of %d items in exact mode", len(sam), len(m.ws))
	}
	t.EvN("samples", len(sam))
	return sam
}

func s03Check[I comparable](t *T, s *sp.VarOptItemsSketch[I], m *voModel[I], k int, key string) []voSam[I] {
	t.Check(s.K() == k, key+"/k", "k %d, configured %d", s.K(), k)
	sam := voBase(t, s, m, key)
	t.Check(len(sam) == min(k, len(m.ws)), key+"/size", "%d samples of %d with k %d", len(sam), len(m.ws), k)
	if len(m.ws) > k {
		tau := spTau(m.ws, k)
		for _, x := range sam {
			w := m.ws[m.pos[x.item]]
			t.Check(spClose(x.w, max(w, tau), voTol), key+"/threshold", "sample %v of weight %v has adjusted weight %v, the threshold is %v", x.item, w, x.w, tau)
		}
		if s.H() > 0 {
			t.NonTrivial()
		}
		t.Ev("thresholds")
	}
	return sam
}

func voSubset[I comparable](t *T, s *sp.VarOptItemsSketch[I], m *voModel[I], key string) {
	mod := 1 + t.IntN(5)
	pred := func(x I) bool { return m.pos[x]%mod == 0 }
	switch t.IntN(8) {
	case 0:
		pred = func(I) bool { return true }
	case 1:
		pred = func(I) bool { return false }
	}
	ss, err := s.EstimateSubsetSum(pred)
	t.NoErr(err, key+"/subset")
	want, heavy, inH := 0.0, 0.0, 0.0
	cnt := 0 // of the light samples
	for i, x := range voAll(s) {
		if i < s.H() {
			inH += x.w
		} else if pred(x.item) {
			cnt++
		}
		if pred(x.item) {
			want += x.w
			if i < s.H() {
				heavy += x.w
			}
		}
	}
	t.Check(spClose(ss.TotalSketchWeight, m.total(), voTol), key+"/subset-total", "total weight %v of %v", ss.TotalSketchWeight, m.total())
	t.Check(spClose(ss.Estimate, want, voTol), key+"/subset-estimate", "subset estimate %v, samples add up to %v", ss.Estimate, want)
	t.Check(ss.LowerBound <= ss.Estimate*(1+1e-12) && ss.Estimate <= ss.UpperBound*(1+1e-12), key+"/subset-order", "bounds %v %v %v", ss.LowerBound, ss.Estimate, ss.UpperBound)
	t.Check(ss.LowerBound >= heavy*(1-voTol) && ss.UpperBound <= m.total()*(1+voTol), key+"/subset-range", "bounds %v %v %v with %v heavy of %v", ss.LowerBound, ss.Estimate, ss.UpperBound, heavy, m.total())
	if s.R() == 0 {
		t.Check(ss.LowerBound == ss.Estimate && ss.UpperBound == ss.Estimate, key+"/subset-exact", "bounds %v %v %v in exact mode", ss.LowerBound, ss.Estimate, ss.UpperBound)
	} else if total := m.total(); total-inH > 1e-6*total {
		spBounds(t, ss, s.R(), cnt, float64(s.R())/float64(s.N()-int64(s.H())), heavy, total-inH, key)
	}
	t.Ev("subset sums")
}

// voWeights returns a weight source; scale is a constant factor on all weights.
func voWeights(t *T) (func(i int) float64, string) {
	kind := t.IntN(11)
	scale := 1.0
	switch t.IntN(4) {
	case 0:
		scale = math.Exp(40 * (t.Float64() - 0.5))
	case 1:
		scale = []float64{1e-100, 1e100, 1e9, 0.1, 1e15}[t.IntN(5)]
	}
	f := func(i int) float64 { return 1 }
	switch kind {
	case 1:
		f = func(int) float64 { return 0.1 * float64(1+t.IntN(10)) }
	case 2:
		f = func(int) float64 { return t.ExpFloat64() + 1e-6 }
	case 3: // heavy tail
		f = func(int) float64 { return math.Pow(1-t.Float64(), -1.2) }
	case 4:
		f = func(i int) float64 { return float64(i + 1) }
	case 5:
		f = func(i int) float64 { return 1 / float64(i+1) }
	case 6: // few giants
		f = func(int) float64 {
			if t.IntN(20) == 0 {
				return 1000 * (1 + t.Float64())
			}
			return t.Float64() + 0.01
		}
	case 7: // powers of two
		f = func(int) float64 { return math.Ldexp(1, t.IntN(20)) }
	case 8: // growing fast
		f = func(i int) float64 { return math.Pow(1.2, float64(i%150)) }
	case 9: // two values
		a, b := 1+t.Float64(), float64(1+t.IntN(30))
		f = func(int) float64 {
			if t.IntN(3) == 0 {
				return b
			}
			return a
		}
	case 10: // few multiples of a tenth, meeting the threshold again and again
		f = func(i int) float64 {
			if t.IntN(4) == 0 {
				return 0.1 * float64(1+t.IntN(12))
			}
			return 0.1
		}
	}
	return func(i int) float64 { return scale * f(i) }, fmt.Sprintf("weights %d scale %v", kind, scale)
}

func s03K(t *T) int {
	switch t.IntN(5) {
	case 0:
		return 1 + t.IntN(4)
	case 1:
		return 1 + t.IntN(200)
	case 2:
		return []int{15, 16, 17, 31, 32, 33, 64, 127, 128, 129}[t.IntN(10)]
	}
	return 1 + t.IntN(30)
}

func s03New[I comparable](t *T, k int) (*sp.VarOptItemsSketch[I], sp.ResizeFactor) {
	rf := spRFs[t.IntN(4)]
	var opts []sp.VarOptOption
	if t.IntN(3) > 0 {
		opts = append(opts, sp.WithResizeFactor(rf))
	} else {
		rf = sp.ResizeX8
	}
	s, err := sp.NewVarOptItemsSketch[I](uint(k), opts...)
	t.NoErr(err, "new")
	return s, rf
}

func voBad[I comparable](t *T, s *sp.VarOptItemsSketch[I], x I) {
	before := voAll(s)
	n := s.N()
	for _, w := range []float64{0, math.Copysign(0, -1), -1, -1e-300, math.NaN(), math.Inf(1), math.Inf(-1)} {
		t.Check(s.Update(x, w) != nil, "bad-weight", "weight %v accepted", w)
	}
	t.Check(s.N() == n && slices.Equal(before, voAll(s)), "bad-weight-changed", "a refused weight changed the sketch")
}

func s03Stream[I comparable](t *T, kd *spKind[I]) {
	k := s03K(t)
	s, rf := s03New[I](t, k)
	m := newVoModel[I]()
	wf, wn := voWeights(t)
	t.Desc("%s varopt k=%d rf=%d %s", kd.name, k, rf, wn)
	t.Sig(kd.name, k, rf, wn)
	next := 0
	feed := func(n int) {
		for range n {
			x := kd.key(next)
			w := wf(next)
			next++
			t.Logf("update %v %v", x, w)
			t.NoErr(s.Update(x, w), "update")
			m.add(x, w)
			t.Ev("updates")
			if t.IntN(16) == 0 {
				s03Check(t, s, m, k, "stream")
			}
		}
	}
	for range 1 + t.IntN(3) {
		feed(s01N(t, k))
		s03Check(t, s, m, k, "stream")
		voSubset(t, s, m, "stream")
		t.Sig(len(m.ws))
		switch t.IntN(6) {
		case 0:
			s.Reset()
			m = newVoModel[I]()
			s03Check(t, s, m, k, "reset")
			t.Ev("resets")
		case 1:
			voBad(t, s, kd.key(1<<20))
		case 2:
			d, err := sp.DecodeVarOptItemsSketch[I](vwImage(t, s, kd.serde), kd.serde)
			t.NoErr(err, "decode")
			s = d
			s03Check(t, s, m, k, "decoded")
			t.Ev("decoded")
		}
	}
	s03Check(t, s, m, k, "end")
	for x := range s.All() { // stopping early is allowed
		_ = x
		break
	}
	for _, bad := range []uint{0, 1<<31 - 1, 1 << 40} {
		_, err := sp.NewVarOptItemsSketch[I](bad)
		t.Check(err != nil, "bad-k", "k=%d accepted", bad)
	}
}

func s03Inclusion(t *T) {
	k := 1 + t.IntN(14)
	n := k + 1 + t.IntN(40)
	reps := 4000
	if t.Thorough() {
		reps = 20000
	}
	wf, wn := voWeights(t)
	ws := make([]float64, n)
	for i := range ws {
		ws[i] = wf(i)
	}
	if t.IntN(3) == 0 { // descending or ascending arrival
		slices.Sort(ws)
		if t.IntN(2) == 0 {
			slices.Reverse(ws)
		}
	}
	cut := t.IntN(2 * n)
	t.Desc("inclusion in varopt k=%d n=%d %s cut %d: %.4v", k, n, wn, cut, ws)
	t.Sig(k, n, ws, cut)
	counts := make([]int, n)
	for range reps {
		s, err := sp.NewVarOptItemsSketch[int64](uint(k))
		t.NoErr(err, "new")
		for i, w := range ws {
			if i == cut {
				s, err = sp.DecodeVarOptItemsSketch[int64](vwImage(t, s, spLong.serde), spLong.serde)
				t.NoErr(err, "decode")
			}
			t.NoErr(s.Update(int64(i), w), "update")
		}
		for x := range s.All() {
			counts[x.Item]++
		}
	}
	tau := spTau(ws, k)
	for i, c := range counts {
		p := min(1, ws[i]/tau)
		if p > 1-1e-9 {
			t.Check(c >= reps-reps/1000, "heavy", "item %d of weight %v, threshold %v, kept %d of %d times", i, ws[i], tau, c, reps)
			continue
		}
		t.Check(ref.BinomUpperTail(reps, c, p) > 1e-12 && ref.BinomLowerTail(reps, c, p) > 1e-12, "inclusion", "item %d of weight %v, threshold %v, kept %d of %d times, expected %.1f", i, ws[i], tau, c, reps, p*float64(reps))
		t.Ev("inclusion tests")
	}
	t.EvN("runs", reps)
	t.NonTrivial()
}

func s03Coverage(t *T) {
	k := 20 + t.IntN(60)
	n := k * (2 + t.IntN(8))
	heavy := 0
	if t.IntN(2) == 0 { // a large exact region beside a reservoir that keeps much of the rest
		k = 40 + t.IntN(60)
		heavy = k/2 + t.IntN(k/3)
		n = k + (k-heavy)*(1+t.IntN(4))/2
	}
	mod := 2 + t.IntN(4)
	reps := 600
	ws := make([]float64, n)
	truth, total := 0.0, 0.0
	for i := range ws {
		ws[i] = t.ExpFloat64() + 0.1
		if heavy > 0 {
			ws[i] = 1
			if i*heavy%n < heavy {
				ws[i] = 1e5
			}
		} else if t.IntN(30) == 0 {
			ws[i] *= 30
		}
		total += ws[i]
		if i%mod == 0 {
			truth += ws[i]
		}
	}
	t.Desc("coverage of subset sums, varopt k=%d n=%d, %d heavy, every %dth", k, n, heavy, mod)
	t.Sig(k, n, mod, heavy)
	out := 0
	for range reps {
		s, err := sp.NewVarOptItemsSketch[int64](uint(k))
		t.NoErr(err, "new")
		for i, w := range ws {
			t.NoErr(s.Update(int64(i), w), "update")
		}
		ss, err := s.EstimateSubsetSum(func(x int64) bool { return x%int64(mod) == 0 })
		t.NoErr(err, "subset")
		if truth < ss.LowerBound || truth > ss.UpperBound {
			out++
		}
	}
	t.EvN("estimates", reps)
	t.EvN("out of bounds", out)
	t.NonTrivial()
	t.Logf("out %d of %d", out, reps)
	t.Check(ref.BinomUpperTail(reps, out, 0.09) > 1e-10, "coverage", "%d of %d subset sums out of their two-sigma bounds", out, reps)
}

// ---- S04

type s04Step struct {
	kind int // 0-3 varopt, 4 reservoir, 5 restore, 6 result, 7 feed the result of another union
	k, n int
	ws   []float64
}

func s04Steps(t *T, maxK, count int) (out []s04Step) {
	wf, _ := voWeights(t)
	for range count {
		st := s04Step{kind: t.IntN(8)}
		switch t.IntN(4) {
		case 0:
			st.k = maxK
		case 1:
			st.k = 1 + t.IntN(maxK)
		default:
			st.k = 1 + t.IntN(2*maxK)
		}
		if st.kind == 4 {
			st.k++
		}
		st.n = s01N(t, st.k)
		if t.IntN(4) == 0 {
			wf, _ = voWeights(t)
		}
		if t.IntN(3) == 0 && len(out) > 0 { // the same weights again: equal thresholds
			st.k, st.n = out[len(out)-1].k, out[len(out)-1].n
			if st.kind == 4 {
				st.k = max(2, st.k)
			}
			st.ws = out[len(out)-1].ws
		}
		if len(st.ws) != st.n {
			st.ws = nil
			for i := range st.n {
				st.ws = append(st.ws, wf(i))
			}
		}
		if st.kind == 4 {
			st.ws = nil
			for range st.n {
				st.ws = append(st.ws, 1)
			}
		}
		out = append(out, st)
	}
	return
}

func s04Program(t *T, least int) (maxK int, steps []s04Step) {
	if t.IntN(4) == 0 {
		return s04Mixed(t)
	}
	maxK = s03K(t)
	steps = s04Steps(t, maxK, least+t.IntN(6-least))
	for s04Range(steps) {
		steps = s04Steps(t, maxK, least+t.IntN(6-least))
	}
	return
}

// s04Mixed makes a union that holds many items of sampled and of exact sketches
// side by side.
func s04Mixed(t *T) (maxK int, steps []s04Step) {
	maxK = 20 + t.IntN(100)
	for range 2 + t.IntN(4) {
		st := s04Step{k: 2 + t.IntN(24)}
		sampled := t.IntN(2) == 0
		if sampled {
			st.n = st.k + 1 + t.IntN(200)
		} else {
			st.n = 1 + t.IntN(st.k)
		}
		scale, spread := math.Pow(4, float64(t.IntN(5))), float64(t.IntN(2))
		for range st.n {
			st.ws = append(st.ws, scale*(1+spread*t.Float64()))
		}
		steps = append(steps, st)
		if t.IntN(6) == 0 {
			steps = append(steps, s04Step{kind: 5})
		}
	}
	return
}

// s04Range says whether the weights of a script span too many orders of magnitude
// for the sums to be compared.
func s04Range(steps []s04Step) bool {
	lo, hi := math.Inf(1), 0.0
	for _, st := range steps {
		for _, w := range st.ws {
			lo, hi = min(lo, w), max(hi, w)
		}
	}
	return hi > lo*1e12
}

func s04Run[I comparable](t *T, kd *spKind[I], maxK int, steps []s04Step, deep bool) (*sp.VarOptItemsUnion[I], *voModel[I], bool) {
	u, err := sp.NewVarOptItemsUnion[I](uint(maxK))
	t.NoErr(err, "new")
	m := newVoModel[I]()
	exact := true
	next := 0
	for _, st := range steps {
		switch st.kind {
		case 0, 1, 2, 3, 7:
			s, err := sp.NewVarOptItemsSketch[I](uint(st.k))
			t.NoErr(err, "new")
			for _, w := range st.ws {
				x := kd.key(next)
				next++
				t.NoErr(s.Update(x, w), "update")
				m.add(x, w)
			}
			exact = exact && st.n <= st.k
			if st.kind == 7 && st.n > 0 {
				u2, err := sp.NewVarOptItemsUnion[I](uint(1 + st.n/2))
				t.NoErr(err, "new")
				t.NoErr(u2.Update(s), "merge")
				s, err = u2.Result()
				t.NoErr(err, "inner-result")
				exact = exact && s.R() == 0
				t.Ev("nested results")
			}
			before := []voSam[I]{}
			if deep {
				before = voAll(s)
			}
			n0 := s.N()
			t.NoErr(u.Update(s), "merge")
			t.Ev("merges")
			if deep {
				t.Check(slices.Equal(before, voAll(s)) && s.N() == n0, "input-changed", "the union changed its input")
				if t.IntN(3) == 0 {
					r1, err := u.Result()
					t.NoErr(err, "result")
					img := vwImage(t, r1, kd.serde)
					for i := range 3 {
						t.NoErr(s.Update(kd.key(1<<20+i), 1e20), "update")
					}
					s.Reset()
					if r1.R() == 0 { // a result in exact mode does not depend on chance
						r2, err := u.Result()
						t.NoErr(err, "result")
						t.Check(bytes.Equal(img, vwImage(t, r2, kd.serde)), "input-aliased", "changing a merged input changed the union")
					}
				}
			}
		case 4:
			s, err := sp.NewReservoirItemsSketch[I](st.k)
			t.NoErr(err, "new")
			for range st.n {
				x := kd.key(next)
				next++
				t.NoErr(s.Update(x), "update")
				m.add(x, 1)
			}
			exact = exact && st.n <= st.k
			before := s.Samples()
			t.NoErr(u.UpdateReservoirItemsSketch(s), "merge-reservoir")
			t.Check(slices.Equal(before, s.Samples()), "input-changed", "the union changed its input")
			t.Ev("reservoir merges")
		case 5:
			u, err = sp.DecodeVarOptItemsUnion[I](vuImage(t, u, kd.serde), kd.serde)
			t.NoErr(err, "decode")
			t.Ev("restored unions")
		case 6:
			if deep {
				s04Check(t, kd, u, m, maxK, exact, "step")
			} else {
				_, err := u.Result()
				t.NoErr(err, "result")
			}
		}
		if deep && t.IntN(2) == 0 {
			s04Check(t, kd, u, m, maxK, exact, "step")
		}
	}
	return u, m, exact
}

func s04Check[I comparable](t *T, kd *spKind[I], u *sp.VarOptItemsUnion[I], m *voModel[I], maxK int, exact bool, key string) {
	r, err := u.Result()
	t.NoErr(err, key+"/result")
	t.Check(r.K() <= maxK, key+"/limit", "result k %d, limit %d", r.K(), maxK)
	voBase(t, r, m, key)
	if exact && len(m.ws) <= maxK {
		t.Check(r.R() == 0, key+"/kept", "estimation mode although all %d items fit", len(m.ws))
	} else {
		t.Check(r.R() > 0, key+"/estimating", "exact mode for a sampled stream")
		t.NonTrivial()
	}
	if len(m.ws) > 0 {
		voSubset(t, r, m, key)
	}
	// the result is a sketch of its own
	if t.IntN(2) == 0 {
		img := vwImage(t, r, kd.serde)
		d, err := sp.DecodeVarOptItemsSketch[I](img, kd.serde)
		t.NoErr(err, key+"/decode-result")
		voBase(t, d, m, key+"/decoded-result")
		t.Ev("results restored")
		if t.IntN(2) == 0 {
			r = d
		}
	}
	m2 := m.clone()
	for i := range 1 + t.IntN(8) {
		w := m.total()
		switch {
		case len(m.ws) == 0:
			w = 1 + t.Float64()
		case t.IntN(2) == 0:
			w = m.ws[t.IntN(len(m.ws))]
		default:
			w *= t.Float64() / 4
		}
		if w <= 0 {
			continue
		}
		x := kd.key(1<<19 + i)
		t.Logf("result update %v", w)
		t.NoErr(r.Update(x, w), key+"/result-update")
		m2.add(x, w)
	}
	voBase(t, r, m2, key+"/continued-result")
	t.Ev("results continued")
}

func s04Script[I comparable](t *T, kd *spKind[I]) {
	maxK, steps := s04Program(t, 1)
	d := ""
	for _, st := range steps {
		d += fmt.Sprintf(" kind%d k=%d n=%d", st.kind, st.k, st.n)
		t.Logf("step kind %d k %d weights %v", st.kind, st.k, st.ws)
	}
	t.Desc("%s varopt union max k=%d:%s", kd.name, maxK, d)
	t.Sig(kd.name, maxK, d)
	u, m, exact := s04Run(t, kd, maxK, steps, true)
	s04Check(t, kd, u, m, maxK, exact, "end")
	if t.IntN(3) == 0 {
		u.Reset()
		m = newVoModel[I]()
		s04Check(t, kd, u, m, maxK, true, "reset")
		s, err := sp.NewVarOptItemsSketch[I](uint(maxK))
		t.NoErr(err, "new")
		for i := range s01N(t, maxK) {
			t.NoErr(s.Update(kd.key(i), 1+t.Float64()), "update")
		}
		m = newVoModel[I]()
		_ = m
		t.NoErr(u.Update(s), "merge")
		r, err := u.Result()
		t.NoErr(err, "result")
		t.Check(r.N() == s.N(), "reset-n", "n %d after reset and %d items", r.N(), s.N())
		t.Ev("resets")
	}
}

func s04Unbiased(t *T) {
	maxK := 1 + t.IntN(14)
	var steps []s04Step
	total := 0
	for total < 2 || total > 70 || s04Range(steps) {
		steps = s04Steps(t, maxK, 1+t.IntN(4))
		total = 0
		for _, st := range steps {
			if st.kind != 5 && st.kind != 6 {
				total += st.n
			}
		}
	}
	d := ""
	for _, st := range steps {
		d += fmt.Sprintf(" kind%d k=%d n=%d", st.kind, st.k, st.n)
	}
	reps := 4000
	if t.Thorough() {
		reps = 20000
	}
	t.Desc("mean adjusted weights of varopt union max k=%d:%s", maxK, d)
	t.Sig(maxK, d)
	sum := make([]float64, total)
	sq := make([]float64, total)
	top := make([]float64, total)
	var ws []float64
	for range reps {
		u, m, _ := s04Run(t, &spLong, maxK, steps, false)
		r, err := u.Result()
		t.NoErr(err, "result")
		for x := range r.All() {
			p := m.pos[x.Item]
			sum[p] += x.Weight
			sq[p] += x.Weight * x.Weight
			top[p] = max(top[p], x.Weight)
		}
		ws = m.ws
	}
	for i := range sum {
		mean := sum[i] / float64(reps)
		vr := sq[i]/float64(reps) - mean*mean
		if top[i] == 0 { // never kept: the most it can stand for
			for _, x := range top {
				top[i] = max(top[i], x)
			}
		}
		// Bernstein-like bound, with the variance the mean should have as well
		vr = max(vr, ws[i]*max(0, top[i]-ws[i]))
		lim := 8*math.Sqrt(vr/float64(reps)) + 30*top[i]/float64(reps) + 1e-9*ws[i]
		t.Check(math.Abs(mean-ws[i]) < lim, "unbiased", "item %d of weight %v has mean adjusted weight %v over %d runs (limit %v)", i, ws[i], mean, reps, lim)
		t.Ev("means")
	}
	t.EvN("runs", reps)
	t.NonTrivial()
}

// ---- S05

func voParse[I comparable](t *T, img []byte, s *sp.VarOptItemsSketch[I], kd *spKind[I], gadget bool) {
	le := binary.LittleEndian
	t.Check(len(img) >= 8, "image", "image of %d bytes", len(img))
	flags := byte(0)
	if gadget {
		flags |= 128
	}
	sam := voAll(s)
	pre := byte(3)
	switch {
	case s.IsEmpty():
		pre, flags = 1, flags|4
	case s.R() > 0:
		pre = 4
	}
	t.Check(img[0]&63 == pre && img[1] == 2 && img[2] == 13 && img[3] == flags, "image", "header % x", img[:8])
	t.Check(le.Uint32(img[4:]) == uint32(s.K()), "image", "image k %d", le.Uint32(img[4:]))
	if s.IsEmpty() {
		t.Check(len(img) == 8, "image", "empty image of %d bytes", len(img))
		return
	}
	t.Check(le.Uint64(img[8:]) == uint64(s.N()) && le.Uint32(img[16:]) == uint32(s.H()) && le.Uint32(img[20:]) == uint32(s.R()), "image", "image n %d h %d r %d", le.Uint64(img[8:]), le.Uint32(img[16:]), le.Uint32(img[20:]))
	o := 24
	if s.R() > 0 {
		w := math.Float64frombits(le.Uint64(img[24:]))
		t.Check(spClose(w, sam[s.H()].w*float64(s.R()), 1e-12), "image", "image light weight %v", w)
		o = 32
	}
	for i := range s.H() {
		t.Check(math.Float64frombits(le.Uint64(img[o:])) == sam[i].w, "image", "image weight %d", i)
		o += 8
	}
	if gadget {
		o += (s.H() + 7) / 8
	}
	var items []I
	for _, x := range sam {
		items = append(items, x.item)
	}
	t.Check(bytes.Equal(img[o:], spItems(items)), "image", "image items differ from the samples")
}

// spItems is the published encoding of items.
func spItems[I comparable](items []I) []byte {
	var b []byte
	for _, x := range items {
		switch v := any(x).(type) {
		case int64:
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		case float64:
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
		case float32:
			b = binary.LittleEndian.AppendUint32(b, math.Float32bits(v))
		case string:
			b = binary.LittleEndian.AppendUint32(b, uint32(len(v)))
			b = append(b, v...)
		}
	}
	return b
}

func s05VarOpt[I comparable](t *T, kd *spKind[I]) {
	k := s03K(t)
	s, rf := s03New[I](t, k)
	m := newVoModel[I]()
	wf, wn := voWeights(t)
	n := s01N(t, k)
	t.Desc("%s varopt k=%d rf=%d n=%d %s", kd.name, k, rf, n, wn)
	t.Sig(kd.name, k, rf, n, wn)
	for i := range n {
		w := wf(i)
		t.NoErr(s.Update(kd.key(i), w), "update")
		m.add(kd.key(i), w)
	}
	sam := voAll(s)
	img := vwImage(t, s, kd.serde)
	voParse(t, img, s, kd, false)
	t.Check(img[0]>>6 == byte(rf), "image-rf", "resize factor bits %d for %d", img[0]>>6, rf)
	t.Check(s.SerializedSizeBytes(kd.serde) == len(img), "size", "advertised %d bytes, produced %d", s.SerializedSizeBytes(kd.serde), len(img))
	t.Check(slices.Equal(sam, voAll(s)), "encode-changed", "encoding changed the sketch")
	buf := slices.Clone(img)
	d, err := sp.DecodeVarOptItemsSketch[I](buf, kd.serde)
	t.NoErr(err, "decode")
	for i := range buf {
		buf[i] = 0x5a
	}
	t.Check(slices.Equal(sam, voAll(d)) && d.N() == s.N() && d.K() == s.K() && d.H() == s.H() && d.R() == s.R(), "decoded", "decoded sketch differs: %v instead of %v", voAll(d), sam)
	t.Check(bytes.Equal(img, vwImage(t, d, kd.serde)), "re-encode", "re-encoding gives other bytes")
	s03Check(t, d, m, k, "decoded")
	if n > k {
		t.NonTrivial()
	}
	cont := t.IntN(40)
	for i := range cont {
		w := wf(n + i)
		t.NoErr(d.Update(kd.key(n+i), w), "continue")
		m.add(kd.key(n+i), w)
		if t.IntN(8) == 0 {
			s03Check(t, d, m, k, "continued")
		}
	}
	s03Check(t, d, m, k, "continued")
	t.Check(bytes.Equal(img, vwImage(t, s, kd.serde)), "continue-aliased", "updating the decoded sketch changed the original")
	for range 6 {
		p := t.IntN(len(img))
		_, err := sp.DecodeVarOptItemsSketch[I](img[:p:p], kd.serde)
		t.Check(err != nil, "prefix", "%d of %d bytes accepted", p, len(img))
	}
	t.Ev("round trips")
}

func s05Union[I comparable](t *T, kd *spKind[I]) {
	maxK, steps := s04Program(t, 0)
	d := ""
	for _, st := range steps {
		d += fmt.Sprintf(" kind%d k=%d n=%d", st.kind, st.k, st.n)
	}
	t.Desc("%s varopt union max k=%d:%s", kd.name, maxK, d)
	t.Sig(kd.name, maxK, d)
	u, m, exact := s04Run(t, kd, maxK, steps, false)
	img := vuImage(t, u, kd.serde)
	le := binary.LittleEndian
	t.Check(len(img) >= 8 && img[1] == 2 && img[2] == 14 && le.Uint32(img[4:]) == uint32(maxK), "image", "header % x", img[:8])
	if len(m.ws) == 0 {
		t.Check(len(img) == 8 && img[0]&63 == 1 && img[3] == 4, "image-empty", "empty image % x", img)
	} else {
		t.Check(img[0]&63 == 4 && img[3] == 0 && le.Uint64(img[8:]) == uint64(len(m.ws)), "image-n", "image % x", img[:16])
		g, err := sp.DecodeVarOptItemsSketch[I](img[32:], kd.serde)
		t.NoErr(err, "decode-gadget")
		voParse(t, img[32:], g, kd, true)
		t.NonTrivial()
	}
	buf := slices.Clone(img)
	u2, err := sp.DecodeVarOptItemsUnion[I](buf, kd.serde)
	t.NoErr(err, "decode")
	for i := range buf {
		buf[i] = 0x5a
	}
	t.Check(bytes.Equal(img, vuImage(t, u2, kd.serde)), "re-encode", "re-encoding gives other bytes")
	s04Check(t, kd, u2, m, maxK, exact, "restored")
	// chance picks the items, not the weights
	ra, err := u.Result()
	t.NoErr(err, "result")
	rb, err := u2.Result()
	t.NoErr(err, "result")
	wa, wb := voSorted(ra), voSorted(rb)
	same := len(wa) == len(wb)
	for i := 0; same && i < len(wa); i++ {
		same = spClose(wa[i], wb[i], 1e-9)
	}
	t.Check(same && ra.K() == rb.K() && ra.H() == rb.H() && ra.R() == rb.R(), "restored/result", "the union's result has k %d H %d R %d weights %v, the restored union's k %d H %d R %d weights %v", ra.K(), ra.H(), ra.R(), wa, rb.K(), rb.H(), rb.R(), wb)
	t.Check(bytes.Equal(img, vuImage(t, u2, kd.serde)), "result-changed", "taking a result changed the union")
	// both continue
	s, err := sp.NewVarOptItemsSketch[I](uint(1 + t.IntN(2*maxK)))
	t.NoErr(err, "new")
	base := 1 << 18
	for i := range t.IntN(3 * maxK) {
		w := 1.0
		if len(m.ws) > 0 {
			w = m.ws[t.IntN(len(m.ws))]
		}
		t.NoErr(s.Update(kd.key(base+i), w), "update")
		m.add(kd.key(base+i), w)
	}
	exact = exact && s.R() == 0
	t.NoErr(u2.Update(s), "continue")
	s04Check(t, kd, u2, m, maxK, exact, "continued")
	t.Check(bytes.Equal(img, vuImage(t, u, kd.serde)), "continue-aliased", "updating the restored union changed the original")
	for range 6 {
		p := t.IntN(len(img))
		_, err := sp.DecodeVarOptItemsUnion[I](img[:p:p], kd.serde)
		t.Check(err != nil, "prefix", "%d of %d bytes accepted", p, len(img))
	}
	t.Ev("round trips")
}

func s05Reservoir[I comparable](t *T, kd *spKind[I]) {
	k := s01K(t)
	n := s01N(t, k)
	s, rf := s01New[I](t, k)
	m := &spModel[I]{pos: map[I]int{}}
	for i := range n {
		t.NoErr(s.Update(kd.key(i)), "update")
		m.pos[kd.key(i)] = i
		m.n++
	}
	t.Desc("%s reservoir k=%d rf=%d n=%d", kd.name, k, rf, n)
	t.Sig(kd.name, k, rf, n)
	img, err := s.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	sam := s.Samples()
	le := binary.LittleEndian
	t.Check(len(img) >= 8 && img[0]>>6 == byte(rf) && img[1] == 2 && img[2] == 11 && le.Uint32(img[4:]) == uint32(k), "image", "header % x", img[:8])
	if n == 0 {
		t.Check(len(img) == 8 && img[0]&63 == 1 && img[3]&4 != 0, "image-empty", "empty image % x", img)
	} else {
		t.Check(img[0]&63 == 2 && img[3] == 0 && le.Uint64(img[8:]) == uint64(n), "image-n", "image % x", img[:16])
		t.Check(bytes.Equal(img[16:], spItems(sam)), "image-items", "image items differ from the samples")
		t.NonTrivial()
	}
	buf := slices.Clone(img)
	d, err := sp.NewReservoirItemsSketchFromSlice[I](buf, kd.serde)
	t.NoErr(err, "decode")
	for i := range buf {
		buf[i] = 0x5a
	}
	t.Check(slices.Equal(sam, d.Samples()), "decoded", "decoded samples differ")
	s01Check(t, d, m, k, "decoded")
	img2, err := d.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	t.Check(bytes.Equal(img, img2), "re-encode", "re-encoding gives other bytes")
	for i := range t.IntN(3 * k) {
		x := kd.key(n + i)
		t.NoErr(d.Update(x), "continue")
		m.pos[x] = n + i
		m.n++
	}
	s01Check(t, d, m, k, "continued")
	t.Check(slices.Equal(sam, s.Samples()) && s.N() == int64(n), "continue-aliased", "updating the decoded sketch changed the original")
	d.Reset()
	t.Check(d.N() == 0 && d.K() == k, "reset", "decoded sketch after reset: n %d k %d", d.N(), d.K())
	// the union
	u, err := sp.NewReservoirItemsUnion[I](k)
	t.NoErr(err, "new")
	t.NoErr(u.UpdateSketch(s), "merge")
	uimg, err := u.ToSlice(kd.serde)
	t.NoErr(err, "encode-union")
	t.Check(uimg[0]&63 == 1 && uimg[1] == 2 && uimg[2] == 12 && le.Uint32(uimg[4:]) == uint32(k) && (uimg[3]&4 != 0) == (n == 0), "union-image", "union header % x", uimg[:8])
	u2, err := sp.NewReservoirItemsUnionFromSlice[I](uimg, kd.serde)
	t.NoErr(err, "decode-union")
	uimg2, err := u2.ToSlice(kd.serde)
	t.NoErr(err, "encode-union")
	t.Check(bytes.Equal(uimg, uimg2), "union-re-encode", "re-encoding the union gives other bytes")
	if n > 0 {
		r, err := u2.Result()
		t.NoErr(err, "result")
		t.Check(slices.Equal(r.Samples(), sam) && r.N() == int64(n), "union-decoded", "restored union holds other samples")
	}
	for range 4 {
		p := t.IntN(len(img))
		_, err := sp.NewReservoirItemsSketchFromSlice[I](img[:p:p], kd.serde)
		t.Check(err != nil, "prefix", "%d of %d bytes accepted", p, len(img))
		p = t.IntN(len(uimg))
		_, err = sp.NewReservoirItemsUnionFromSlice[I](uimg[:p:p], kd.serde)
		t.Check(err != nil, "union-prefix", "%d of %d union bytes accepted", p, len(uimg))
	}
	t.Ev("round trips")
}
