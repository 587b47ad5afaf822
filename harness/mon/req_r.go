package mon

import (
	"fmt"
	"math"
	"math/bits"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/req"

	"verif/harness/core"
)

func init() {
	core.Register("R01", "model of the fed multiset compared with everything a REQ sketch reports, after updates, merges and resets",
		core.Family{Name: "stream", Quick: 1800, Thorough: 30000, Run: r01Stream},
		core.Family{Name: "merge", Quick: 1500, Thorough: 25000, Run: r01Merge},
		core.Family{Name: "doubling", Quick: 150, Thorough: 2000, Run: r01Double},
		core.Family{Name: "reset", Quick: 500, Thorough: 6000, Run: r01Reset},
		core.Family{Name: "config", Quick: 200, Thorough: 1000, Run: r01Config})
	core.Register("R02", "every rank, quantile, CDF, PMF and bound recomputed from the retained items and the true extremes; questions repeated in other orders",
		core.Family{Name: "queries", Quick: 3000, Thorough: 50000, Run: r02Queries},
		core.Family{Name: "bounds", Quick: 3000, Thorough: 50000, Run: r02Bounds},
		core.Family{Name: "order", Quick: 2500, Thorough: 40000, Run: r02Order},
		core.Family{Name: "huge", Quick: 150, Thorough: 2000, Run: r02Huge})
	core.Register("R03", "ranks of known streams: exact near the accurate end, every error within a multiple of the advertised one, mean error zero, sizes logarithmic",
		core.Family{Name: "error", Quick: 600, Thorough: 6000, Run: r03Error},
		core.Family{Name: "bias", Quick: 24, Thorough: 120, Run: r03Bias})
	core.Assume("R02", "ranks are asked of finite values only (the library refuses infinities there)")
}

type reqModel struct {
	k, kmin  int
	hra      bool
	n        int64
	min, max float32
	count    map[float32]int64
}

func reqNew(t *T, k int, hra bool) (*req.Sketch, *reqModel) {
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	t.NoErr(err, "new")
	return s, &reqModel{k: k, kmin: k, hra: hra, count: map[float32]int64{}}
}

func (m *reqModel) add(x float32) {
	if x != x {
		return
	}
	if m.n == 0 {
		m.min, m.max = x, x
	}
	m.min, m.max = min(m.min, x), max(m.max, x)
	m.n++
	m.count[x]++
}

func (m *reqModel) merge(o *reqModel) {
	if o.n == 0 {
		return
	}
	if m.n == 0 {
		m.min, m.max = o.min, o.max
	}
	m.min, m.max = min(m.min, o.min), max(m.max, o.max)
	m.n += o.n
	m.kmin = min(m.kmin, o.kmin)
	for x, c := range o.count {
		m.count[x] += c
	}
}

func (m *reqModel) clone() *reqModel {
	c := *m
	c.count = map[float32]int64{}
	for x, n := range m.count {
		c.count[x] = n
	}
	return &c
}

func reqItems(s *req.Sketch) []wItem[float32] {
	var out []wItem[float32]
	for _, it := range s.All() {
		out = append(out, wItem[float32]{it.Quantile, uint64(it.Weight)})
	}
	return out
}

// reqInspect compares a sketch with the model.
func reqInspect(t *T, s *req.Sketch, m *reqModel, key string) []wItem[float32] {
	t.Check(s.N() == m.n && s.IsEmpty() == (m.n == 0) && s.K() == m.k && s.IsHighRankAccuracyMode() == m.hra, key+"-n", "N=%d empty=%v k=%d hra=%v, fed %d with k=%d hra=%v", s.N(), s.IsEmpty(), s.K(), s.IsHighRankAccuracyMode(), m.n, m.k, m.hra)
	its := reqItems(s)
	t.Check(s.NumRetained() == len(its), key+"-retained", "NumRetained %d, %d items listed", s.NumRetained(), len(its))
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	if m.n == 0 {
		t.Check(e1 != nil && e2 != nil && len(its) == 0 && !s.IsEstimationMode(), key+"-empty", "empty sketch: min error %v, max error %v, %d items, estimation %v", e1, e2, len(its), s.IsEstimationMode())
		return nil
	}
	t.Check(e1 == nil && e2 == nil && mn == m.min && mx == m.max, key+"-minmax", "min %v max %v (errors %v %v), fed %v..%v", mn, mx, e1, e2, m.min, m.max)
	sum, ones := uint64(0), true
	got := map[float32]int64{}
	maxw := uint64(1)
	for _, it := range its {
		if it.w == 0 || it.w&(it.w-1) != 0 || m.count[it.v] == 0 {
			t.Check(false, key+"-item", "retained item %v with weight %d, fed %d times", it.v, it.w, m.count[it.v])
		}
		ones = ones && it.w == 1
		sum += it.w
		maxw = max(maxw, it.w)
		got[it.v]++
	}
	t.Check(sum == uint64(m.n), key+"-weights", "weights of %d retained items sum to %d, N=%d", len(its), sum, m.n)
	for x, c := range got {
		if c > m.count[x] {
			t.Check(false, key+"-item", "item %v retained %d times, fed %d times", x, c, m.count[x])
		}
	}
	t.Check(ones || s.IsEstimationMode(), key+"-mode", "weights above 1, yet not in estimation mode")
	// the accurate end is exact
	top := min(3*int64(m.kmin), m.n)
	if m.n < int64(6*m.kmin) {
		top = m.n
	}
	keys := make([]float32, 0, len(m.count))
	for x := range m.count {
		keys = append(keys, x)
	}
	slices.Sort(keys)
	srt := slices.Clone(its)
	sort.SliceStable(srt, func(i, j int) bool {
		if srt[i].v != srt[j].v {
			return srt[i].v < srt[j].v
		}
		// among equal values the lighter ones count as nearer the accurate end
		return (srt[i].w < srt[j].w) != m.hra
	})
	if m.hra {
		slices.Reverse(keys)
		slices.Reverse(srt)
	}
	left := top
	i := 0
	for _, x := range keys {
		for c := min(m.count[x], left); c > 0; c-- {
			if srt[i].v != x || srt[i].w != 1 {
				t.Check(false, key+"-end", "item %d from the accurate end should be %v with weight 1, retained %v with weight %d (k=%d n=%d hra=%v)", i, x, srt[i].v, srt[i].w, m.kmin, m.n, m.hra)
			}
			i++
			left--
		}
		if left == 0 {
			break
		}
	}
	t.EvN("exact items at the accurate end", int(top))
	// size: every level holds fewer than its nominal capacity, which starts at 6k
	// and grows with the square root of the log of its compactions
	lv := bits.Len64(maxw)
	lim := lv * 6 * m.k * 5
	t.Check(len(its) <= lim, key+"-size", "%d items retained at k=%d, top weight %d", len(its), m.k, maxw)
	t.Ev("states checked")
	return its
}

func reqK(t *T) int {
	switch t.IntN(5) {
	case 0:
		return 4
	case 1:
		return 12
	case 2:
		return 4 + 2*t.IntN(10)
	case 3:
		return 4 + 2*t.IntN(60)
	}
	return 6
}

func reqSize(t *T, k int) int {
	switch t.IntN(7) {
	case 0:
		return t.IntN(3)
	case 1:
		return 6*k - 2 + t.IntN(4)
	case 2:
		return t.IntN(12 * k)
	case 3:
		return t.IntN(100 * k)
	case 4:
		return t.IntN(20000)
	}
	return t.IntN(1500)
}

func reqFeed(t *T, s *req.Sketch, m *reqModel, n int) string {
	keys, kind := keyStream(t, n)
	for _, x := range keys {
		v := float32(x) / 4
		if t.IntN(200) == 0 {
			v = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0, math.MaxFloat32, math.SmallestNonzeroFloat32}[t.IntN(6)]
		}
		t.NoErr(s.Update(v), "update")
		m.add(v)
	}
	return kind
}

func r01Stream(t *T) {
	k, hra := reqK(t), t.IntN(2) == 0
	s, m := reqNew(t, k, hra)
	reqInspect(t, s, m, "fresh")
	kinds := ""
	for i := 1 + t.IntN(4); i > 0; i-- {
		for j := 0; j < 5; j++ {
			kinds += reqFeed(t, s, m, reqSize(t, k)/5+1) + " "
			reqInspect(t, s, m, "streamed")
			if t.IntN(3) == 0 && m.n > 0 {
				_, err := s.Quantile(t.Float64())
				t.NoErr(err, "quantile-error")
			}
		}
	}
	// one update at a time
	for i := 0; i < 20; i++ {
		reqFeed(t, s, m, 1)
		reqInspect(t, s, m, "single")
	}
	t.Desc("k=%d hra=%v n=%d %s", k, hra, m.n, kinds)
	t.Sig(k, hra, m.n)
	if m.n >= int64(6*k) {
		t.NonTrivial()
	}
}

func reqClone(t *T, s *req.Sketch, m *reqModel) (*req.Sketch, *reqModel) {
	c, cm := reqNew(t, m.k, m.hra)
	t.NoErr(c.Merge(s), "merge")
	cm.merge(m)
	return c, cm
}

func r01Merge(t *T) {
	k, hra := reqK(t), t.IntN(2) == 0
	same := t.IntN(2) == 0
	n := 2 + t.IntN(5)
	var ss []*req.Sketch
	var ms []*reqModel
	desc := ""
	for i := 0; i < n; i++ {
		kk := k
		if !same {
			kk = reqK(t)
		}
		s, m := reqNew(t, kk, hra)
		reqFeed(t, s, m, reqSize(t, kk))
		ss, ms = append(ss, s), append(ms, m)
		desc += fmt.Sprintf("(k=%d n=%d)", kk, m.n)
	}
	t.Desc("hra=%v %s", hra, desc)
	merges := 0
	for step := 0; step < 2*n; step++ {
		i, j := t.IntN(n), t.IntN(n)
		if i == j {
			continue
		}
		before := reqItems(ss[j])
		detail := ss[j].CompactorDetailString(false)
		t.NoErr(ss[i].Merge(ss[j]), "merge-error")
		ms[i].merge(ms[j])
		reqInspect(t, ss[i], ms[i], "merged")
		reqInspect(t, ss[j], ms[j], "argument")
		t.Check(slices.Equal(before, reqItems(ss[j])) && detail == ss[j].CompactorDetailString(false), "argument-changed", "merging changed its argument")
		if t.IntN(2) == 0 { // both go on living separately
			reqFeed(t, ss[i], ms[i], t.IntN(300))
			reqInspect(t, ss[i], ms[i], "evolved")
			t.Check(slices.Equal(before, reqItems(ss[j])), "argument-shared", "updating the target changed the argument")
			reqFeed(t, ss[j], ms[j], t.IntN(300))
			reqInspect(t, ss[j], ms[j], "argument-evolved")
			reqInspect(t, ss[i], ms[i], "evolved-twice")
		}
		if ms[j].n > 0 {
			merges++
		}
		t.Ev("merges")
	}
	// another accuracy mode is refused and leaves the target alone
	o, om := reqNew(t, k, !hra)
	reqFeed(t, o, om, 1+t.IntN(100))
	if om.n > 0 {
		before := reqItems(ss[0])
		t.Check(ss[0].Merge(o) != nil, "mode-mismatch", "a sketch of the other accuracy mode was merged")
		t.Check(slices.Equal(before, reqItems(ss[0])), "mode-mismatch", "a refused merge changed the target")
		reqInspect(t, ss[0], ms[0], "refused")
	}
	t.NoErr(ss[0].Merge(nil), "merge-nil")
	reqInspect(t, ss[0], ms[0], "nil")
	t.Sig(hra, desc)
	if merges > 0 {
		t.NonTrivial()
	}
}

func reqDouble(t *T, top int, each func(*req.Sketch, *reqModel)) (*req.Sketch, *reqModel) {
	k, hra := reqK(t), t.IntN(2) == 0
	s, m := reqNew(t, k, hra)
	reqFeed(t, s, m, 2+reqSize(t, k))
	t.NoErr(s.Update(1), "update")
	m.add(1)
	for bits.Len64(uint64(m.n)) < top {
		o, om := reqClone(t, s, m)
		t.NoErr(s.Merge(o), "merge-error")
		m.merge(om)
		if t.IntN(4) == 0 {
			reqFeed(t, s, m, t.IntN(40))
		}
		if each != nil {
			each(s, m)
		}
	}
	t.Desc("k=%d hra=%v n=%d", k, hra, m.n)
	t.Sig(k, hra, m.n)
	t.NonTrivial()
	return s, m
}

func r01Double(t *T) {
	reqDouble(t, 20+t.IntN(40), func(s *req.Sketch, m *reqModel) { reqInspect(t, s, m, "doubled") })
}

func r01Reset(t *T) {
	k, hra := reqK(t), t.IntN(2) == 0
	s, m := reqNew(t, k, hra)
	f, fm := reqNew(t, k, hra)
	reqFeed(t, s, m, reqSize(t, k))
	if t.IntN(2) == 0 {
		k2 := reqK(t)
		o, om := reqNew(t, k2, hra)
		reqFeed(t, o, om, reqSize(t, k2))
		t.NoErr(s.Merge(o), "merge-error")
	}
	s.Reset()
	reqInspect(t, s, fm, "reset")
	t.Check(s.String() == f.String() || m.n > 0 && s.NumRetained() == 0, "reset-string", "a reset sketch prints differently")
	t.Check(s.CompactorDetailString(true) == f.CompactorDetailString(true), "reset-detail", "a reset sketch's compactors differ from a fresh one's")
	_, err := s.Rank(1)
	t.Check(err != nil, "reset-query", "a reset sketch answers rank queries")
	_, err = s.SortedView()
	t.Check(err != nil, "reset-view", "a reset sketch gives a sorted view")
	if t.IntN(2) == 0 {
		o, om := reqNew(t, k, hra)
		reqFeed(t, o, om, 1+reqSize(t, k))
		t.NoErr(s.Merge(o), "merge-error")
		fm.merge(om)
		reqInspect(t, s, fm, "remerged")
	}
	reqFeed(t, s, fm, reqSize(t, k))
	reqInspect(t, s, fm, "refed")
	t.Desc("k=%d hra=%v n=%d then %d", k, hra, m.n, fm.n)
	t.Sig(k, hra, m.n, fm.n)
	t.NonTrivial()
}

func r01Config(t *T) {
	k := t.IntN(1100) - 20
	s, err := req.NewSketch(req.WithK(k))
	ok := k >= 4 && k <= 1024 && k%2 == 0
	t.Check((err == nil) == ok, "config", "k=%d: error %v", k, err)
	if ok {
		t.Check(s.K() == k && s.IsHighRankAccuracyMode(), "config", "k=%d built as k=%d hra=%v", k, s.K(), s.IsHighRankAccuracyMode())
		m := &reqModel{k: k, kmin: k, hra: true, count: map[float32]int64{}}
		reqFeed(t, s, m, reqSize(t, k))
		reqInspect(t, s, m, "config")
		t.NonTrivial()
	}
	t.Desc("k=%d", k)
	t.Sig(k)
}

// reqAdjust puts the true extremes into the retained items the way the sorted
// view is documented to.
func reqAdjust(its []wItem[float32], m *reqModel) []wItem[float32] {
	q := newQOracle(its, ordLess[float32])
	a := slices.Clone(q.items)
	if a[0].v != m.min {
		a[0].w--
		a = append([]wItem[float32]{{m.min, 1}}, a...)
	}
	if a[len(a)-1].v != m.max {
		a[len(a)-1].w--
		a = append(a, wItem[float32]{m.max, 1})
	}
	return a
}

func reqOpts(incl bool) []req.SearchCriteriaOptionFunc {
	if incl {
		return nil
	}
	return []req.SearchCriteriaOptionFunc{req.WithExclusiveSearch()}
}

func reqQ(s *req.Sketch) qSketch[float32] {
	return qSketch[float32]{
		func(x float32, i bool) (float64, error) { return s.Rank(x, reqOpts(i)...) },
		func(x []float32, i bool) ([]float64, error) { return s.Ranks(x, reqOpts(i)...) },
		func(r float64, i bool) (float32, error) { return s.Quantile(r, reqOpts(i)...) },
		func(r []float64, i bool) ([]float32, error) { return s.Quantiles(r, reqOpts(i)...) },
		s.CDF,
		func(x []float32, i bool) ([]float64, error) { return s.PMF(x, reqOpts(i)...) },
	}
}

func reqProbe(t *T, q *qOracle[float32], m *reqModel) qProbe[float32] {
	p := qProbe[float32]{incl: t.IntN(2) == 0}
	var xs []float32
	add := func(x float32) {
		if !math.IsInf(float64(x), 0) {
			xs = append(xs, x)
		}
	}
	add(m.min)
	add(m.max)
	for i := 0; i < 30; i++ {
		if t.IntN(2) == 0 {
			add(q.items[t.IntN(len(q.items))].v)
		} else {
			add(float32(t.Int64N(1<<uint(1+t.IntN(50)))-t.Int64N(1000)) / 4)
		}
	}
	p.xs = sortedDistinct(xs, ordLess[float32])
	p.rs = []float64{0, 1, 0.5, 1e-18, math.Nextafter(1, 0)}
	for i := 0; i < 30; i++ {
		if t.IntN(2) == 0 {
			p.rs = append(p.rs, t.Float64())
		} else {
			p.rs = append(p.rs, float64(q.cum[t.IntN(len(q.cum))])/float64(q.n))
		}
	}
	return p
}

func reqBuild(t *T) (*req.Sketch, *reqModel) {
	k, hra := reqK(t), t.IntN(2) == 0
	s, m := reqNew(t, k, hra)
	reqFeed(t, s, m, 1+reqSize(t, k))
	t.NoErr(s.Update(3), "update")
	m.add(3)
	if t.IntN(2) == 0 {
		k2 := reqK(t)
		o, om := reqNew(t, k2, hra)
		reqFeed(t, o, om, reqSize(t, k2))
		t.NoErr(s.Merge(o), "merge-error")
		m.merge(om)
	}
	t.Desc("k=%d hra=%v n=%d", k, hra, m.n)
	t.Sig(k, hra, m.n)
	if m.n > 1 {
		t.NonTrivial()
	}
	return s, m
}

func reqCheckAll(t *T, s *req.Sketch, m *reqModel) {
	q := newQOracle(reqAdjust(reqItems(s), m), ordLess[float32])
	qCheck(t, q, reqQ(s), reqProbe(t, q, m))
	for i := 0; i < 10; i++ { // quantile undoes rank on retained items
		it := q.items[t.IntN(len(q.items))]
		if math.IsInf(float64(it.v), 0) || q.n > 1e7 || q.rank(it.v, true) == q.rank(it.v, false) {
			continue
		}
		for _, incl := range []bool{true, false} {
			r, err := s.Rank(it.v, reqOpts(incl)...)
			t.NoErr(err, "rank-error")
			v, err := s.Quantile(r, reqOpts(incl)...)
			t.NoErr(err, "quantile-error")
			t.Check(v == it.v, "inverse", "rank(%v)=%v inclusive=%v, quantile of that is %v", it.v, r, incl, v)
		}
	}
	reqViewCheck(t, s, m, q)
}

func reqViewCheck(t *T, s *req.Sketch, m *reqModel, q *qOracle[float32]) {
	v, err := s.SortedView()
	t.NoErr(err, "view")
	qs, cw := v.Quantiles(), v.CumulativeWeights()
	t.Check(v.NumRetained() == len(q.items) && len(qs) == len(q.items) && len(cw) == len(qs) && v.N() == m.n && !v.IsEmpty(), "view-size", "view of %d items and N=%d, expected %d and %d", v.NumRetained(), v.N(), len(q.items), m.n)
	mn, e1 := v.MinItem()
	mx, e2 := v.MaxItem()
	t.Check(e1 == nil && e2 == nil && mn == m.min && mx == m.max, "view-minmax", "view runs %v..%v, stream %v..%v", mn, mx, m.min, m.max)
	it := v.Iterator()
	for i := range qs {
		t.Check(it.Next(), "view-iterator", "iterator ended at %d of %d", i, len(qs))
		w, e1 := it.Weight()
		nat, e2 := it.NaturalRankWithCriterion(true)
		nx, e3 := it.NaturalRankWithCriterion(false)
		nr, e4 := it.NormalizedRank()
		x, e5 := it.Quantile()
		ok := e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil &&
			x == qs[i] && qs[i] == q.items[i].v && nat == cw[i] && w == nat-nx && w >= 0 && nr == float64(nat)/float64(m.n)
		// equal values may swap their weights
		if i+1 == len(qs) || qs[i+1] != qs[i] {
			ok = ok && uint64(nat) == q.cum[i]
		}
		if !ok {
			t.Check(false, "view-item", "view item %d: %v weight %d ranks %d..%d, expected %v up to %d", i, x, w, nx, nat, q.items[i].v, q.cum[i])
		}
	}
	t.Check(!it.Next(), "view-iterator", "iterator goes past the %d items", len(qs))
	qs[0], cw[0] = 77, 77 // the copies are the caller's
	t.Check(v.Quantiles()[0] == m.min, "view-copy", "writing to the returned quantiles changed the view")
}

func r02Queries(t *T) {
	s, m := reqBuild(t)
	for round := 0; round < 3; round++ {
		reqCheckAll(t, s, m)
		for _, r := range []float64{-1e-9, 1.0000001, math.Inf(1), math.Inf(-1), math.NaN()} {
			_, err := s.Quantile(r)
			t.Check(err != nil, "bad-rank", "rank %v was accepted", r)
			_, err = s.Quantiles([]float64{0.5, r})
			t.Check(err != nil, "bad-rank", "rank %v was accepted in a list", r)
			_, err = s.QuantileLowerBound(r)
			_, e2 := s.QuantileUpperBound(r)
			t.Check(err != nil && e2 != nil, "bad-rank", "bounds of the quantile of rank %v were given", r)
		}
		_, err := s.Rank(float32(math.NaN()))
		t.Check(err != nil, "bad-item", "the rank of NaN was answered")
		_, err = s.CDF([]float32{1, 1}, true)
		t.Check(err != nil, "bad-splits", "repeated split points were accepted")
		_, err = s.PMF([]float32{2, 1})
		t.Check(err != nil, "bad-splits", "decreasing split points were accepted")
		// the cached view must follow
		switch t.IntN(3) {
		case 0:
			reqFeed(t, s, m, t.IntN(100))
		case 1:
			reqFeed(t, s, m, t.IntN(3))
		case 2:
			o, om := reqNew(t, []int{m.k, reqK(t)}[t.IntN(2)], m.hra)
			reqFeed(t, o, om, []int{t.IntN(3), reqSize(t, m.k)}[t.IntN(2)])
			t.NoErr(s.Merge(o), "merge-error")
			m.merge(om)
			t.Ev("merges between queries")
		}
	}
}

func r02Bounds(t *T) {
	s, m := reqBuild(t)
	rs := []float64{0, 1, 0.5, 0.01, 0.99, 1e-9, 1 - 1e-9}
	for i := 0; i < 20; i++ {
		rs = append(rs, t.Float64())
	}
	for _, r := range rs {
		plo, phi := r, r
		for nsd := 1; nsd <= 3; nsd++ {
			lo, e1 := s.RankLowerBound(r, req.WithNumStdDev(nsd))
			hi, e2 := s.RankUpperBound(r, req.WithNumStdDev(nsd))
			t.Check(e1 == nil && e2 == nil && lo <= plo && hi >= phi, "rank-bounds", "rank %v at %d deviations: [%v,%v], inner [%v,%v] (errors %v %v)", r, nsd, lo, hi, plo, phi, e1, e2)
			plo, phi = lo, hi
			if want, sure := reqWidth(s, r, nsd); sure {
				t.Check(math.Abs(r-lo-want) < 1e-12 && math.Abs(hi-r-want) < 1e-12, "rank-width", "rank %v of %d items, k=%d: bounds [%v,%v] at %d deviations, the definition gives a distance of %v", r, m.n, m.k, lo, hi, nsd, want)
				t.Ev("bounds compared with their definition")
			}
			q, err := s.Quantile(r)
			t.NoErr(err, "quantile-error")
			ql, e1 := s.QuantileLowerBound(r, req.WithNumStdDev(nsd))
			t.NoErr(e1, "quantile-lower")
			qh, e2 := s.QuantileUpperBound(r, req.WithNumStdDev(nsd))
			t.NoErr(e2, "quantile-upper")
			t.Check(ql <= q && q <= qh && ql >= m.min && qh <= m.max, "quantile-bounds", "quantile(%v)=%v, bounds %v..%v at %d deviations", r, q, ql, qh, nsd)
			t.Ev("bounds checked")
		}
		lo2, err := s.RankLowerBound(r)
		t.NoErr(err, "rank-lower")
		lo3, err := s.RankLowerBound(r, req.WithNumStdDev(2))
		t.NoErr(err, "rank-lower")
		t.Check(lo2 == lo3, "default-deviations", "the default lower bound %v is not the one for 2 deviations %v", lo2, lo3)
		if m.n < int64(6*m.kmin) {
			t.Check(plo == r && phi == r, "exact-bounds", "nothing discarded (n=%d k=%d), yet rank %v is bounded by [%v,%v]", m.n, m.kmin, r, plo, phi)
		}
	}
}

// reqWidth is the distance of the bounds of rank r by the definition that all
// implementations share; not sure too close to the end of the exact zone.
func reqWidth(s *req.Sketch, r float64, nsd int) (float64, bool) {
	if !s.IsEstimationMode() {
		return 0, true
	}
	d := r
	if s.IsHighRankAccuracyMode() {
		d = 1 - r
	}
	end := float64(3 * s.K()) // items at the accurate end that are never discarded
	switch x := d * float64(s.N()); {
	case math.Abs(x-end) < 1e-6*end:
		return 0, false
	case x < end:
		return 0, true
	}
	return float64(nsd) * r03Sigma(s.K(), d), true
}

func r02Order(t *T) {
	s, m := reqBuild(t)
	its := reqItems(s)
	q := newQOracle(reqAdjust(its, m), ordLess[float32])
	p := reqProbe(t, q, m)
	first := p.ask(t, reqQ(s))
	for i := 0; i < 12; i++ {
		p2 := reqProbe(t, q, m)
		var err error
		name := ""
		switch t.IntN(9) {
		case 0:
			name = "SortedView"
			_, err = s.SortedView()
		case 1:
			name = "All"
			for _, it := range s.All() {
				it.Quantile, it.Weight = 1, 1
			}
		case 2:
			name = "CDF"
			_, err = s.CDF(p2.xs, p2.incl)
		case 3:
			name = "PMF"
			_, err = s.PMF(p2.xs, reqOpts(p2.incl)...)
		case 4:
			name = "Quantiles"
			_, err = s.Quantiles(p2.rs, reqOpts(p2.incl)...)
		case 5:
			name = "Ranks"
			_, err = s.Ranks(p2.xs, reqOpts(p2.incl)...)
		case 6:
			name = "String"
			_ = s.String() + s.CompactorDetailString(true)
		case 7:
			name = "being merged elsewhere"
			o, _ := reqNew(t, m.k, m.hra)
			reqFeed(t, o, &reqModel{count: map[float32]int64{}}, t.IntN(200))
			err = o.Merge(s)
		case 8:
			name = "a view's mutation by its caller"
			v, e := s.SortedView()
			err = e
			if e == nil {
				clear(v.Quantiles())
				clear(v.CumulativeWeights())
			}
		}
		t.NoErr(err, "any-query")
		t.Check(p.ask(t, reqQ(s)) == first, "unstable", "the same questions have other answers after %s", name)
		t.Ev("questions repeated after " + name)
	}
	reqCheckAll(t, s, m)
	reqInspect(t, s, m, "queried")
}

func r02Huge(t *T) {
	s, m := reqDouble(t, 25+t.IntN(34), nil)
	for i := 0; i < 3; i++ {
		reqCheckAll(t, s, m)
	}
}

// r03Run feeds 0..n-1 through parts sketches and gives the rank errors at the
// grid points, which crowd toward the accurate end.
func r03Run(t *T, k int, hra bool, n, kind, parts int) (*req.Sketch, []float64, []float64) {
	ss := make([]*req.Sketch, parts)
	for i := range ss {
		ss[i], _ = reqNew(t, k, hra)
	}
	for i, v := range k03Order(t, n, kind) {
		t.NoErr(ss[i*parts/n].Update(float32(v)), "update")
	}
	for len(ss) > 1 {
		i, j := 0, 1
		if t.IntN(2) == 0 {
			i = t.IntN(len(ss))
			j = (i + 1 + t.IntN(len(ss)-1)) % len(ss)
		}
		t.NoErr(ss[i].Merge(ss[j]), "merge-error")
		ss = append(ss[:j], ss[j+1:]...)
	}
	s := ss[0]
	var errs, far []float64
	for g := 0; g < k03Grid; g++ {
		d := math.Pow(float64(n), -float64(g+1)/float64(k03Grid)) // distance from the accurate end
		if g%2 == 0 {
			d = float64(g+1) / (k03Grid + 1)
		}
		r := d
		if hra {
			r = 1 - d
		}
		x := min(max(int(r*float64(n)), 0), n-1)
		got, err := s.Rank(float32(x))
		t.NoErr(err, "rank-error")
		want := float64(x+1) / float64(n)
		errs = append(errs, got-want)
		if hra {
			want = 1 - want
		}
		far = append(far, want)
	}
	return s, errs, far
}

// r03Sigma is the advertised standard error at the given distance from the accurate end.
func r03Sigma(k int, d float64) float64 {
	return min(math.Sqrt(0.0512/3)/float64(k)*d, 0.084/float64(k))
}

func r03Error(t *T) {
	k := []int{4, 6, 8, 12, 12, 24, 50, 100}[t.IntN(8)]
	hra := t.IntN(2) == 0
	n := min(6*k+t.IntN(1000*k), 60000)
	kind, parts := t.IntN(7), []int{1, 1, 2, 3, 10}[t.IntN(5)]
	s, errs, far := r03Run(t, k, hra, n, kind, parts)
	for g, e := range errs {
		if far[g]*float64(n) < float64(3*k) {
			t.Check(math.Abs(e) < 1e-9, "end-error", "k=%d n=%d hra=%v: rank error %v only %v items from the accurate end", k, n, hra, e, far[g]*float64(n))
			t.Ev("exact ranks near the accurate end")
			continue
		}
		lim := 10*r03Sigma(k, far[g]) + 2/float64(n)
		t.Check(math.Abs(e) <= lim, "error", "k=%d n=%d hra=%v order %d parts %d: rank error %v at distance %v from the accurate end, advertised deviation %v", k, n, hra, kind, parts, e, far[g], r03Sigma(k, far[g]))
		t.Ev("rank errors measured")
	}
	for i := 0; i < 10; i++ {
		r := t.Float64()
		u, err := s.RankUpperBound(r, req.WithNumStdDev(1))
		t.NoErr(err, "rank-upper")
		t.Check(math.Abs(req.ComputeRSE(k, r, hra, int64(n))-(u-r)) < 1e-12 || !s.IsEstimationMode(), "rse", "ComputeRSE(k=%d, %v) = %v, the upper bound is %v above", k, r, req.ComputeRSE(k, r, hra, int64(n)), u-r)
	}
	lv := math.Log2(float64(n)/float64(3*k)) + 2
	t.Check(float64(s.NumRetained()) <= 6*float64(k)*lv*1.8, "size", "k=%d n=%d retains %d", k, n, s.NumRetained())
	t.Desc("k=%d hra=%v n=%d order=%d parts=%d retained=%d", k, hra, n, kind, parts, s.NumRetained())
	t.Sig(k, hra, n, kind, parts)
	t.NonTrivial()
}

func r03Bias(t *T) {
	k := []int{4, 6, 12, 40}[t.Idx%4]
	hra := t.Idx/4%2 == 0
	kind := []int{0, 1, 2, 3, 5, 6}[t.Idx/8%6]
	parts := []int{1, 4}[t.IntN(2)]
	n := 300*k + t.IntN(1000)
	trials := 150
	if t.Thorough() {
		trials = 800
	}
	sum, sq := make([]float64, k03Grid), make([]float64, k03Grid)
	var dist []float64
	worst := 0.0
	for i := 0; i < trials; i++ {
		_, errs, far := r03Run(t, k, hra, n, kind, parts)
		dist = far
		for g, e := range errs {
			sum[g] += e
			sq[g] += e * e
		}
	}
	for g := range sum {
		sig := r03Sigma(k, dist[g]) + 0.5/float64(n)
		rms := math.Sqrt(sq[g] / float64(trials))
		worst = max(worst, rms/sig)
		t.Check(rms <= 2.2*sig, "rms", "k=%d n=%d hra=%v order %d parts %d: root mean square error %v at distance %v, advertised %v", k, n, hra, kind, parts, rms, dist[g], sig)
		mean := sum[g] / float64(trials)
		se := max(rms/math.Sqrt(float64(trials)), 0.05*sig)
		t.Check(math.Abs(mean) <= 7*se, "bias", "k=%d n=%d hra=%v order %d parts %d: mean rank error %v at distance %v (standard error %v)", k, n, hra, kind, parts, mean, dist[g], se)
	}
	t.EvN("rank errors measured", trials*k03Grid)
	t.Desc("k=%d n=%d hra=%v order=%d parts=%d trials=%d worst rms/sigma=%.2f", k, n, hra, kind, parts, trials, worst)
	t.Sig(k, n, hra, kind, parts)
	t.NonTrivial()
}
