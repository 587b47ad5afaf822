package mon

import (
	"fmt"
	"hash/fnv"
	"slices"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

func init() {
	core.Register("U01", "every case feeds one (key, value) stream to a tuple sketch of a random summary kind and the same keys to a theta sketch of the same configuration, folding the values per key in a model; distinct = distinct histories that rebuilt, trimmed or reset the sketch",
		core.Family{Name: "history", Quick: 12000, Thorough: 300000, Run: u01History},
		core.Family{Name: "large", Quick: 8, Thorough: 100, Run: u01Large},
	)
	core.Register("U02", "every case builds a pool of tuple sketches of one summary kind, runs unions, intersections, differences and similarity on them with a non-commutative policy and compares keys and summaries with a model over the observed inputs, then mutates inputs and results to detect sharing; distinct = distinct pools and sequences with overlapping inputs",
		core.Family{Name: "algebra", Quick: 12000, Thorough: 250000, Run: u02Algebra},
		core.Family{Name: "refusals", Quick: 300, Thorough: 3000, Run: u02Refusals},
	)
	core.Register("U03", "every case compacts or combines tuple sketches of a random summary kind, encodes and decodes the result and compares every pair, and offers the bytes to wrong decoders; distinct = distinct contents with at least one entry",
		core.Family{Name: "roundtrip", Quick: 12000, Thorough: 300000, Run: u03RoundTrip},
		core.Family{Name: "extremes", Quick: 400, Thorough: 4000, Run: u03Extremes},
		core.Family{Name: "strings", Quick: 400, Thorough: 6000, Run: u03Strings},
	)
}

type tupleModel struct {
	k      tkind
	u      tupd
	th     *theta.QuickSelectUpdateSketch
	vals   map[uint64][]int64
	lgK    uint8
	thSeed uint64
}

func newTupleModel(t *T, k tkind, lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) *tupleModel {
	u, err := k.newUpdate(lgK, rf, p, seed)
	t.NoErr(err, "new")
	th, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new-theta")
	return &tupleModel{k, u, th, map[uint64][]int64{}, lgK, seed}
}

func (m *tupleModel) feed(t *T, it item, v int64) {
	h := it.hash(m.thSeed)
	te := it.feed(m.th)
	ue := m.u.feed(it, v)
	wantOK := te == nil || isErr(te, theta.ErrDuplicateKey)
	t.Check((ue == nil) == wantOK, "err", "theta sketch returned %v, tuple sketch %v for the same key", te, ue)
	if isErr(te, theta.ErrHashExceedsTheta) {
		t.Check(isErr(ue, tuple.ErrHashExceedsTheta), "err", "theta sketch returned %v, tuple sketch %v", te, ue)
		t.Ev("above-theta")
	}
	if wantOK {
		if len(m.vals[h]) > 0 {
			t.Ev("folded-again")
		} else {
			t.Ev("admitted")
		}
		m.vals[h] = append(m.vals[h], v)
	}
}

func (m *tupleModel) want(t *T) tsnap {
	w := tsnap{snapOf(m.th), map[uint64]string{}}
	for _, h := range w.hashes {
		w.sum[h] = m.k.fold(m.vals[h])
	}
	return w
}

func (m *tupleModel) full(t *T) tsnap {
	g := checkT(t, m.u.sk(), m.want(t), "state")
	e, lb, ub, errs := m.u.sk().est()
	te := m.th.Estimate()
	t.Check(e == te && errs == 0, "estimate", "estimate %v, theta sketch %v (%d bound errors)", e, te, errs)
	for kk := uint8(1); kk <= 3; kk++ {
		tl, _ := m.th.LowerBound(kk)
		tu, _ := m.th.UpperBound(kk)
		t.Check(lb[kk] == tl && ub[kk] == tu, "bounds", "bounds [%v,%v] at %d, theta sketch [%v,%v]", lb[kk], ub[kk], kk, tl, tu)
	}
	t.Ev("state-compared")
	return g
}

func u01History(t *T) {
	k := tupleKinds(t)
	lgK := uint8(5 + t.IntN(3))
	p := float32(1)
	if t.IntN(4) == 0 {
		p = []float32{0.5, 0.1}[t.IntN(2)]
	}
	rf := theta.ResizeFactor(t.IntN(4))
	seed := seedsPool[t.IntN(len(seedsPool))]
	m := newTupleModel(t, k, lgK, rf, p, seed)
	t.Desc("%s lgK=%d rf=%d p=%v seed=%d", k.name(), lgK, rf, p, seed)
	t.Sig(k.name(), lgK, rf, p, seed)
	t.Ev("kind-" + k.name())
	pool := []int{10, 100, 500, 3000}[t.IntN(4)]
	n := t.IntN(4 << lgK)
	if t.IntN(4) == 0 {
		n = t.IntN(12 << lgK)
	}
	type frozen struct {
		s    tsk
		want tsnap
		what string
	}
	var kept []frozen
	for i := 0; i < n; i++ {
		it := randItem(t, pool)
		before := m.th.Theta64()
		m.feed(t, it, int64(t.IntN(1000)))
		if m.th.Theta64() != before {
			t.NonTrivial()
			t.Ev("rebuild")
		}
		switch r := t.IntN(400); {
		case r == 0:
			m.u.trim()
			m.th.Trim()
			m.full(t)
			t.Ev("trim")
			t.NonTrivial()
		case r == 1 && i > 10:
			m.u.reset()
			m.th.Reset()
			m.vals = map[uint64][]int64{}
			g := m.full(t)
			t.Check(g.empty, "reset", "not empty after reset")
			t.Ev("reset")
			t.NonTrivial()
		case r < 6:
			g := m.full(t)
			o := t.IntN(2) == 0
			c, err := m.u.compact(o)
			t.NoErr(err, "compact")
			cg := checkT(t, c, g, "compact")
			t.Check(!o || cg.ordered, "compact-ordered", "ordered compact sketch requested")
			kept = append(kept, frozen{c, cg, "compact"})
			t.Ev("compact")
		case r < 10:
			g := m.full(t)
			cut := uint64(t.Uint64())
			pred := func(s string) bool {
				h := fnv.New64a()
				fmt.Fprintf(h, "%s|%d", s, cut)
				return h.Sum64()&3 != 0
			}
			f, err := m.u.filter(pred)
			t.NoErr(err, "filter")
			if f == nil {
				continue
			}
			w := tsnap{g.snap, map[uint64]string{}}
			w.hashes = nil
			for _, h := range g.hashes {
				if pred(g.sum[h]) {
					w.hashes = append(w.hashes, h)
					w.sum[h] = g.sum[h]
				}
			}
			w.empty = g.empty || (len(w.hashes) == 0 && g.theta == theta.MaxTheta)
			fg := checkT(t, f, w, "filter")
			kept = append(kept, frozen{f, fg, "filtered"})
			t.Ev("filter")
			c, err := m.u.compact(true)
			t.NoErr(err, "compact")
			f2, err := m.k.filterOf(c, pred)
			t.NoErr(err, "filter")
			checkT(t, f2, w, "filter-compact")
		}
	}
	g := m.full(t)
	c, err := m.u.compact(true)
	t.NoErr(err, "compact")
	cg := checkT(t, c, g, "compact")
	kept = append(kept, frozen{c, cg, "compact"})
	// later updates of known and new keys, then destruction of the source
	for i := 0; i < 20; i++ {
		m.feed(t, randItem(t, pool), 5000+int64(i))
	}
	m.full(t)
	for _, f := range kept {
		t.Check(sameT(f.s.snap(), f.want), "copy-changed", "%s copy changed when the source was updated", f.what)
	}
	m.u.sk().poke()
	m.u.reset()
	for _, f := range kept {
		t.Check(sameT(f.s.snap(), f.want), "copy-changed-reset", "%s copy changed when the source's summaries were mutated or reset", f.what)
	}
	t.EvN("copies-rechecked", len(kept))
	t.Sig(n, len(g.hashes), g.theta)
}

func u01Large(t *T) {
	lgK := uint8(11 + t.IntN(4))
	m := newTupleModel(t, kindLog(), lgK, theta.ResizeFactor(t.IntN(4)), 1, 9001)
	n := 4 << lgK
	t.Desc("large lgK=%d n=%d", lgK, n)
	t.Sig(lgK, t.Uint64())
	t.NonTrivial()
	for i := 0; i < n; i++ {
		m.feed(t, item{kind: itInt64, i: int64(t.IntN(n))}, int64(i))
	}
	m.full(t)
	m.u.trim()
	m.th.Trim()
	m.full(t)
}

type tpooled struct {
	sk   tsk
	upd  tupd
	n    tsnap
	form string
}

func tuplePool(t *T, k tkind, seed uint64, universe int) []tpooled {
	var pool []tpooled
	lg0 := uint8(5 + t.IntN(3))
	for i := 0; i < 2+t.IntN(4); i++ {
		lg := lg0
		if t.IntN(3) == 0 {
			lg = uint8(5 + t.IntN(6))
		}
		p := float32(1)
		if t.IntN(5) == 0 {
			p = []float32{0.5, 0.1, 0.001}[t.IntN(3)]
		}
		rf := theta.ResizeFactor(t.IntN(4))
		u, err := k.newUpdate(lg, rf, p, seed)
		t.NoErr(err, "new")
		n := 0
		switch t.IntN(9) {
		case 0:
		case 1:
			n = 1 + t.IntN(3)
		default:
			n = t.IntN(universe)
		}
		lo := t.IntN(universe)
		for j := 0; j < n; j++ {
			key := int64((lo + j) % universe)
			_ = u.feed(item{kind: itInt64, i: key}, int64(i*1000+t.IntN(900)))
			if t.IntN(6) == 0 {
				_ = u.feed(item{kind: itInt64, i: key}, int64(i*1000+t.IntN(900)))
			}
		}
		if t.IntN(5) == 0 {
			u.trim()
		}
		q := tpooled{sk: u.sk(), upd: u, form: "update"}
		switch t.IntN(5) {
		case 0, 1:
			q.sk, err = u.compact(t.IntN(2) == 0)
			t.NoErr(err, "compact")
			q.form = "compact"
		case 2:
			c, err := u.compact(t.IntN(2) == 0)
			t.NoErr(err, "compact")
			b, err := k.encode(c)
			t.NoErr(err, "encode")
			q.sk, err = k.decode(b, seed)
			t.NoErr(err, "decode")
			q.form = "decoded"
		case 3:
			ts := buildTheta(t, lg, seed, universe)
			f, err := k.fromTheta(ts, int64(i*1000+7), t.IntN(2) == 0)
			t.NoErr(err, "from-theta")
			if f != nil {
				w := tsnap{snapOf(ts), map[uint64]string{}}
				for _, h := range w.hashes {
					w.sum[h] = k.fold([]int64{int64(i*1000 + 7)})
				}
				checkT(t, f, w, "from-theta")
				q = tpooled{sk: f, form: "from-theta"}
			}
		}
		q.n = wellT(t, q.sk, "input")
		t.Ev("input-" + q.form)
		pool = append(pool, q)
	}
	return pool
}

// foldSums applies the policy over the matching inputs in order.
func foldSums(k tkind, in []tsnap, hashes []uint64) map[uint64]string {
	out := make(map[uint64]string, len(hashes))
	for _, h := range hashes {
		first := true
		for _, s := range in {
			c, ok := s.sum[h]
			if !ok {
				continue
			}
			if first {
				out[h] = c
				first = false
			} else {
				out[h] = k.merge(out[h], c)
			}
		}
	}
	return out
}

func snaps(in []tsnap) []snap {
	var o []snap
	for _, s := range in {
		o = append(o, s.snap)
	}
	return o
}

func u02Algebra(t *T) {
	k := tupleKinds(t)
	seed := seedsPool[t.IntN(len(seedsPool))]
	universe := 10 + t.IntN(300)
	if t.IntN(5) == 0 {
		universe = 1000 + t.IntN(2000)
	}
	pool := tuplePool(t, k, seed, universe)
	sh := pool[0].n.seed
	t.Ev("kind-" + k.name())
	t.Desc("%s pool of %d, universe %d, seed %d", k.name(), len(pool), universe, seed)
	t.Sig(k.name())
	for i, p := range pool {
		t.Sig(p.form, p.n.theta, len(p.n.hashes))
		t.Logf("input %d: %s retained=%d theta=%d empty=%v ordered=%v", i, p.form, len(p.n.hashes), p.n.theta, p.n.empty, p.n.ordered)
	}
	type kept struct {
		s    tsk
		n    tsnap
		what string
	}
	var results []kept
	unchanged := func(when string) {
		for i, p := range pool {
			n := p.sk.snap()
			t.Check(sameT(n, p.n) && slices.Equal(n.order, p.n.order), "input-changed", "input %d (%s) changed %s", i, p.form, when)
		}
		for _, r := range results {
			t.Check(sameT(r.s.snap(), r.n), "result-changed", "earlier %s result changed %s", r.what, when)
		}
	}
	ulg := uint8(5 + t.IntN(5))
	up := float32(1)
	if t.IntN(6) == 0 {
		up = 0.5
	}
	th0 := uint64(theta.MaxTheta)
	if up < 1 {
		th0 = uint64(float64(theta.MaxTheta) * float64(up))
	}
	u, err := k.union(ulg, theta.ResizeFactor(t.IntN(4)), up, seed)
	t.NoErr(err, "new-union")
	for round := 0; round < 2; round++ {
		var fed []tsnap
		nu := 1 + t.IntN(5)
		for i := 0; i < nu; i++ {
			p := pool[t.IntN(len(pool))]
			t.NoErr(u.update(p.sk), "union-update")
			fed = append(fed, p.n)
			if i+1 < nu && t.IntN(3) > 0 {
				continue
			}
			ordered := t.IntN(2) == 0
			r, err := u.result(ordered)
			t.NoErr(err, "union-result")
			ms := unionModel(snaps(fed), 1<<ulg, th0, sh)
			w := tsnap{ms, foldSums(k, fed, ms.hashes)}
			if ms.empty {
				n := r.snap()
				t.Check(n.empty && len(n.hashes) == 0, "union-empty", "union of empty sketches is not empty")
				continue
			}
			g := checkT(t, r, w, "union")
			t.Check(!ordered || g.ordered, "union-ordered", "ordered result requested")
			results = append(results, kept{r, g, "union"})
			t.Ev("union")
			if len(fed) > 1 && len(g.hashes) > 0 {
				t.NonTrivial()
			}
		}
		unchanged("during a union")
		u.reset()
		unchanged("when a union was reset")
		r, err := u.result(true)
		t.NoErr(err, "union-result")
		n := r.snap()
		t.Check(n.empty && len(n.hashes) == 0, "union-reset", "reset union not empty")
	}
	x := k.inter(seed)
	_, err = x.result(true)
	t.Check(err != nil, "inter-undefined", "result of an intersection without input")
	var fed []tsnap
	for i := 0; i < 1+t.IntN(4); i++ {
		p := pool[t.IntN(len(pool))]
		t.NoErr(x.update(p.sk), "inter-update")
		fed = append(fed, p.n)
		ordered := t.IntN(2) == 0
		r, err := x.result(ordered)
		t.NoErr(err, "inter-result")
		ms := interModel(snaps(fed), sh)
		g := checkT(t, r, tsnap{ms, foldSums(k, fed, ms.hashes)}, "inter")
		t.Check(!ordered || g.ordered, "inter-ordered", "ordered result requested")
		results = append(results, kept{r, g, "intersection"})
		t.Ev("intersection")
		if len(g.hashes) > 0 && i > 0 {
			t.Ev("intersection-nonempty")
			t.NonTrivial()
		}
	}
	unchanged("during an intersection")
	for i := 0; i < 3; i++ {
		a, b := pool[t.IntN(len(pool))], pool[t.IntN(len(pool))]
		ordered := t.IntN(2) == 0
		r, err := k.diff(a.sk, b.sk, seed, ordered)
		t.NoErr(err, "diff")
		w := tsnap{diffModel(a.n.snap, b.n.snap, sh), a.n.sum}
		g := checkT(t, r, w, "diff-"+boolStr(a.n.ordered && b.n.ordered))
		t.Check(!ordered || g.ordered, "diff-ordered", "ordered result requested")
		results = append(results, kept{r, g, "difference"})
		t.Ev("difference")
		if i == 0 {
			tb := buildTheta(t, uint8(5+t.IntN(4)), seed, universe)
			f, form := anyForm(t, tb, seed)
			n := snapOf(f)
			r, err := k.diffTheta(a.sk, f, seed, ordered)
			t.NoErr(err, "diff-theta")
			if r != nil {
				g := checkT(t, r, tsnap{diffModel(a.n.snap, n, sh), a.n.sum}, "diff-theta-"+form)
				results = append(results, kept{r, g, "difference"})
				t.Ev("difference-theta")
			}
			t.Check(sameSnap(snapOf(f), n), "theta-input-changed", "theta input of a difference changed")
		}
	}
	unchanged("during a difference")
	if seed == 9001 || t.IntN(2) == 0 {
		a, b := pool[0], pool[len(pool)-1]
		j, ok, err := k.jaccard(a.sk, b.sk, seed)
		t.NoErr(err, "jaccard")
		if ok {
			tj, err := theta.Jaccard(fakeOf(a.n), fakeOf(b.n), seed)
			t.NoErr(err, "jaccard")
			t.Check(j.LowerBound == tj.LowerBound && j.Estimate == tj.Estimate && j.UpperBound == tj.UpperBound, "jaccard", "similarity %v but %v for the same keys as theta sketches", j, tj)
			t.Check(0 <= j.LowerBound && j.LowerBound <= j.Estimate && j.Estimate <= j.UpperBound && j.UpperBound <= 1, "jaccard-order", "similarity %v", j)
			t.Ev("jaccard")
			na, nb := a.n.snap, b.n.snap
			same := na.empty && nb.empty || !na.empty && !nb.empty && na.theta == nb.theta && slices.Equal(na.hashes, nb.hashes)
			for _, th := range []float64{j.LowerBound, j.Estimate, j.UpperBound, 0.95 * t.Float64()} {
				eq, sim, dis, err := k.similar(a.sk, b.sk, th, seed)
				t.NoErr(err, "similar")
				t.Check(eq == same, "exactly-equal", "IsExactlyEqual=%v but the keys are equal: %v", eq, same)
				t.Check(sim == (j.LowerBound >= th) && dis == (j.UpperBound <= th), "similar", "threshold %v: similar=%v dissimilar=%v with %+v", th, sim, dis, j)
			}
			t.Ev("similarity tests")
		}
		unchanged("during a similarity")
	}
	// change a result: inputs and other results stay; change inputs: results stay
	for i := range results {
		if t.IntN(3) == 0 && results[i].s != nil {
			results[i].s.poke()
			results[i].n = results[i].s.snap()
			t.Ev("result-poked")
		}
	}
	unchanged("when a result was changed")
	for i := range pool {
		if pool[i].upd != nil {
			for j := 0; j < 20; j++ {
				_ = pool[i].upd.feed(item{kind: itInt64, i: int64(t.IntN(universe))}, 9000)
			}
			pool[i].n = pool[i].sk.snap()
		}
		if t.IntN(2) == 0 {
			pool[i].sk.poke()
			pool[i].n = pool[i].sk.snap()
		}
		if pool[i].upd != nil && t.IntN(2) == 0 {
			pool[i].upd.reset()
			pool[i].n = pool[i].sk.snap()
		}
		unchanged("when an input was changed afterwards")
	}
	t.EvN("results-rechecked", len(results))
}

func fakeOf(n tsnap) theta.Sketch {
	return theta.NewCompactSketch(&fakeSketch{th: n.theta, list: n.order, ord: n.ordered, empty: n.empty, seed: n.seed}, false)
}

func u02Refusals(t *T) {
	k := tupleKinds(t)
	s1, s2 := uint64(9001), uint64(1+t.IntN(1000))
	mk := func(seed uint64) tsk {
		u, err := k.newUpdate(5, theta.ResizeX8, 1, seed)
		t.NoErr(err, "new")
		for i := 0; i < 1+t.IntN(200); i++ {
			_ = u.feed(item{kind: itInt64, i: int64(i)}, int64(i))
		}
		if t.IntN(2) == 0 {
			c, err := u.compact(true)
			t.NoErr(err, "compact")
			return c
		}
		return u.sk()
	}
	a, b := mk(s1), mk(s2)
	t.Desc("%s seeds %d vs %d", k.name(), s1, s2)
	t.Sig(k.name(), s2)
	t.NonTrivial()
	u, err := k.union(5, theta.ResizeX8, 1, s1)
	t.NoErr(err, "new-union")
	t.NoErr(u.update(a), "union-update")
	r0, _ := u.result(true)
	t.Check(u.update(b) != nil, "union-seed", "union accepted a sketch with another seed")
	r1, _ := u.result(true)
	t.Check(sameT(r0.snap(), r1.snap()), "union-seed-state", "refused update changed the union")
	x := k.inter(s1)
	t.Check(x.update(b) != nil, "inter-seed", "intersection accepted a sketch with another seed")
	_, e1 := k.diff(a, b, s1, true)
	_, e2 := k.diff(b, a, s1, true)
	t.Check(e1 != nil && e2 != nil, "diff-seed", "difference accepted a sketch with another seed")
	t.EvN("seed-refusals", 4)
	// a different number of values is refused
	n := uint8(1 + t.IntN(4))
	ka, kb := akind[float64]{n, floatMk[float64], "f64"}, akind[float64]{n + 1, floatMk[float64], "f64"}
	ua, _ := ka.newUpdate(5, theta.ResizeX8, 1, s1)
	_ = ua.feed(item{kind: itInt64, i: 1}, 1)
	un, _ := kb.union(5, theta.ResizeX8, 1, s1)
	t.Check(un.update(ua.sk()) != nil, "union-values", "union of %d values accepted a sketch with %d", n+1, n)
	t.Check(kb.inter(s1).update(ua.sk()) != nil, "inter-values", "intersection of %d values accepted a sketch with %d", n+1, n)
	t.EvN("width-refusals", 2)
}
