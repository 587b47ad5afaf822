package mon

import (
	"math"
	"slices"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

func init() {
	core.Register("T03", "every case builds a pool of sketches over one item universe (exact, estimating, degenerate, empty; update, compact, decoded, wrapped; ordered or not), runs sequences of unions, intersections and differences on them and compares every result with set algebra on the observed input hashes; distinct = distinct pools and sequences with at least one estimating or degenerate input",
		core.Family{Name: "algebra", Quick: 40000, Thorough: 200000, Run: t03Algebra},
		core.Family{Name: "laws", Quick: 20000, Thorough: 40000, Run: t03Laws},
		core.Family{Name: "seeds", Quick: 200, Thorough: 2000, Run: t03Seeds},
		core.Family{Name: "large", Quick: 60, Thorough: 200, Run: t03Large},
	)
}

// buildTheta makes one sketch over the universe [0,universe).
func buildTheta(t *T, lgK uint8, seed uint64, universe int) *theta.QuickSelectUpdateSketch {
	p := float32(1)
	if t.IntN(4) == 0 {
		p = []float32{0.5, 0.1, 0.001}[t.IntN(3)]
	}
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(t.IntN(4))))
	t.NoErr(err, "new")
	n := 0
	switch t.IntN(10) {
	case 0: // empty
	case 1:
		n = 1
	case 2:
		n = t.IntN(5)
	default:
		n = t.IntN(universe)
	}
	lo := t.IntN(universe)
	for i := 0; i < n; i++ {
		_ = s.UpdateInt64(int64((lo + i) % universe))
	}
	switch t.IntN(6) {
	case 0:
		s.Trim()
	case 1: // p<1 and nothing retained: degenerate
		if p < 0.01 && n == 0 {
			for i := 0; i < 3; i++ {
				_ = s.UpdateInt64(int64(universe + i))
			}
		}
	}
	return s
}

// anyForm converts a sketch to a random form with the same content.
func anyForm(t *T, s *theta.QuickSelectUpdateSketch, seed uint64) (theta.Sketch, string) {
	ord := t.IntN(2) == 0
	switch t.IntN(5) {
	case 0:
		return s, "update"
	case 1:
		if ord {
			return s.CompactOrdered(), "compact"
		}
		return s.Compact(ord), "compact"
	case 2:
		b, err := s.Compact(ord).MarshalBinary()
		t.NoErr(err, "marshal")
		d, err := theta.Decode(b, seed)
		t.NoErr(err, "decode")
		return d, "decoded"
	case 3:
		b := encodeTheta(t, s.Compact(ord), true)
		d, err := theta.Decode(b, seed)
		t.NoErr(err, "decode")
		return d, "decoded-compressed"
	default:
		b := encodeTheta(t, s.Compact(ord), t.IntN(2) == 0)
		d, err := theta.WrapCompactSketch(b, seed)
		t.NoErr(err, "wrap")
		return d, "wrapped"
	}
}

func below(h []uint64, th uint64) []uint64 {
	i, _ := slices.BinarySearch(h, th)
	return h[:i]
}

// unionModel folds snapshots into what a union with nominal size k and
// starting theta th0 must hold.
func unionModel(in []snap, k int, th0 uint64, seed uint16) snap {
	r := snap{theta: th0, empty: true, seed: seed}
	var all []uint64
	for _, s := range in {
		if s.empty {
			continue
		}
		r.empty = false
		r.theta = min(r.theta, s.theta)
		all = append(all, s.hashes...)
	}
	slices.Sort(all)
	all = slices.Compact(all)
	r.hashes = slices.Clone(below(all, r.theta))
	if len(r.hashes) > k {
		r.theta = r.hashes[k]
		r.hashes = r.hashes[:k]
	}
	return r
}

func interModel(in []snap, seed uint16) snap {
	r := snap{theta: theta.MaxTheta, seed: seed}
	for i, s := range in {
		if r.empty {
			break
		}
		if s.empty {
			return snap{theta: theta.MaxTheta, empty: true, seed: seed}
		}
		r.theta = min(r.theta, s.theta)
		if i == 0 {
			r.hashes = slices.Clone(s.hashes)
		} else {
			var x []uint64
			for _, h := range r.hashes {
				if _, ok := slices.BinarySearch(s.hashes, h); ok {
					x = append(x, h)
				}
			}
			r.hashes = x
		}
		r.hashes = slices.Clone(below(r.hashes, r.theta))
		if len(r.hashes) == 0 && r.theta == theta.MaxTheta {
			r.empty = true
		}
	}
	return r
}

func diffModel(a, b snap, seed uint16) snap {
	if a.empty {
		return snap{theta: theta.MaxTheta, empty: true, seed: seed}
	}
	r := snap{theta: a.theta, seed: seed}
	if !b.empty {
		r.theta = min(r.theta, b.theta)
	}
	for _, h := range below(a.hashes, r.theta) {
		if _, ok := slices.BinarySearch(b.hashes, h); !ok || b.empty {
			r.hashes = append(r.hashes, h)
		}
	}
	r.empty = len(r.hashes) == 0 && r.theta == theta.MaxTheta
	return r
}

func checkSnap(t *T, got theta.Sketch, want snap, key string) snap {
	g := wellFormed(t, got, key)
	t.Check(g.theta == want.theta, key+"-theta", "theta %d, want %d (retained %d, want %d)", g.theta, want.theta, len(g.hashes), len(want.hashes))
	t.Check(slices.Equal(g.hashes, want.hashes), key+"-hashes", "retained %d hashes, want %d; first difference %s", len(g.hashes), len(want.hashes), firstDiff(g.hashes, want.hashes))
	t.Check(g.empty == want.empty, key+"-empty", "empty=%v, want %v (theta %d, retained %d)", g.empty, want.empty, g.theta, len(g.hashes))
	t.Check(g.seed == want.seed, key+"-seed", "seed hash %d, want %d", g.seed, want.seed)
	return g
}

func firstDiff(a, b []uint64) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			if i >= len(b) {
				return "extra " + u64s(a[i])
			}
			return u64s(a[i]) + " vs " + u64s(b[i])
		}
	}
	if len(b) > len(a) {
		return "missing " + u64s(b[len(a)])
	}
	return "none"
}

func u64s(v uint64) string { return string(appendUint(nil, v)) }

func appendUint(b []byte, v uint64) []byte {
	if v >= 10 {
		b = appendUint(b, v/10)
	}
	return append(b, byte('0'+v%10))
}

type pooled struct {
	sk   theta.Sketch
	form string
	n    snap
}

func t03Pool(t *T, seed uint64) []pooled {
	universe := 20 + t.IntN(600)
	if t.IntN(4) == 0 {
		universe = 2000 + t.IntN(4000)
	}
	lg0 := uint8(5 + t.IntN(3))
	var pool []pooled
	for i := 0; i < 2+t.IntN(5); i++ {
		lg := lg0
		if t.IntN(3) == 0 {
			lg = uint8(5 + t.IntN(7))
		}
		s := buildTheta(t, lg, seed, universe)
		f, form := anyForm(t, s, seed)
		p := pooled{f, form, snapOf(f)}
		pool = append(pool, p)
		t.Ev("input-" + form)
		if !p.n.empty && p.n.theta < theta.MaxTheta {
			t.NonTrivial()
			if len(p.n.hashes) == 0 {
				t.Ev("input-degenerate")
			}
		}
		if p.n.empty {
			t.Ev("input-empty")
		}
	}
	return pool
}

func t03Algebra(t *T) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	pool := t03Pool(t, seed)
	sh := pool[0].n.seed
	for i := range pool {
		t.Sig(pool[i].form, pool[i].n.theta, len(pool[i].n.hashes), pool[i].n.empty)
		t.Logf("input %d: %s retained=%d theta=%d empty=%v ordered=%v", i, pool[i].form, len(pool[i].n.hashes), pool[i].n.theta, pool[i].n.empty, pool[i].n.ordered)
	}
	t.Desc("pool of %d sketches, seed %d", len(pool), seed)
	ordered := t.IntN(2) == 0
	// union, checked after every update, reused after reset
	ulg := uint8(5 + t.IntN(6))
	up := float32(1)
	if t.IntN(6) == 0 {
		up = 0.5
	}
	th0 := uint64(theta.MaxTheta)
	if up < 1 {
		th0 = uint64(float64(theta.MaxTheta) * float64(up))
	}
	u, err := theta.NewUnion(theta.WithUnionLgK(ulg), theta.WithUnionSeed(seed), theta.WithUnionSketchP(up), theta.WithUnionResizeFactor(theta.ResizeFactor(t.IntN(4))))
	t.NoErr(err, "new-union")
	for round := 0; round < 2; round++ {
		var fed []snap
		if up == 1 {
			r, err := u.Result(ordered)
			t.NoErr(err, "union-result")
			checkSnap(t, r, snap{theta: theta.MaxTheta, empty: true, seed: sh}, "union-initial")
		}
		for i := 0; i < 1+t.IntN(6); i++ {
			p := pool[t.IntN(len(pool))]
			t.NoErr(u.Update(p.sk), "union-update")
			fed = append(fed, p.n)
			if t.IntN(3) > 0 || i == 0 {
				continue
			}
			t03CheckUnion(t, u, fed, 1<<ulg, th0, sh, ordered)
		}
		t03CheckUnion(t, u, fed, 1<<ulg, th0, sh, ordered)
		u.Reset()
	}
	// intersection
	x := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	t.Check(!x.HasResult(), "inter-hasresult", "fresh intersection has a result")
	_, err = x.Result(true)
	t.Check(err != nil, "inter-undefined", "result of an intersection without input")
	var fed []snap
	for i := 0; i < 1+t.IntN(4); i++ {
		p := pool[t.IntN(len(pool))]
		t.NoErr(x.Update(p.sk), "inter-update")
		t.Check(x.HasResult(), "inter-hasresult", "no result after an update")
		fed = append(fed, p.n)
		r, err := x.Result(ordered)
		t.NoErr(err, "inter-result")
		g := checkSnap(t, r, interModel(fed, sh), "inter")
		t.Check(!ordered || g.ordered, "inter-ordered", "ordered result requested")
		t.Ev("intersection")
		if len(g.hashes) > 0 {
			t.Ev("intersection-nonempty")
		}
	}
	// differences
	for i := 0; i < 4; i++ {
		a, b := pool[t.IntN(len(pool))], pool[t.IntN(len(pool))]
		r, err := theta.ANotB(a.sk, b.sk, seed, ordered)
		t.NoErr(err, "diff")
		want := diffModel(a.n, b.n, sh)
		if b.n.empty && a.n.empty {
			want.empty = true
		}
		g := checkSnap(t, r, want, "diff-"+boolStr(a.n.ordered && b.n.ordered))
		t.Check(!ordered || g.ordered, "diff-ordered", "ordered result requested")
		t.Ev("difference")
		if len(g.hashes) > 0 {
			t.Ev("difference-nonempty")
		}
	}
	for i, p := range pool {
		n := snapOf(p.sk)
		t.Check(sameSnap(n, p.n) && slices.Equal(n.order, p.n.order), "input-changed", "input %d (%s) changed", i, p.form)
	}
}

func boolStr(b bool) string {
	if b {
		return "ordered"
	}
	return "unordered"
}

func t03CheckUnion(t *T, u *theta.Union, fed []snap, k int, th0 uint64, sh uint16, ordered bool) {
	r, err := u.Result(ordered)
	t.NoErr(err, "union-result")
	want := unionModel(fed, k, th0, sh)
	if want.empty {
		t.Check(r.IsEmpty() && r.NumRetained() == 0, "union-empty", "union of empty sketches is not empty")
		t.Ev("union-of-empties")
		return
	}
	g := checkSnap(t, r, want, "union")
	t.Check(!ordered || g.ordered, "union-ordered", "ordered result requested")
	t.Ev("union")
	if g.theta < th0 {
		t.Ev("union-estimating")
	}
	if len(g.hashes) == k {
		t.Ev("union-at-k")
	}
}

// t03Laws checks order and grouping independence through real results.
func t03Laws(t *T) {
	seed := uint64(9001)
	pool := t03Pool(t, seed)
	ulg := uint8(5 + t.IntN(5))
	for _, p := range pool {
		t.Sig(p.n.theta, len(p.n.hashes), p.form)
	}
	t.Desc("laws over %d sketches, union lgK %d", len(pool), ulg)
	mk := func(in []theta.Sketch) *theta.CompactSketch {
		u, err := theta.NewUnion(theta.WithUnionLgK(ulg))
		t.NoErr(err, "new-union")
		for _, s := range in {
			t.NoErr(u.Update(s), "union-update")
		}
		r, err := u.Result(t.IntN(2) == 0)
		t.NoErr(err, "union-result")
		return r
	}
	var all []theta.Sketch
	for _, p := range pool {
		all = append(all, p.sk)
	}
	base := snapOf(mk(all))
	for i := 0; i < 3; i++ {
		p := slices.Clone(all)
		t.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
		t.Check(sameSnap(snapOf(mk(p)), base), "union-order", "union depends on input order")
		cut := t.IntN(len(p) + 1)
		grouped := mk([]theta.Sketch{mk(p[:cut]), mk(p[cut:])})
		t.Check(sameSnap(snapOf(grouped), base), "union-grouping", "union of unions differs from the flat union")
		again := mk(append(slices.Clone(p), p...))
		t.Check(sameSnap(snapOf(again), base), "union-idempotent", "feeding every input twice changes the union")
		t.Ev("union-law")
	}
	ix := func(in []theta.Sketch) snap {
		x := theta.NewIntersection()
		for _, s := range in {
			t.NoErr(x.Update(s), "inter-update")
		}
		r, err := x.Result(true)
		t.NoErr(err, "inter-result")
		return snapOf(r)
	}
	ibase := ix(all)
	for i := 0; i < 3; i++ {
		p := slices.Clone(all)
		t.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
		g := ix(p)
		if g.empty || ibase.empty {
			// exact inputs alone may already prove the intersection empty
			t.Check(len(g.hashes) == 0 && len(ibase.hashes) == 0, "inter-order", "intersection depends on input order")
			continue
		}
		t.Check(sameSnap(g, ibase), "inter-order", "intersection depends on input order")
		t.Ev("intersection-law")
	}
	// A = (A∩B) ∪ (A\B) below the common theta
	a, b := pool[0], pool[len(pool)-1]
	d, err := theta.ANotB(a.sk, b.sk, seed, true)
	t.NoErr(err, "diff")
	i := ix([]theta.Sketch{a.sk, b.sk})
	if !a.n.empty && !b.n.empty {
		th := min(a.n.theta, b.n.theta)
		merged := append(slices.Clone(i.hashes), snapOf(d).hashes...)
		slices.Sort(merged)
		t.Check(slices.Equal(merged, below(a.n.hashes, th)), "partition", "A∩B and A\\B do not partition A")
	}
}

func t03Seeds(t *T) {
	s1, s2 := uint64(9001), uint64(1+t.IntN(1000))
	a := buildNonEmpty(t, s1)
	b := buildNonEmpty(t, s2)
	fb, form := anyForm(t, b, s2)
	t.Desc("seed %d vs %d form %s", s1, s2, form)
	t.Sig(s2, form)
	t.NonTrivial()
	u, _ := theta.NewUnion()
	t.NoErr(u.Update(a), "union-update")
	r0, _ := u.Result(true)
	t.Check(u.Update(fb) != nil, "union-seed", "union accepted a sketch with another seed (%s)", form)
	r1, _ := u.Result(true)
	t.Check(sameSnap(snapOf(r0), snapOf(r1)), "union-seed-state", "refused update changed the union")
	x := theta.NewIntersection()
	t.Check(x.Update(fb) != nil, "inter-seed", "intersection accepted a sketch with another seed (%s)", form)
	_, e1 := theta.ANotB(a, fb, s1, true)
	_, e2 := theta.ANotB(fb, a, s1, true)
	t.Check(e1 != nil && e2 != nil, "diff-seed", "difference accepted a sketch with another seed: %v %v", e1, e2)
	_, e3 := theta.Jaccard(a, fb, s1)
	t.Check(e3 != nil, "jaccard-seed", "jaccard accepted a sketch with another seed")
	t.EvN("seed-refusals", 5)
}

func buildNonEmpty(t *T, seed uint64) *theta.QuickSelectUpdateSketch {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(5+t.IntN(3))), theta.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	n := 1 + t.IntN(200)
	for i := 0; i < n; i++ {
		_ = s.UpdateInt64(int64(i))
	}
	return s
}

func t03Large(t *T) {
	lgK := uint8(11 + t.IntN(4))
	var snaps []snap
	u, _ := theta.NewUnion(theta.WithUnionLgK(lgK))
	x := theta.NewIntersection()
	universe := int(float64(uint(1)<<lgK) * 6)
	t.Desc("large lgK=%d universe=%d", lgK, universe)
	t.Sig(lgK, universe, t.Uint64())
	t.NonTrivial()
	for i := 0; i < 3; i++ {
		s, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(int(lgK) - 1 + t.IntN(3))))
		lo := t.IntN(universe)
		n := universe/4 + t.IntN(universe)
		for j := 0; j < n; j++ {
			_ = s.UpdateInt64(int64((lo + j) % (2 * universe)))
		}
		f, _ := anyForm(t, s, 9001)
		snaps = append(snaps, snapOf(f))
		t.NoErr(u.Update(f), "union-update")
		t.NoErr(x.Update(f), "inter-update")
	}
	t03CheckUnion(t, u, snaps, 1<<lgK, math.MaxInt64, snaps[0].seed, true)
	r, err := x.Result(true)
	t.NoErr(err, "inter-result")
	checkSnap(t, r, interModel(snaps, snaps[0].seed), "inter")
}
