package mon

import (
	"bytes"
	"slices"

	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

// X06: an object given to an operation together with itself, or with results
// taken from it earlier, behaves like one given an independent copy.

func init() {
	core.Register("X06", "non-trivial: an operation received its own object or an earlier result of it, and the outcome was compared with the model or with the same operation on independent copies; distinct by configuration, stream and step sequence",
		core.Family{Name: "theta", Quick: 3000, Thorough: 60000, Run: x6Theta},
		core.Family{Name: "tuple", Quick: 3000, Thorough: 60000, Run: x6Tuple},
		core.Family{Name: "hll", Quick: 2500, Thorough: 50000, Run: x6Hll},
		core.Family{Name: "cpc", Quick: 1500, Thorough: 30000, Run: x6Cpc},
		core.Family{Name: "kll", Quick: 2500, Thorough: 50000, Run: kllRun(x6Kll[int64], x6Kll[float64], x6Kll[string], x6Kll[float32])},
		core.Family{Name: "req", Quick: 2500, Thorough: 50000, Run: x6Req},
		core.Family{Name: "tdigest", Quick: 2500, Thorough: 50000, Run: x6Td},
		core.Family{Name: "frequencies", Quick: 3000, Thorough: 50000, Run: fqRun(x6Fq[int64], x6Fq[int64], x6Fq[string], x6Fq[float64])},
		core.Family{Name: "bloom", Quick: 3000, Thorough: 50000, Run: x6Bloom},
		core.Family{Name: "count", Quick: 1500, Thorough: 30000, Run: x6Count},
		core.Family{Name: "reservoir", Quick: 3000, Thorough: 50000, Run: x6Reservoir},
		core.Family{Name: "varopt", Quick: 3000, Thorough: 50000, Run: x6VarOpt})
}

func x6Theta(t *T) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	lg := uint8(5 + t.IntN(4))
	a := buildTheta(t, lg, seed, 1+t.IntN(3000))
	t.Desc("theta lgK=%d retained=%d theta=%d", lg, a.NumRetained(), a.Theta64())
	t.Sig(lg, a.NumRetained(), a.Theta64())
	forms := func() theta.Sketch {
		switch t.IntN(3) {
		case 0:
			return a.Compact(t.IntN(2) == 0)
		case 1:
			c := a.Compact(true)
			img, err := c.MarshalBinary()
			t.NoErr(err, "encode")
			w, err := theta.WrapCompactSketch(img, seed)
			t.NoErr(err, "wrap")
			return w
		}
		return a
	}
	s := forms()
	self := snapOf(s)
	full := func(r theta.Sketch) snap { return wellFormed(t, r, "result") }

	// one operand twice
	r, err := theta.ANotB(s, s, seed, t.IntN(2) == 0)
	t.NoErr(err, "a-not-a")
	n := full(r)
	t.Check(len(n.hashes) == 0 && r.Estimate() == 0 && n.theta == self.theta && n.seed == self.seed, "a-not-a", "the difference of a sketch with itself holds %d keys, theta %d of %d", len(n.hashes), n.theta, self.theta)
	x := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	for range 1 + t.IntN(3) {
		t.NoErr(x.Update(s), "intersect")
		if x.HasResult() && t.IntN(2) == 0 {
			r, err := x.Result(t.IntN(2) == 0)
			t.NoErr(err, "intersect-result")
			t.NoErr(x.Update(r), "intersect-own")
			t.Ev("own results fed")
		}
	}
	ri, err := x.Result(t.IntN(2) == 0)
	t.NoErr(err, "intersect-result")
	t.Check(sameSnap(full(ri), self), "a-and-a", "the intersection of a sketch with itself is not the sketch: %d keys of %d", ri.NumRetained(), len(self.hashes))
	j, err := theta.Jaccard(s, s, seed)
	t.NoErr(err, "jaccard")
	t.Check(j.LowerBound == 1 && j.Estimate == 1 && j.UpperBound == 1, "jaccard", "similarity of a sketch with itself is %v..%v..%v", j.LowerBound, j.Estimate, j.UpperBound)
	eq, err := theta.IsExactlyEqual(s, s, seed)
	t.NoErr(err, "equal")
	t.Check(eq, "equal", "a sketch does not equal itself")

	// a union fed its own results
	lgU := uint8(5 + t.IntN(4))
	u, err := theta.NewUnion(theta.WithUnionSeed(seed), theta.WithUnionLgK(lgU), theta.WithUnionResizeFactor(theta.ResizeFactor(t.IntN(4))))
	t.NoErr(err, "union")
	for range 1 + t.IntN(3) {
		o := theta.Sketch(buildTheta(t, uint8(5+t.IntN(4)), seed, 1+t.IntN(2000)))
		if t.IntN(2) == 0 {
			o = s
		}
		t.NoErr(u.Update(o), "union")
		before, err := u.Result(t.IntN(2) == 0)
		t.NoErr(err, "union-result")
		want := full(before)
		t.NoErr(u.Update(before), "union-own")
		if t.IntN(2) == 0 {
			t.NoErr(u.Update(o), "union-again")
		}
		after, err := u.Result(t.IntN(2) == 0)
		t.NoErr(err, "union-result")
		t.Check(sameSnap(full(after), want), "union-own", "a union fed its own result changed from %d keys theta %d to %d keys theta %d", len(want.hashes), want.theta, after.NumRetained(), after.Theta64())
		t.Check(sameSnap(snapOf(before), want), "own-changed", "the result given back to its union changed")
		t.Ev("own results fed")
	}
	t.Check(sameSnap(snapOf(s), self), "operand", "the operand changed")
	if len(self.hashes) > 0 {
		t.NonTrivial()
	}
}

func x6Tuple(t *T) {
	k := tupleKinds(t)
	seed := seedsPool[t.IntN(len(seedsPool))]
	u := xbTupleFresh(t, k, seed)
	s := u.sk()
	var err error
	if t.IntN(2) == 0 {
		s, err = u.compact(t.IntN(2) == 0)
		t.NoErr(err, "compact")
	}
	self := s.snap()
	t.Desc("tuple %s retained=%d theta=%d", k.name(), len(self.hashes), self.theta)
	t.Sig(k.name(), len(self.hashes), self.theta)
	cp := func(x tsk) tsk { // an independent copy
		c, err := k.compactOf(x, true)
		t.NoErr(err, "copy")
		img, err := k.encode(c)
		t.NoErr(err, "copy-encode")
		d, err := k.decode(img, seed)
		t.NoErr(err, "copy-decode")
		return d
	}
	r, err := k.diff(s, s, seed, t.IntN(2) == 0)
	t.NoErr(err, "a-not-a")
	n := wellT(t, r, "a-not-a")
	t.Check(len(n.hashes) == 0 && n.theta == self.theta && n.seed == self.seed, "a-not-a", "the difference of a sketch with itself holds %d keys, theta %d of %d", len(n.hashes), n.theta, self.theta)
	other := xbTupleFresh(t, k, seed).sk()
	lgU := uint8(5 + t.IntN(4))
	for _, inter := range []bool{false, true} {
		mk := func() tset {
			if inter {
				return k.inter(seed)
			}
			v, err := k.union(lgU, theta.ResizeX2, 1, seed)
			t.NoErr(err, "union")
			return v
		}
		v, w := mk(), mk() // v sees its own things, w copies of them
		in := []tsk{s}
		for range 1 + t.IntN(4) {
			var o tsk
			switch t.IntN(4) {
			case 0:
				o = other
			case 1, 2:
				o = in[t.IntN(len(in))]
			default:
				o = s
			}
			c := cp(o)
			t.NoErr(v.update(o), "update")
			t.NoErr(w.update(c), "update")
			a, err := v.result(t.IntN(2) == 0)
			t.NoErr(err, "result")
			b, err := w.result(t.IntN(2) == 0)
			t.NoErr(err, "result")
			key := "union"
			if inter {
				key = "intersection"
			}
			checkT(t, a, b.snap(), key)
			in = append(in, a)
			t.Ev("own results fed")
		}
	}
	t.Check(sameT(s.snap(), self), "operand", "the operand or its summaries changed")
	if len(self.hashes) > 0 {
		t.NonTrivial()
	}
}

func x6Hll(t *T) {
	lgU := 4 + t.IntN(7)
	u, err := hll.NewUnion(lgU)
	t.NoErr(err, "union")
	fed := hllSet{}
	t.Desc("hll union lgK=%d", lgU)
	content := func(s hllSer, lg int) []uint32 {
		b, err := s.ToCompactSlice()
		t.NoErr(err, "image")
		im, err := ref.ParseHll(b)
		t.NoErr(err, "parse")
		return hllRegs(im, lg)
	}
	for range 1 + t.IntN(4) {
		lg := 4 + t.IntN(7)
		s := hllNew(t, lg, hll.TgtHllType(t.IntN(3)))
		for _, it := range hllStream(t, lg, t.IntN(3)*t.IntN(500), 0.05, 1<<40) {
			t.NoErr(it.feed(s), "update")
			fed.add(it)
		}
		t.NoErr(u.UpdateSketch(s), "union")
		lgNow := u.GetLgConfigK()
		want := content(u, lgNow)
		wantEst, err := u.GetCompositeEstimate()
		t.NoErr(err, "estimate")
		for range 1 + t.IntN(3) {
			if t.IntN(3) == 0 {
				t.NoErr(u.UpdateSketch(s), "union-again")
			} else {
				r, err := u.GetResult(hll.TgtHllType(t.IntN(3)))
				t.NoErr(err, "result")
				before, err := r.ToCompactSlice()
				t.NoErr(err, "image")
				t.NoErr(u.UpdateSketch(r), "union-own")
				after, err := r.ToCompactSlice()
				t.NoErr(err, "image")
				t.Check(bytes.Equal(before, after), "own-changed", "the result given back to its union changed")
			}
			t.Ev("own results fed")
			got := content(u, u.GetLgConfigK())
			t.Check(u.GetLgConfigK() == lgNow && slices.Equal(got, want), "union-own", "a union of lgK %d fed its own result changed: of %d slots some changed", lgNow, len(want))
			est, err := u.GetCompositeEstimate()
			t.NoErr(err, "estimate")
			t.Check(relEq(est, wantEst, 1e-9), "union-own-estimate", "composite estimate went from %v to %v", wantEst, est)
		}
	}
	t.Sig(lgU, len(fed))
	if len(fed) > 0 {
		t.NonTrivial()
	}
}

// hllRegs is the content of an image in one form for all modes: the highest
// value of every slot.
func hllRegs(im ref.HllImage, lg int) []uint32 {
	out := make([]uint32, 1<<lg)
	for _, c := range im.Coupons {
		slot, v := c&(1<<lg-1), c>>26
		out[slot] = max(out[slot], v)
	}
	for i, v := range im.Buckets {
		out[i] = max(out[i], uint32(v))
	}
	return out
}

func x6Cpc(t *T) {
	seed := cpcSeed(t)
	lgU := 4 + t.IntN(5)
	u, err := cpc.NewCpcUnionSketch(lgU, seed)
	t.NoErr(err, "union")
	t.Desc("cpc union lgK=%d", lgU)
	some := false
	for range 1 + t.IntN(4) {
		s := xbCpcFresh(t, seed)
		t.NoErr(u.Update(s), "union")
		m, err := u.GetBitMatrix()
		t.NoErr(err, "matrix")
		want := slices.Clone(m)
		for range 1 + t.IntN(3) {
			if t.IntN(3) == 0 {
				img := cpcBytes(t, s, "image")
				t.NoErr(u.Update(s), "union-again")
				t.Check(bytes.Equal(img, cpcBytes(t, s, "image")), "operand", "the operand changed")
			} else {
				r, err := u.GetResult()
				t.NoErr(err, "result")
				img := cpcBytes(t, r, "image")
				t.NoErr(u.Update(r), "union-own")
				t.Check(bytes.Equal(img, cpcBytes(t, r, "image")), "own-changed", "the result given back to its union changed")
				some = some || r.GetEstimate() > 0
			}
			got, err := u.GetBitMatrix()
			t.NoErr(err, "matrix")
			cpcSame(t, got, want, "union-own")
			t.Ev("own results fed")
		}
	}
	r, err := u.GetResult()
	t.NoErr(err, "result")
	m, err := u.GetBitMatrix()
	t.NoErr(err, "matrix")
	cpcSame(t, cpcMatrix(t, r, seed), m, "result")
	t.Sig(lgU, r.GetEstimate())
	if some {
		t.NonTrivial()
	}
}

func x6Kll[C comparable](t *T) {
	kd := kllKindOf[C](t)
	k, mm := kllK(t)
	s, m := kllNew(t, kd, k, mm)
	kllFeed(t, s, m, kllSize(t, k))
	t.Desc("%s k=%d m=%d n=%d", kd.name, k, mm, m.n)
	for range 1 + t.IntN(6) {
		if t.IntN(3) == 0 && m.n > 0 { // leave a cached view behind
			_, err := s.GetQuantile(0.5, true)
			t.NoErr(err, "quantile")
		}
		om, est := m.clone(), s.IsEstimationMode()
		s.Merge(s)
		m.merge(om, est)
		its := kllInspect(t, s, m, "self")
		t.Ev("self merges")
		if m.n > 0 {
			q := newQOracle(its, kd.less)
			qCheck(t, q, kllQ(s), kllProbe(t, its, m))
			t.NonTrivial()
		}
		if t.IntN(2) == 0 {
			kllFeed(t, s, m, t.IntN(300))
			kllInspect(t, s, m, "evolved")
		}
		if t.IntN(3) == 0 && m.n > 0 { // an image of itself, and a sketch that holds it
			o := kllDecode(t, kllBytes(t, s), kd)
			om, est := m.clone(), o.IsEstimationMode()
			o.Merge(s)
			om.merge(m.clone(), est)
			kllInspect(t, o, om, "with-copy")
			est = o.IsEstimationMode()
			s.Merge(o)
			m.merge(om, est)
			kllInspect(t, s, m, "back")
		}
	}
	t.Sig(kd.name, k, mm, m.n)
}

func x6Req(t *T) {
	k, hra := reqK(t), t.IntN(2) == 0
	s, m := reqNew(t, k, hra)
	reqFeed(t, s, m, reqSize(t, k))
	t.Desc("k=%d hra=%v n=%d", k, hra, m.n)
	for range 1 + t.IntN(6) {
		if t.IntN(3) == 0 && m.n > 0 {
			_, err := s.Quantile(0.5)
			t.NoErr(err, "quantile")
		}
		om := m.clone()
		t.NoErr(s.Merge(s), "self-merge")
		m.merge(om)
		reqInspect(t, s, m, "self")
		t.Ev("self merges")
		if m.n > 0 {
			reqCheckAll(t, s, m)
			t.NonTrivial()
		}
		if t.IntN(2) == 0 {
			reqFeed(t, s, m, t.IntN(300))
			reqInspect(t, s, m, "evolved")
		}
		if t.IntN(3) == 0 { // a sketch that already holds it
			o, om := reqClone(t, s, m)
			t.NoErr(o.Merge(s), "merge")
			om.merge(m.clone())
			t.NoErr(s.Merge(o), "merge-back")
			m.merge(om)
			reqInspect(t, o, om, "with-copy")
			reqInspect(t, s, m, "back")
		}
	}
	t.Sig(k, hra, m.n)
}

func x6Td(t *T) {
	k := tdK(t)
	d, vals := tdGrow(t, k, tdSize(t, k), 1)
	t.Desc("tdigest k=%d n=%d", k, len(vals))
	lo, hi := slices.Min(vals), slices.Max(vals)
	w := uint64(len(vals))
	for range 1 + t.IntN(5) {
		if t.IntN(3) == 0 {
			_, err := d.Rank(vals[t.IntN(len(vals))])
			t.NoErr(err, "rank")
		}
		img, err := tdigest.EncodeDouble(d, true)
		t.NoErr(err, "encode")
		a, err := tdigest.DecodeDouble(img)
		t.NoErr(err, "decode")
		b, err := tdigest.DecodeDouble(slices.Clone(img))
		t.NoErr(err, "decode")
		t.NoErr(a.Merge(b), "merge")
		t.NoErr(d.Merge(d), "self-merge")
		w *= 2
		t.Check(d.TotalWeight() == w, "self-weight", "total weight %d after merging with itself, was %d", d.TotalWeight(), w/2)
		mn, e1 := d.MinValue()
		mx, e2 := d.MaxValue()
		t.Check(e1 == nil && e2 == nil && mn == lo && mx == hi, "self-minmax", "extremes %v..%v, fed %v..%v", mn, mx, lo, hi)
		x, err := tdigest.EncodeDouble(d, true)
		t.NoErr(err, "encode")
		y, err := tdigest.EncodeDouble(a, true)
		t.NoErr(err, "encode")
		tdSameImage(t, "self-copy", x, y)
		tdAnswers(t, d, lo, hi, w, []float64{lo, hi, vals[t.IntN(len(vals))]})
		t.Ev("self merges")
		if t.IntN(2) == 0 {
			for range t.IntN(100) {
				v := float64(t.IntN(1000))
				t.NoErr(d.Update(v), "update")
				lo, hi, w = min(lo, v), max(hi, v), w+1
				vals = append(vals, v)
			}
		}
	}
	t.Sig(k, w)
	t.NonTrivial()
}

func x6Fq[C comparable](t *T, k *fqKind[C]) {
	a := fqNew(t, k, fqLg(t))
	fqFeed(t, k, t.IntN(6*a.size)+1, a)
	for range 1 + t.IntN(4) {
		if a.total > 1<<56 {
			break
		}
		t.NoErr(a.merge(a), "self-merge")
		for _, key := range slices.Clone(a.keys) {
			a.note(key, a.truth[key])
		}
		fqCheck(t, k, a)
		t.Ev("self merges")
		if t.IntN(2) == 0 {
			fqFeed(t, k, t.IntN(2*a.size)+1, a)
			fqCheck(t, k, a)
		}
	}
	t.Desc("%s size=%d distinct=%d error=%d", k.name, a.size, len(a.keys), a.GetMaximumError())
	t.Sig(k.name, a.size, len(a.keys), a.total)
	t.NonTrivial()
}

func x6Bloom(t *T) {
	f, nbits, k, seed := blNew(t)
	t.Desc("bloom %d bits %d hashes seed %d", nbits, k, seed)
	blFill(t, f)
	t.Check(f.IsCompatible(f), "compatible", "a filter is not compatible with itself")
	for range 2 + t.IntN(6) {
		if t.IntN(2) == 0 {
			f.BitsUsed()
		}
		want := blState(t, f, "before").words
		switch t.IntN(5) {
		case 0, 1:
			t.NoErr(f.Union(f), "union")
		case 2, 3:
			t.NoErr(f.Intersect(f), "intersect")
		case 4:
			blMake(t).update(t, f)
			want = blState(t, f, "updated").words
			img := blImage(t, f)
			c, err := bf.NewBloomFilterFromSlice(img)
			t.NoErr(err, "decode")
			t.NoErr(c.Union(f), "union-image")
			t.NoErr(f.Intersect(c), "intersect-image")
		}
		t.Check(slices.Equal(blState(t, f, "self").words, want), "self", "combining a filter with itself changed it")
		t.Ev("self combinations")
	}
	t.Sig(nbits, k, seed)
	if !f.IsEmpty() {
		t.NonTrivial()
	}
}

func x6Count(t *T) {
	h, w := cmShape(t)
	seed := cmSeedOK(t)
	s, err := cm.NewCountMinSketch(h, w, seed)
	t.NoErr(err, "new")
	pool := cmPool(t, 1+t.IntN(20))
	for range t.IntN(50) {
		t.NoErr(pool[t.IntN(len(pool))].update(s, int64(t.IntN(1000))), "update")
	}
	t.Desc("count-min %dx%d", h, w)
	t.Sig(h, w, s.GetTotalWeight())
	for range 1 + t.IntN(4) {
		img := cmImage(t, s)
		c, err := s.Deserialize(slices.Clone(img), seed)
		t.NoErr(err, "decode")
		if err := s.Merge(s); err != nil { // either refused, or doubled
			t.Check(bytes.Equal(img, cmImage(t, s)), "refused", "a refused merge changed the sketch")
			t.Ev("self merges refused")
		} else {
			d, err := s.Deserialize(slices.Clone(img), seed)
			t.NoErr(err, "decode")
			t.NoErr(c.Merge(d), "merge")
			t.Check(bytes.Equal(cmImage(t, c), cmImage(t, s)), "self", "merging a sketch with itself differs from merging a copy")
			t.Ev("self merges")
		}
		it := pool[t.IntN(len(pool))]
		t.NoErr(it.update(s, 1), "update")
	}
	t.NonTrivial()
}

func x6Reservoir(t *T) {
	maxK := 2 + t.IntN(40)
	u, err := sp.NewReservoirItemsUnion[int64](maxK)
	t.NoErr(err, "union")
	n, next, steps := int64(0), int64(0), ""
	for range 2 + t.IntN(6) {
		switch t.IntN(3) {
		case 0:
			for range t.IntN(2*maxK) + 1 {
				t.NoErr(u.Update(next), "update")
				next++
				n++
			}
			steps += "u"
		case 1:
			k := 2 + t.IntN(60)
			s, err := sp.NewReservoirItemsSketch[int64](k)
			t.NoErr(err, "new")
			for range t.IntN(3 * k) {
				s.Update(next)
				next++
			}
			want := slices.Clone(s.Samples())
			for range 1 + t.IntN(2) {
				t.NoErr(u.UpdateSketch(s), "update-sketch")
				n += s.N()
			}
			t.Check(slices.Equal(want, s.Samples()), "operand", "the operand changed")
			steps += "s"
		case 2:
			r, err := u.Result()
			t.NoErr(err, "result")
			if r == nil {
				continue
			}
			want, wn := slices.Clone(r.Samples()), r.N()
			t.NoErr(u.UpdateSketch(r), "union-own")
			n += wn
			t.Check(slices.Equal(want, r.Samples()) && r.N() == wn, "own-changed", "the result given back to its union changed")
			t.Ev("own results fed")
			steps += "r"
		}
		r, err := u.Result()
		t.NoErr(err, "result")
		if r == nil {
			t.Check(n == 0, "nil", "no result after %d items", n)
			continue
		}
		t.Check(r.N() == n, "n", "n %d, fed %d", r.N(), n)
		sam := r.Samples()
		t.Check(len(sam) == r.NumSamples() && int64(len(sam)) == min(n, int64(r.K())) && r.K() <= maxK, "size", "%d samples (NumSamples %d) of %d with k %d, limit %d", len(sam), r.NumSamples(), n, r.K(), maxK)
		for _, x := range sam {
			t.Check(x >= 0 && x < next, "foreign", "sample %v was never fed", x)
		}
		ss, err := r.EstimateSubsetSum(func(int64) bool { return true })
		t.NoErr(err, "subset")
		t.Check(ss.TotalSketchWeight == float64(n) && spClose(ss.Estimate, float64(n), 1e-9), "subset", "total weight %v estimate %v of %d", ss.TotalSketchWeight, ss.Estimate, n)
	}
	t.Desc("reservoir union maxK=%d n=%d steps %s", maxK, n, steps)
	t.Sig(maxK, n, steps)
	if n > 0 {
		t.NonTrivial()
	}
}

func x6VarOpt(t *T) {
	maxK := 2 + t.IntN(40)
	u, err := sp.NewVarOptItemsUnion[int64](uint(maxK))
	t.NoErr(err, "union")
	n, next, steps, total := int64(0), int64(0), "", 0.0
	own := map[int64]float64{} // the weight an item was fed with
	for range 2 + t.IntN(6) {
		switch t.IntN(2) {
		case 0:
			k := 2 + t.IntN(60)
			s, err := sp.NewVarOptItemsSketch[int64](uint(k))
			t.NoErr(err, "new")
			wf, kind := voWeights(t)
			for i := range t.IntN(3 * k) {
				w := wf(i)
				if w > 1e30 || w < 1e-30 {
					w = 1
				}
				t.NoErr(s.Update(next, w), "update")
				own[next] = w
				total += w
				next++
			}
			want := voAll(s)
			t.NoErr(u.Update(s), "update")
			n += s.N()
			if t.IntN(2) == 0 {
				t.NoErr(u.Update(s), "update-again")
				n += s.N()
				for i := range int(s.N()) {
					total += own[next-1-int64(i)]
				}
			}
			t.Check(slices.Equal(want, voAll(s)), "operand", "the operand changed")
			steps += "s" + kind
		case 1:
			r, err := u.Result()
			t.NoErr(err, "result")
			want, wn := voAll(r), r.N()
			t.NoErr(u.Update(r), "union-own")
			n += wn
			total *= 2
			t.Check(slices.Equal(want, voAll(r)) && r.N() == wn, "own-changed", "the result given back to its union changed")
			t.Ev("own results fed")
			steps += "r"
		}
		r, err := u.Result()
		t.NoErr(err, "result")
		t.Check(r.N() == n, "n", "n %d, fed %d", r.N(), n)
		sam := voAll(r)
		t.Check(len(sam) == r.NumSamples() && r.H()+r.R() == len(sam) && len(sam) <= maxK && r.K() <= maxK, "size", "%d samples (NumSamples %d, H %d, R %d), limit %d", len(sam), r.NumSamples(), r.H(), r.R(), maxK)
		sum := 0.0
		for i, x := range sam {
			w, ok := own[x.item]
			t.Check(ok, "foreign", "sample %v was never fed", x.item)
			if i < r.H() {
				t.Check(x.w >= w*(1-voTol), "heavy", "heavy sample %v has weight %v, fed with %v", x.item, x.w, w)
			}
			sum += x.w
		}
		t.Check(spClose(sum, total, 1e-6), "sum", "adjusted weights add up to %v, fed %v", sum, total)
	}
	t.Desc("varopt union maxK=%d n=%d steps %s", maxK, n, steps)
	t.Sig(maxK, n, steps)
	if n > 0 {
		t.NonTrivial()
	}
}
