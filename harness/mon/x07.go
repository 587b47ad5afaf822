package mon

import (
	"math"

	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/ref"
)

type refusal = func(t *T) (what string, err error, must bool)

// fullTheta makes a sketch of n values with sampling probability one.
func fullTheta(t *T, lgK uint8, seed uint64, n int) *theta.QuickSelectUpdateSketch {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	lo := t.IntN(1000)
	for i := range n {
		_ = s.UpdateInt64(int64(lo + i))
	}
	return s
}

func bdTheta(s theta.Sketch, seed uint64) refusal {
	return func(t *T) (string, error, bool) {
		other := otherSeed(seed)
		switch t.IntN(5) {
		case 0:
			_, err := s.LowerBound([]uint8{0, 4, 255}[t.IntN(3)])
			return "lower bound", err, s.IsEstimationMode()
		case 1:
			_, err := theta.ANotB(s, fullTheta(t, 5, other, 50), other, true)
			return "a-not-b with another seed", err, !s.IsEmpty()
		case 2:
			u, err := theta.NewUnion(theta.WithUnionSeed(other))
			t.NoErr(err, "union")
			return "union with another seed", u.Update(s), !s.IsEmpty()
		case 3:
			x := theta.NewIntersection(theta.WithIntersectionSeed(other))
			return "intersection with another seed", x.Update(s), !s.IsEmpty()
		}
		_, err := theta.ANotB(fullTheta(t, 5, other, 50), s, other, true)
		return "a-not-b of another seed", err, s.NumRetained() > 0
	}
}

func bdThetaUnion(u *theta.Union, seed uint64) refusal {
	return func(t *T) (string, error, bool) {
		s := theta.Sketch(fullTheta(t, uint8(5+t.IntN(3)), otherSeed(seed), 20+t.IntN(500)))
		if t.IntN(2) == 0 {
			s = theta.NewCompactSketch(s, t.IntN(2) == 0)
		}
		return "union with another seed", u.Update(s), true
	}
}

func bdThetaInter(x *theta.Intersection, seed uint64) refusal {
	return func(t *T) (string, error, bool) {
		before, err := x.Result(true)
		t.NoErr(err, "result")
		s := theta.Sketch(fullTheta(t, uint8(5+t.IntN(3)), otherSeed(seed), 20+t.IntN(500)))
		if t.IntN(2) == 0 {
			s = theta.NewCompactSketch(s, t.IntN(2) == 0)
		}
		return "intersection with another seed", x.Update(s), before.NumRetained() > 0
	}
}

func bdTuple(k tkind, s tsk, seed uint64) refusal {
	return func(t *T) (string, error, bool) {
		other := otherSeed(seed)
		o := xbTupleFresh(t, k, other)
		for range 20 {
			_ = o.feed(randItem(t, 2000), 1)
		}
		full := s.numRetained() > 0 && o.sk().numRetained() > 0
		switch t.IntN(4) {
		case 0:
			_, err := k.diff(s, o.sk(), other, t.IntN(2) == 0)
			return "a-not-b with another seed", err, full
		case 1:
			u, err := k.union(6, theta.ResizeX2, 1, other)
			t.NoErr(err, "union")
			return "union with another seed", u.update(s), s.numRetained() > 0
		case 2:
			return "intersection with another seed", k.inter(other).update(s), s.numRetained() > 0
		}
		img, err := k.encode(mustCompact(t, k, s))
		t.NoErr(err, "encode")
		_, err = k.decode(img, other)
		return "decode with another seed", err, s.numRetained() > 0
	}
}

func mustCompact(t *T, k tkind, s tsk) tsk {
	c, err := k.compactOf(s, true)
	t.NoErr(err, "compact")
	return c
}

func bdHll(s hllReader) refusal {
	return func(t *T) (string, error, bool) {
		n := []int{0, 4, -1, 1 << 40}[t.IntN(4)]
		switch t.IntN(4) {
		case 0:
			_, err := s.GetLowerBound(n)
			return "lower bound", err, true
		case 1:
			_, err := s.GetUpperBound(n)
			return "upper bound", err, true
		case 2:
			if h, ok := s.(hll.HllSketch); ok {
				_, err := h.CopyAs(hll.TgtHllType(3 + t.IntN(5)))
				return "copy as an unknown type", err, false
			}
		}
		_, err := hll.NewUnion([]int{3, 22, -1}[t.IntN(3)])
		return "union of an impossible size", err, true
	}
}

func bdCpc(s *cpc.CpcSketch, seed uint64) refusal {
	return func(t *T) (string, error, bool) {
		other := otherSeed(seed)
		if t.IntN(2) == 0 {
			u, err := cpc.NewCpcUnionSketch(6, other)
			t.NoErr(err, "union")
			return "union with another seed", u.Update(s), true
		}
		x, err := s.ToCompactSlice()
		t.NoErr(err, "encode")
		_, err = cpc.NewCpcSketchFromSlice(x, other)
		return "decode with another seed", err, true
	}
}

func bdKll[C comparable](kd *kllKind[C], s *kll.ItemsSketch[C]) refusal {
	return func(t *T) (string, error, bool) {
		inc := t.IntN(2) == 0
		a, b := kd.of(3), kd.of(5)
		if kd.less(a, b) {
			a, b = b, a
		}
		switch t.IntN(6) {
		case 0:
			_, err := s.GetQuantile([]float64{-0.001, 1.001, math.Inf(1), math.Inf(-1), math.NaN()}[t.IntN(4)], inc)
			return "quantile of no rank", err, true
		case 1:
			_, err := s.GetCDF([]C{a, b}, inc)
			return "CDF of descending points", err, true
		case 2:
			_, err := s.GetPMF([]C{a, a}, inc)
			return "PMF of equal points", err, true
		case 3:
			_, err := s.GetQuantiles([]float64{0.2, 2}, inc)
			return "quantiles of no rank", err, true
		case 4:
			_, err := s.GetMinItem()
			return "minimum of nothing", err, s.IsEmpty()
		}
		_, err := s.GetRank(a, inc)
		return "rank in nothing", err, s.IsEmpty()
	}
}

func bdReq(s *req.Sketch, hra bool) refusal {
	return func(t *T) (string, error, bool) {
		switch t.IntN(8) {
		case 0:
			o, m := reqNew(t, s.K(), !hra)
			reqFeed(t, o, m, 1+t.IntN(300))
			return "merge of the other accuracy mode", s.Merge(o), true
		case 1:
			_, err := s.Quantile([]float64{-0.001, 1.001, math.Inf(1), math.Inf(-1)}[t.IntN(4)])
			return "quantile of no rank", err, true
		case 2:
			_, err := s.CDF([]float32{5, 3}, t.IntN(2) == 0)
			return "CDF of descending points", err, true
		case 3:
			_, err := s.PMF([]float32{5, float32(math.NaN())})
			return "PMF of NaN", err, true
		case 4:
			_, err := s.Rank([]float32{float32(math.NaN()), float32(math.Inf(1))}[t.IntN(2)])
			return "rank of no value", err, true
		case 5:
			_, err := s.Quantiles([]float64{0.5, 1.5})
			return "quantiles of no rank", err, true
		case 6:
			return "update with no number", s.Update(float32(math.Inf(1 - 2*t.IntN(2)))), false
		}
		_, err := s.MaxItem()
		return "maximum of nothing", err, s.IsEmpty()
	}
}

func bdTd(d *tdigest.Double) refusal {
	return func(t *T) (string, error, bool) {
		bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.IntN(3)]
		switch t.IntN(8) {
		case 0:
			return "update with no number", d.Update(bad), true
		case 1:
			e, err := tdigest.NewDouble(10)
			t.NoErr(err, "new")
			return "merge of nothing", d.Merge(e), false
		case 2:
			_, err := d.Quantile([]float64{-0.001, 1.001, math.NaN()}[t.IntN(3)])
			return "quantile of no rank", err, true
		case 3:
			_, err := d.CDF([]float64{5, 3})
			return "CDF of descending points", err, true
		case 4:
			_, err := d.PMF([]float64{math.NaN()})
			return "PMF of NaN", err, true
		case 5:
			_, err := d.Rank(math.NaN())
			return "rank of NaN", err, true
		case 6:
			_, err := d.CDF([]float64{4, 4})
			return "CDF of equal points", err, true
		}
		_, err := d.MinValue()
		return "minimum of nothing", err, d.IsEmpty()
	}
}

func bdFq[C comparable](k *fqKind[C], x *fqBox[C]) refusal {
	return func(t *T) (string, error, bool) {
		return "negative count", x.UpdateMany(k.key(t.IntN(300)), []int64{-1, math.MinInt64, -int64(1 + t.IntN(1000))}[t.IntN(3)]), true
	}
}

func bdCm(s *cm.CountMinSketch, seed int64) refusal {
	return func(t *T) (string, error, bool) {
		h, w := s.GetNumHashes(), s.GetNumBuckets()
		var o *cm.CountMinSketch
		var err error
		var what string
		switch t.IntN(5) {
		case 0:
			o, err, what = s, nil, "merge with itself"
		case 1:
			what = "merge of another width"
			o, err = cm.NewCountMinSketch(h, w+1, seed)
		case 2:
			what = "merge of another depth"
			o, err = cm.NewCountMinSketch(h%100+1, w, seed)
		case 3:
			other := seed
			for other == seed || ref.SeedHash(uint64(other)) == 0 {
				other++
			}
			what = "merge of another seed"
			o, err = cm.NewCountMinSketch(h, w, other)
		case 4:
			d, err := s.Deserialize(cmImage(t, s)[:8+t.IntN(4)], seed)
			_ = d
			return "decode of a part", err, true
		}
		t.NoErr(err, "new")
		if o != s {
			t.NoErr(o.UpdateString("x", 5), "update")
		}
		return what, s.Merge(o), true
	}
}

func bdBf(f bf.BloomFilter) refusal {
	return func(t *T) (string, error, bool) {
		var o bf.BloomFilter
		switch t.IntN(3) {
		case 0:
			o = blNewOf(t, f.Capacity()+64, f.NumHashes(), f.Seed())
		case 1:
			o = blNewOf(t, f.Capacity(), f.NumHashes()%1000+1, f.Seed())
		case 2:
			o = blNewOf(t, f.Capacity(), f.NumHashes(), f.Seed()^1)
		}
		for range 5 {
			blMake(t).update(t, o)
		}
		if t.IntN(2) == 0 {
			return "union of another shape", f.Union(o), true
		}
		return "intersection with another shape", f.Intersect(o), true
	}
}

func bdRes[I comparable](kd *spKind[I], s *sp.ReservoirItemsSketch[I]) refusal {
	return func(t *T) (string, error, bool) {
		if t.IntN(2) == 0 {
			_, err := sp.NewReservoirItemsUnion[I](t.IntN(3) - 1)
			return "union without room", err, true
		}
		x, err := s.ToSlice(kd.serde)
		t.NoErr(err, "encode")
		_, err = sp.NewReservoirItemsSketchFromSlice(x[:7], kd.serde)
		return "decode of a part", err, true
	}
}

func bdResUnion[I comparable](kd *spKind[I], u *sp.ReservoirItemsUnion[I]) refusal {
	return func(t *T) (string, error, bool) {
		r, err := u.Result()
		t.NoErr(err, "result")
		seen := int64(0)
		if r != nil {
			seen = r.N()
		}
		const most = 1<<48 - 1
		k := 2 + t.IntN(12)
		items := make([]I, k)
		for i := range items {
			items[i] = kd.key(i)
		}
		switch t.IntN(5) {
		case 0:
			return "raw with k of 1", u.UpdateFromRaw(5, 1, items[:1]), true
		case 1:
			return "raw with fewer items than k", u.UpdateFromRaw(50, k+1+t.IntN(10), items), true
		case 2:
			return "raw with more items than k", u.UpdateFromRaw(50, k-1, items), true
		case 3:
			return "raw with too many seen", u.UpdateFromRaw(most+1+int64(t.IntN(5)), k, items), true
		}
		n := most - int64(t.IntN(40))
		return "raw with almost too many seen", u.UpdateFromRaw(n, k, items), n > most-seen
	}
}

func bdVar[I comparable](kd *spKind[I], s *sp.VarOptItemsSketch[I]) refusal {
	return func(t *T) (string, error, bool) {
		w := []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[t.IntN(6)]
		return "weight of no use", s.Update(kd.key(5), w), true
	}
}

func bdVarUnion[I comparable](kd *spKind[I], u *sp.VarOptItemsUnion[I]) refusal {
	return func(t *T) (string, error, bool) {
		x := vuImage(t, u, kd.serde)
		_, err := sp.DecodeVarOptItemsUnion(x[:7], kd.serde)
		return "decode of a part", err, true
	}
}
