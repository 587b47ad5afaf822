package mon

import (
	"bytes"
	"math"

	"github.com/apache/datasketches-go/common"
	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	fq "github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
	"verif/harness/ref"
)

// X11: constructors accept exactly the documented parameters, later options
// replace earlier ones and their order does not matter otherwise, what is left
// out has the documented default, getters report what was asked for, and the
// sizing functions give the documented values.

func init() {
	const non = "non-trivial: a constructor was given a random list of options or parameters, or a sizing function random arguments, and the outcome was compared with the documentation; distinct by the parameters"
	core.Register("X11", non, core.Family{Name: "theta", Quick: 4000, Thorough: 100000, Run: x11Theta})
	core.Register("X11", non, core.Family{Name: "tuple", Quick: 4000, Thorough: 100000, Run: x11Tuple})
	core.Register("X11", non, core.Family{Name: "hll-cpc", Quick: 4000, Thorough: 100000, Run: x11HllCpc})
	core.Register("X11", non, core.Family{Name: "quantiles", Quick: 4000, Thorough: 100000, Run: x11Quantiles})
	core.Register("X11", non, core.Family{Name: "counting", Quick: 4000, Thorough: 100000, Run: x11Counting})
	core.Register("X11", non, core.Family{Name: "bloom", Quick: 4000, Thorough: 100000, Run: x11Bloom})
	core.Register("X11", non, core.Family{Name: "sampling", Quick: 4000, Thorough: 100000, Run: x11Sampling})
}

// tOpts is a random list of theta or tuple options and what it amounts to.
type tOpts struct {
	kinds []int
	lgK   []uint8
	rf    []theta.ResizeFactor
	p     []float32
	seed  []uint64
	// the outcome
	eLgK  uint8
	eRf   theta.ResizeFactor
	eP    float32
	eSeed uint64
	ok    bool
}

func x11Options(t *T) *tOpts {
	o := &tOpts{eLgK: 12, eRf: theta.ResizeX8, eP: 1, eSeed: 9001}
	for n := t.IntN(7); n > 0; n-- {
		k := t.IntN(4)
		o.kinds = append(o.kinds, k)
		lg := uint8(5 + t.IntN(8))
		if t.IntN(6) == 0 {
			lg = []uint8{0, 1, 4, 5, 13, 26, 27, 28, 255}[t.IntN(9)]
		}
		p := float32(1)
		switch t.IntN(4) {
		case 0:
			p = float32(1 - t.Float64())
		case 1:
			p = []float32{0, 1, -1, 1.0000001, 2, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0.5, 1e-6, float32(math.Copysign(0, -1))}[t.IntN(11)]
		}
		o.lgK, o.rf, o.p, o.seed = append(o.lgK, lg), append(o.rf, theta.ResizeFactor(t.IntN(4))), append(o.p, p), append(o.seed, []uint64{0, 1, 9001, 123, t.Uint64()}[t.IntN(5)])
		switch i := len(o.kinds) - 1; k {
		case 0:
			o.eLgK = o.lgK[i]
		case 1:
			o.eRf = o.rf[i]
		case 2:
			o.eP = o.p[i]
		default:
			o.eSeed = o.seed[i]
		}
	}
	if o.eRf == theta.ResizeX1 && o.eLgK > 16 && o.eLgK < 27 { // its table would be allocated in full
		o.eRf = theta.ResizeX8
		o.kinds, o.lgK, o.rf, o.p, o.seed = append(o.kinds, 1), append(o.lgK, 0), append(o.rf, theta.ResizeX8), append(o.p, 0), append(o.seed, 0)
	}
	o.ok = o.eLgK >= 5 && o.eLgK <= 26 && o.eP > 0 && o.eP <= 1
	t.Sig(o.kinds, o.eLgK, o.eRf, o.eP, o.eSeed)
	t.Desc("options %v: lgK %v, factor %v, p %v, seed %v", o.kinds, o.eLgK, o.eRf, o.eP, o.eSeed)
	t.NonTrivial()
	if o.ok {
		t.Ev("accepted option lists")
	} else {
		t.Ev("refused option lists")
	}
	return o
}

func opts11[F any](o *tOpts, lgK func(uint8) F, rf func(theta.ResizeFactor) F, p func(float32) F, seed func(uint64) F) (list, full []F) {
	for i, k := range o.kinds {
		switch k {
		case 0:
			list = append(list, lgK(o.lgK[i]))
		case 1:
			list = append(list, rf(o.rf[i]))
		case 2:
			list = append(list, p(o.p[i]))
		default:
			list = append(list, seed(o.seed[i]))
		}
	}
	return list, []F{seed(o.eSeed), p(o.eP), rf(o.eRf), lgK(o.eLgK)}
}

func x11Theta(t *T) {
	o := x11Options(t)
	list, full := opts11(o, theta.WithUpdateSketchLgK, theta.WithUpdateSketchResizeFactor, theta.WithUpdateSketchP, theta.WithUpdateSketchSeed)
	a, e1 := theta.NewQuickSelectUpdateSketch(list...)
	b, e2 := theta.NewQuickSelectUpdateSketch(full...)
	t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
	ul, uf := opts11(o, theta.WithUnionLgK, theta.WithUnionResizeFactor, theta.WithUnionSketchP, theta.WithUnionSeed)
	u, e1 := theta.NewUnion(ul...)
	v, e2 := theta.NewUnion(uf...)
	t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "union options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
	if !o.ok {
		return
	}
	t.Check(a.LgK() == o.eLgK && a.ResizeFactor() == o.eRf && a.IsEmpty() && a.NumRetained() == 0, "getters", "a new sketch with lgK %d and factor %d reports %d and %d", o.eLgK, o.eRf, a.LgK(), a.ResizeFactor())
	hs := ref.SeedHash(o.eSeed)
	sh, err := a.SeedHash()
	t.Check((err == nil) == (hs != 0) && (err != nil || sh == hs), "seed", "seed %d: hash %d, %v, expected %d", o.eSeed, sh, err, hs)
	if hs == 0 {
		return
	}
	base := int64(t.Uint64() >> 2)
	n := t.IntN(300)
	if t.IntN(8) == 0 {
		n = t.IntN(20000)
	}
	th := theta.MaxTheta
	if o.eP < 1 {
		th = uint64(float64(theta.MaxTheta) * float64(o.eP))
	}
	for i := 0; i < n; i++ {
		e1, e2 := a.UpdateInt64(base+int64(i)), b.UpdateInt64(base+int64(i))
		t.Check((e1 == nil) == (e2 == nil), "defaults", "an update gave %v and %v", e1, e2)
	}
	if n > 0 && n < 20 {
		d := math.Abs(float64(a.Theta64()) - float64(th))
		t.Check(d <= float64(th)*1e-6, "p", "p %v: theta %d, expected %d", o.eP, a.Theta64(), th)
	}
	var x, y *theta.CompactSketch = a.Compact(true), b.Compact(true)
	t.Check(sameSnap(snapOf(x), snapOf(y)), "defaults", "the sketch with options %v differs from the one with all of them", o.kinds)
	t.NoErr(u.Update(a), "union")
	t.NoErr(v.Update(b), "union")
	x, err = u.OrderedResult()
	t.NoErr(err, "result")
	y, err = v.Result(true)
	t.NoErr(err, "result")
	t.Check(sameSnap(snapOf(x), snapOf(y)), "defaults", "the union with options %v differs from the one with all of them", o.kinds)

	// the intersection's policy is asked for every match, and no other entry
	calls := map[uint64]int{}
	rec := &recPolicy{calls}
	x1 := theta.NewIntersection(theta.WithIntersectionPolicy(rec), theta.WithIntersectionSeed(o.eSeed))
	x2 := theta.NewIntersection(theta.WithIntersectionSeed(1), theta.WithIntersectionSeed(o.eSeed))
	c, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(10), theta.WithUpdateSketchSeed(o.eSeed))
	t.NoErr(err, "new")
	for i := 0; i < 200; i++ {
		t.NoErr(c.UpdateInt64(base+int64(i*2)), "update")
	}
	t.Check(!x1.HasResult(), "result", "an intersection of nothing has a result")
	for _, s := range []theta.Sketch{a, c} {
		t.NoErr(x1.Update(s), "intersect")
		t.NoErr(x2.Update(s), "intersect")
	}
	x, err = x1.OrderedResult()
	t.NoErr(err, "result")
	y, err = x2.Result(true)
	t.NoErr(err, "result")
	t.Check(sameSnap(snapOf(x), snapOf(y)), "policy", "a policy that does nothing changed an intersection")
	all := true
	for _, h := range snapOf(x).hashes {
		all = all && calls[h] == 1
	}
	t.Check(all && len(calls) == len(snapOf(x).hashes), "policy", "the policy was applied to %d entries, %d match", len(calls), len(snapOf(x).hashes))
	t.EvN("policy applications", len(calls))
	t.Check(any(x1.Policy()) == any(rec), "policy", "the intersection reports another policy")
}

type recPolicy struct{ calls map[uint64]int }

func (p *recPolicy) Apply(in *uint64, incoming uint64) {
	if *in == incoming {
		p.calls[incoming]++
	}
}

func x11Tuple(t *T) {
	o := x11Options(t)
	list, full := opts11(o, tuple.WithUpdateSketchLgK, tuple.WithUpdateSketchResizeFactor, tuple.WithUpdateSketchP, tuple.WithUpdateSketchSeed)
	ul, uf := opts11(o, tuple.WithUnionLgK, tuple.WithUnionResizeFactor, tuple.WithUnionSketchP, tuple.WithUnionSeed)
	hs := ref.SeedHash(o.eSeed)
	base := int64(t.Uint64() >> 2)
	n := t.IntN(200)
	if t.IntN(8) == 0 {
		n = t.IntN(9000)
	}
	if t.IntN(2) == 0 {
		nv := uint8(1 + t.IntN(4))
		a, e1 := tuple.NewArrayOfNumbersUpdateSketch[int64](nv, list...)
		b, e2 := tuple.NewArrayOfNumbersUpdateSketch[int64](nv, full...)
		t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "array options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
		pol := policyF[aSum[int64]](func(a, b aSum[int64]) { a.Update(b.Values()) })
		u, e1 := tuple.NewArrayOfNumbersSketchUnion[int64](pol, nv, ul...)
		v, e2 := tuple.NewArrayOfNumbersSketchUnion[int64](pol, nv, uf...)
		t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "array union options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
		if !o.ok || hs == 0 {
			return
		}
		t.Check(a.LgK() == o.eLgK && a.ResizeFactor() == o.eRf, "getters", "lgK %d and factor %d reported as %d and %d", o.eLgK, o.eRf, a.LgK(), a.ResizeFactor())
		vals := make([]int64, nv)
		for i := 0; i < n; i++ {
			vals[0] = int64(i)
			e1, e2 := a.UpdateInt64(base+int64(i), vals), b.UpdateInt64(base+int64(i), vals)
			t.Check((e1 == nil) == (e2 == nil), "defaults", "an update gave %v and %v", e1, e2)
		}
		k := akind[int64]{n: nv}
		t.Check(sameT(k.wrap(a).snap(), k.wrap(b).snap()) && a.Theta64() == b.Theta64(), "defaults", "the sketch with options %v differs from the one with all of them", o.kinds)
		t.NoErr(u.Update(a), "union")
		t.NoErr(v.Update(b), "union")
		x, err := u.OrderedResult()
		t.NoErr(err, "result")
		y, err := v.Result(true)
		t.NoErr(err, "result")
		t.Check(sameT(k.wrap(x).snap(), k.wrap(y).snap()), "defaults", "the union with options %v differs from the one with all of them", o.kinds)
		return
	}
	k := kindLog().(gkind[*logSum, int64])
	a, e1 := tuple.NewUpdateSketch[*logSum, int64](k.newSum, list...)
	b, e2 := tuple.NewUpdateSketch[*logSum, int64](k.newSum, full...)
	t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
	u, e1 := tuple.NewUnion[*logSum](k.policy, ul...)
	v, e2 := tuple.NewUnion[*logSum](k.policy, uf...)
	t.Check((e1 == nil) == o.ok && (e2 == nil) == o.ok, "accept", "union options that amount to lgK %d, p %v: %v and %v", o.eLgK, o.eP, e1, e2)
	if !o.ok || hs == 0 {
		return
	}
	t.Check(a.LgK() == o.eLgK && a.ResizeFactor() == o.eRf, "getters", "lgK %d and factor %d reported as %d and %d", o.eLgK, o.eRf, a.LgK(), a.ResizeFactor())
	for i := 0; i < n; i++ {
		e1, e2 := a.UpdateInt64(base+int64(i), int64(i)), b.UpdateInt64(base+int64(i), int64(i))
		t.Check((e1 == nil) == (e2 == nil), "defaults", "an update gave %v and %v", e1, e2)
	}
	t.Check(sameT(k.wrap(a).snap(), k.wrap(b).snap()) && a.Theta64() == b.Theta64(), "defaults", "the sketch with options %v differs from the one with all of them", o.kinds)
	t.NoErr(u.Update(a), "union")
	t.NoErr(v.Update(b), "union")
	x, err := u.OrderedResult()
	t.NoErr(err, "result")
	y, err := v.Result(true)
	t.NoErr(err, "result")
	t.Check(sameT(k.wrap(x).snap(), k.wrap(y).snap()) && x.IsOrdered(), "defaults", "the union with options %v differs from the one with all of them", o.kinds)
}

func x11Small(t *T, good func() int) int {
	switch t.IntN(4) {
	case 0:
		return []int{-1, 0, 1, 2, 3, 4, 5, 21, 22, 23, 25, 26, 27, 30, 31, 32, 63, 64, 255, 256, 260, 1 << 20, math.MaxInt32, math.MinInt32}[t.IntN(24)]
	}
	return good()
}

func x11HllCpc(t *T) {
	lg := x11Small(t, func() int { return t.IntN(16) })
	if lg > 16 && lg < 22 && t.IntN(4) > 0 {
		lg = 4
	}
	ty := hll.TgtHllType(t.IntN(3))
	ok := lg >= 4 && lg <= 21
	s, err := hll.NewHllSketch(lg, ty)
	t.Check((err == nil) == ok, "accept", "HLL sketch with lgK %d: %v", lg, err)
	if ok {
		t.Check(s.GetLgConfigK() == lg && s.GetTgtHllType() == ty && s.IsEmpty(), "getters", "HLL sketch (%d, %d) reports (%d, %d)", lg, ty, s.GetLgConfigK(), s.GetTgtHllType())
	}
	u, err := hll.NewUnion(lg)
	t.Check((err == nil) == ok, "accept", "HLL union with lgK %d: %v", lg, err)
	if ok {
		t.Check(u.GetLgConfigK() == lg && u.IsEmpty(), "getters", "HLL union of lgK %d reports %d", lg, u.GetLgConfigK())
	}
	n := t.IntN(40)
	if t.IntN(6) == 0 {
		n = t.IntN(20000)
	}
	if t.IntN(2) == 0 {
		d, err := hll.NewHllSketchWithDefault()
		t.NoErr(err, "default")
		e, err := hll.NewHllSketch(12, hll.TgtHllTypeHll4)
		t.NoErr(err, "default")
		du, err := hll.NewUnionWithDefault()
		t.NoErr(err, "default")
		eu, err := hll.NewUnion(12)
		t.NoErr(err, "default")
		for i := 0; i < n; i++ {
			for _, x := range []interface{ UpdateInt64(int64) error }{d, e, du, eu} {
				t.NoErr(x.UpdateInt64(int64(i)*77), "update")
			}
		}
		p, err := d.ToCompactSlice()
		t.NoErr(err, "image")
		q, err := e.ToCompactSlice()
		t.NoErr(err, "image")
		t.Check(bytes.Equal(p, q), "defaults", "the default HLL sketch is not one of lgK 12 in HLL_4 (%d and %d, type %d)", d.GetLgConfigK(), e.GetLgConfigK(), d.GetTgtHllType())
		r1, err := du.GetResult(hll.TgtHllTypeHll8)
		t.NoErr(err, "result")
		r2, err := eu.GetResult(hll.TgtHllTypeHll8)
		t.NoErr(err, "result")
		p, _ = r1.ToCompactSlice()
		q, _ = r2.ToCompactSlice()
		t.Check(bytes.Equal(p, q), "defaults", "the default HLL union is not one of lgK 12 but %d", du.GetLgConfigK())
	} else {
		seed := []uint64{0, 1, 9001, t.Uint64()}[t.IntN(4)]
		ok := lg >= 4 && lg <= 26
		if lg >= 20 && lg <= 26 && t.IntN(20) > 0 {
			lg = 11
			ok = true
		}
		c, err := cpc.NewCpcSketch(lg, seed)
		t.Check((err == nil) == ok, "accept", "CPC sketch with lgK %d: %v", lg, err)
		cd, err := cpc.NewCpcSketchWithDefault(lg)
		t.Check((err == nil) == ok, "accept", "CPC default sketch with lgK %d: %v", lg, err)
		_, e1 := cpc.NewCpcUnionSketch(lg, seed)
		ud, e2 := cpc.NewCpcUnionSketchWithDefault(lg)
		t.Check((e1 == nil) == ok && (e2 == nil) == ok, "accept", "CPC unions with lgK %d: %v, %v", lg, e1, e2)
		if ok {
			t.Check(c.GetLgK() == lg && cd.GetLgK() == lg, "getters", "CPC sketches of lgK %d report %d and %d", lg, c.GetLgK(), cd.GetLgK())
			ce, err := cpc.NewCpcSketch(lg, 9001)
			t.NoErr(err, "default")
			for i := 0; i < n; i++ {
				t.NoErr(cd.UpdateInt64(int64(i)*77), "update")
				t.NoErr(ce.UpdateInt64(int64(i)*77), "update")
			}
			p, err := cd.ToCompactSlice()
			t.NoErr(err, "image")
			q, err := ce.ToCompactSlice()
			t.NoErr(err, "image")
			t.Check(bytes.Equal(p, q), "defaults", "the default CPC seed is not 9001")
			t.NoErr(ud.Update(ce), "default union")
			back, err := cpc.NewCpcSketchFromSliceWithDefault(q)
			t.NoErr(err, "default decode")
			t.Check(back.GetEstimate() == ce.GetEstimate(), "defaults", "the default decoder gives %v for %v", back.GetEstimate(), ce.GetEstimate())
		}
	}
	t.Desc("HLL and CPC, lgK %d type %d n %d", lg, ty, n)
	t.Sig(lg, ty, n)
	t.NonTrivial()
	t.Ev("constructors")
}

func x11Quantiles(t *T) {
	t.NonTrivial()
	t.Ev("constructors")
	switch t.IntN(3) {
	case 0:
		k := x11Small(t, func() int { return 8 + t.IntN(2000) })
		m := t.IntN(13)
		if k < 0 || k > 65535 {
			k = 65535
		}
		ok := k >= 8 && m >= 2 && m <= 8 && m%2 == 0
		cmp, sd := common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}
		s, err := kll.NewKllItemsSketch[int64](uint16(k), uint8(m), cmp, sd)
		t.Desc("KLL k %d m %d", k, m)
		t.Sig("kll", k, m)
		t.Check((err == nil) == ok, "accept", "KLL sketch with k %d, m %d: %v", k, m, err)
		_, err = kll.NewKllItemsSketch[int64](uint16(k), 8, nil, sd)
		t.Check(err != nil, "accept", "a KLL sketch without comparison was made")
		if !ok {
			return
		}
		t.Check(int(s.GetK()) == k && s.IsEmpty(), "getters", "KLL k %d reported as %d", k, s.GetK())
		d, err := kll.NewKllItemsSketchWithDefault[int64](cmp, sd)
		t.NoErr(err, "default")
		e, err := kll.NewKllItemsSketch[int64](200, 8, cmp, sd)
		t.NoErr(err, "default")
		n := t.IntN(201)
		for i := 0; i < n; i++ {
			d.Update(int64(i * 7 % 31))
			e.Update(int64(i * 7 % 31))
		}
		p, err := d.ToSlice()
		t.NoErr(err, "image")
		q, err := e.ToSlice()
		t.NoErr(err, "image")
		t.Check(bytes.Equal(p, q) && d.GetK() == 200 && d.GetNormalizedRankError(true) == e.GetNormalizedRankError(true), "defaults", "the default KLL sketch is not one of k 200 and m 8 but of k %d", d.GetK())
	case 1:
		k, hra := 12, true
		var opts []req.SketchOptionFunc
		for n := t.IntN(5); n > 0; n-- {
			if t.IntN(2) == 0 {
				hra = t.IntN(2) == 0
				opts = append(opts, req.WithHighRankAccuracyMode(hra))
			} else {
				k = x11Small(t, func() int { return 2 * t.IntN(514) })
				opts = append(opts, req.WithK(k))
			}
		}
		ok := k >= 4 && k <= 1024 && k%2 == 0
		s, err := req.NewSketch(opts...)
		t.Desc("REQ k %d high %v", k, hra)
		t.Sig("req", k, hra, len(opts))
		t.Check((err == nil) == ok, "accept", "REQ sketch with k %d: %v", k, err)
		if ok {
			t.Check(s.K() == k && s.IsHighRankAccuracyMode() == hra && s.IsEmpty(), "getters", "REQ (%d, %v) reports (%d, %v)", k, hra, s.K(), s.IsHighRankAccuracyMode())
			s.Reset()
			t.Check(s.K() == k && s.IsHighRankAccuracyMode() == hra && s.IsEmpty(), "getters", "REQ (%d, %v) reports (%d, %v) after Reset", k, hra, s.K(), s.IsHighRankAccuracyMode())
		}
	default:
		k := x11Small(t, func() int { return t.IntN(3000) })
		if k < 0 || k > 65535 {
			k = 65535
		}
		d, err := tdigest.NewDouble(uint16(k))
		t.Desc("t-digest k %d", k)
		t.Sig("tdigest", k)
		t.Check((err == nil) == (k >= 10), "accept", "t-digest with k %d: %v", k, err)
		if err == nil {
			t.Check(int(d.K()) == k && d.IsEmpty() && d.TotalWeight() == 0, "getters", "t-digest k %d reported as %d", k, d.K())
		}
		t.Check(tdigest.DefaultK == 200, "defaults", "default k %d", tdigest.DefaultK)
	}
}

func x11Counting(t *T) {
	t.NonTrivial()
	t.Ev("constructors and sizing functions")
	if t.IntN(2) == 0 {
		lg := t.IntN(20)
		size := 1 << lg
		if t.IntN(3) == 0 {
			size = []int{-8, -1, 0, 3, 5, 6, 7, 9, 12, 1000, 1<<20 + 1, math.MinInt}[t.IntN(12)]
			lg = -1
		}
		ok := lg >= 0
		t.Desc("frequency sketches, map size %d", size)
		t.Sig("frequency", size)
		h, sd := common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{}
		a, e1 := fq.NewLongsSketchWithMaxMapSize(size)
		b, e2 := fq.NewFrequencyItemsSketchWithMaxMapSize[int64](size, h, sd)
		t.Check((e1 == nil) == ok && (e2 == nil) == ok, "accept", "map size %d: %v, %v", size, e1, e2)
		w := t.Int64N(1 << 40)
		eps, e1 := fq.GetEpsilonLongsSketch(size)
		eps2, e2 := fq.GetEpsilonFrequencyItemsSketch(size)
		t.Check((e1 == nil) == ok && (e2 == nil) == ok, "epsilon", "epsilon for map size %d: %v, %v", size, e1, e2)
		ap, e1 := fq.GetAprioriErrorLongsSketch(size, w)
		ap2, e2 := fq.GetAprioriErrorFrequencyItemsSketch(size, w)
		t.Check((e1 == nil) == ok && (e2 == nil) == ok, "epsilon", "a-priori error for map size %d: %v, %v", size, e1, e2)
		if !ok {
			return
		}
		t.Check(eps == 3.5/float64(size) && eps2 == eps, "epsilon", "epsilon for %d: %v, %v", size, eps, eps2)
		want := eps * float64(w)
		t.Check(math.Abs(ap-want) <= 1e-9*want && math.Abs(ap2-want) <= 1e-9*want, "apriori", "a-priori error for (%d, %d): %v, %v, expected %v", size, w, ap, ap2, want)
		c, err := fq.NewLongsSketch(lg, 3)
		t.NoErr(err, "new")
		d, err := fq.NewFrequencyItemsSketch[int64](lg, 3, h, sd)
		t.NoErr(err, "new")
		full := max(size, 8)
		t.Check(a.GetMaximumMapCapacity() == c.GetMaximumMapCapacity() && b.GetMaximumMapCapacity() == d.GetMaximumMapCapacity() && a.GetMaximumMapCapacity() == full*3/4 && b.GetMaximumMapCapacity() == full*3/4,
			"capacity", "map size %d: capacities %d %d %d %d", size, a.GetMaximumMapCapacity(), b.GetMaximumMapCapacity(), c.GetMaximumMapCapacity(), d.GetMaximumMapCapacity())
		t.Check(a.GetCurrentMapCapacity() == 6 && b.GetCurrentMapCapacity() == 6, "capacity", "initial capacities %d and %d", a.GetCurrentMapCapacity(), b.GetCurrentMapCapacity())
		return
	}
	x := t.Float64()
	switch t.IntN(5) {
	case 0:
		x = []float64{0, -0.0, 1, 2, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e-300, 5e-324, 1 - 1e-16, math.E / math.MaxInt32, math.E / (math.MaxInt32 + 2)}[t.IntN(13)]
	case 1:
		x = math.Exp(-40 * x)
	case 2:
		x = 1 - math.Exp(-40*x)
	}
	t.Desc("count-min sizing at %v", x)
	t.Sig("count", x)
	nb, err := cm.SuggestNumBuckets(x)
	wb := math.Ceil(math.E / x)
	okb := x > 0 && wb <= math.MaxInt32
	t.Check((err == nil) == okb, "buckets", "SuggestNumBuckets(%v): %d, %v", x, nb, err)
	if okb {
		t.Check(float64(nb) == wb, "buckets", "SuggestNumBuckets(%v) = %d, expected %v", x, nb, wb)
	}
	nh, err := cm.SuggestNumHashes(x)
	t.Check((err == nil) == (x >= 0 && x <= 1), "hashes", "SuggestNumHashes(%v): %d, %v", x, nh, err)
	if err == nil {
		wh := math.Ceil(math.Log(1 / (1 - x)))
		t.Check(float64(nh) == math.Min(wh, 127), "hashes", "SuggestNumHashes(%v) = %d, expected %v", x, nh, wh)
	}
	h, b := t.IntN(256)-128, x11Small(t, func() int { return t.IntN(200) })
	if b > 1<<22 && b < math.MaxInt32 {
		b = 1 << 16
	}
	b = max(b, -1)
	if b == math.MaxInt32 && h == 0 { // one row of everything must be refused as well
		h = 1
	}
	s, err := cm.NewCountMinSketch(int8(h), int32(b), 9001)
	ok := h >= 1 && b >= 3 && h*b < 1<<30
	t.Check((err == nil) == ok, "accept", "count-min of %d hashes and %d buckets: %v", h, b, err)
	if ok {
		t.Check(int(s.GetNumHashes()) == h && int(s.GetNumBuckets()) == b && s.GetSeed() == 9001 && s.GetTotalWeight() == 0 && s.GetRelativeError() == math.E/float64(b), "getters",
			"count-min (%d, %d) reports (%d, %d), seed %d, error %v", h, b, s.GetNumHashes(), s.GetNumBuckets(), s.GetSeed(), s.GetRelativeError())
	}
}

func x11Bloom(t *T) {
	t.NonTrivial()
	t.Ev("constructors and sizing functions")
	n := uint64(1 + t.IntN(100000))
	if t.IntN(10) == 0 {
		n = []uint64{0, 1, 1, 2, math.MaxUint64}[t.IntN(5)]
	}
	p := t.Float64()
	switch t.IntN(4) {
	case 0:
		p = math.Exp(-60 * p)
	case 1:
		p = []float64{0, 1, -1, 2, math.NaN(), math.Inf(1), 0.5, 0.25, 0.01, 1 - 1e-12}[t.IntN(10)]
	}
	ok := n > 0 && p > 0 && p < 1
	bits := math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2))
	ok = ok && bits <= float64(uint64(math.MaxInt32)*64)
	t.Desc("bloom filter for %d items at %v", n, p)
	t.Sig(n, p)
	if ok && bits > 1<<27 { // do not allocate it
		return
	}
	nb, nh := uint64(0), uint16(0)
	if p > 0 && p < 1 && bits < 1<<60 {
		nb, nh = filters.SuggestNumFilterBits(n, p), filters.SuggestNumHashes(p)
		t.Check(math.Abs(float64(nb)-bits) <= 1e-9*bits, "bits", "SuggestNumFilterBits(%d, %v) = %d, expected %v", n, p, nb, bits)
		t.Check(math.Abs(float64(nh)-math.Ceil(-math.Log2(p))) < 1e-9 || math.Abs(math.Log2(p)-math.Round(math.Log2(p))) < 1e-9 && math.Abs(float64(nh)+math.Log2(p)) < 1.5, "hashes", "SuggestNumHashes(%v) = %d, expected %v", p, nh, math.Ceil(-math.Log2(p)))
	}
	m := uint64(t.IntN(1 << 20))
	r := float64(m) / float64(n) * math.Ln2
	got := filters.SuggestNumHashesFromSize(n, m)
	switch {
	case n == 0 || m == 0:
		t.Check(got == 1, "hashes-from-size", "SuggestNumHashesFromSize(%d, %d) = %d", n, m, got)
	case r < 65000 && math.Abs(r-math.Round(r)) > 1e-9:
		t.Check(float64(got) == math.Ceil(r), "hashes-from-size", "SuggestNumHashesFromSize(%d, %d) = %d, expected %v", n, m, got, math.Ceil(r))
	}
	t.Check(filters.SuggestNumHashesFromSize(0, m) == 1, "hashes-from-size", "SuggestNumHashesFromSize(0, %d) = %d", m, filters.SuggestNumHashesFromSize(0, m))
	seed := uint64(9001)
	var opts []filters.BloomFilterOption
	for i := t.IntN(4); i > 0; i-- {
		seed = t.Uint64()
		opts = append(opts, filters.WithSeed(seed))
	}
	f, err := filters.NewBloomFilterByAccuracy(n, p, opts...)
	t.Check((err == nil) == ok, "accept", "a filter for %d items at %v: %v", n, p, err)
	if ok {
		t.Check(f.Seed() == seed, "seed", "seed %d reported as %d", seed, f.Seed())
		t.Check(f.Capacity() == (nb+63)/64*64 && f.NumHashes() == filters.SuggestNumHashesFromSize(n, nb) && f.IsEmpty() && f.BitsUsed() == 0, "accuracy", "a filter for %d items at %v has %d bits and %d hashes, %d bits suggested", n, p, f.Capacity(), f.NumHashes(), nb)
	}
	h := t.IntN(20)
	if t.IntN(8) == 0 {
		h = 65535
	}
	g, err := filters.NewBloomFilterBySize(m, uint16(h), opts...)
	t.Check((err == nil) == (m > 0 && h > 0), "accept", "a filter of %d bits and %d hashes: %v", m, h, err)
	if err == nil {
		t.Check(g.Capacity() == (m+63)/64*64 && int(g.NumHashes()) == h && g.Seed() == seed, "getters", "a filter of %d bits, %d hashes, seed %d reports %d, %d, %d", m, h, seed, g.Capacity(), g.NumHashes(), g.Seed())
	}
	_, err = filters.NewBloomFilterBySize(math.MaxUint64-t.Uint64()>>4, uint16(h+1))
	t.Check(err != nil, "accept", "a filter of 2^60 bits was made")
	d, err := filters.NewBloomFilterWithDefault()
	t.NoErr(err, "default")
	t.Check(d.Capacity() == 95872 && d.NumHashes() == 7 && d.Seed() == filters.DefaultSeed && filters.DefaultSeed == 9001, "defaults", "the default filter has %d bits, %d hashes, seed %d", d.Capacity(), d.NumHashes(), d.Seed())
	s1, e1 := filters.GenerateRandomSeed()
	s2, e2 := filters.GenerateRandomSeed()
	t.Check(e1 == nil && e2 == nil && s1 != s2 && s1|s2 > math.MaxUint32 && uint32(s1|s2) != 0, "random-seed", "random seeds %d, %d, %v, %v", s1, s2, e1, e2)
}

func x11Sampling(t *T) {
	t.NonTrivial()
	t.Ev("constructors")
	k := x11Small(t, func() int { return 2 + t.IntN(4000) })
	switch t.IntN(12) {
	case 0:
		k = math.MaxInt32 - t.IntN(3)
	case 1:
		k = math.MaxInt32 + 1 + t.IntN(3)
	case 2:
		k = 1 << (31 + t.IntN(31))
	}
	rf := sp.ResizeX8
	var o1 []sp.ReservoirItemsSketchOptionFunc
	var o2 []sp.VarOptOption
	all := []sp.ResizeFactor{sp.ResizeX1, sp.ResizeX2, sp.ResizeX4, sp.ResizeX8}
	for i := t.IntN(4); i > 0; i-- {
		rf = all[t.IntN(4)]
		if k > 1<<20 {
			rf = sp.ResizeX8
		}
		o1, o2 = append(o1, sp.WithReservoirItemsSketchResizeFactor(rf)), append(o2, sp.WithResizeFactor(rf))
	}
	t.Desc("k %d, resize factor %d (%d options)", k, rf, len(o1))
	t.Sig(k, rf, len(o1))
	ok := k >= 2 && k <= math.MaxInt32
	r, err := sp.NewReservoirItemsSketch[int64](k, o1...)
	t.Check((err == nil) == ok, "accept", "a reservoir of %d: %v", k, err)
	u, err := sp.NewReservoirItemsUnion[int64](k)
	t.Check((err == nil) == ok, "accept", "a reservoir union of %d: %v", k, err)
	n := t.IntN(40)
	if ok {
		t.Check(r.K() == k && r.N() == 0 && r.NumSamples() == 0 && u.MaxK() == k, "getters", "reservoir and union of k %d report %d and %d", k, r.K(), u.MaxK())
		for i := 0; i < n; i++ {
			t.NoErr(r.Update(int64(i)), "update")
		}
		img, err := r.ToSlice(spLong.serde)
		t.NoErr(err, "image")
		t.Check(int(img[0]>>6) == x11Lg(rf), "resize-factor", "a reservoir with resize factor %d writes %d", rf, img[0]>>6)
		back, err := sp.NewReservoirItemsSketchFromSlice[int64](img, spLong.serde)
		t.NoErr(err, "decode")
		t.Check(back.K() == k && back.N() == int64(n), "getters", "a reservoir of k %d with %d items comes back as %d, %d", k, n, back.K(), back.N())
		if n > 0 {
			t.NoErr(u.UpdateSketch(r), "union")
			ui, err := u.ToSlice(spLong.serde)
			t.NoErr(err, "union image")
			ub, err := sp.NewReservoirItemsUnionFromSlice[int64](ui, spLong.serde)
			t.NoErr(err, "union decode")
			t.Check(ub.MaxK() == k, "getters", "a reservoir union of %d comes back with %d", k, ub.MaxK())
		}
	}
	vk := uint(k)
	okv := k >= 1 && k <= math.MaxInt32-1
	v, err := sp.NewVarOptItemsSketch[int64](vk, o2...)
	t.Check((err == nil) == okv, "accept", "a VarOpt sketch of %d: %v", vk, err)
	w, err := sp.NewVarOptItemsUnion[int64](vk)
	t.Check((err == nil) == okv, "accept", "a VarOpt union of %d: %v", vk, err)
	if okv {
		t.Check(v.K() == k && v.N() == 0 && v.NumSamples() == 0 && v.IsEmpty() && w != nil, "getters", "VarOpt of k %d reports %d", k, v.K())
		for i := 0; i < n; i++ {
			t.NoErr(v.Update(int64(i), 1+float64(i)), "update")
		}
		var b bytes.Buffer
		e := sp.NewVarOptItemsSketchEncoder[int64](&b, spLong.serde)
		t.NoErr(e.Encode(v), "image")
		t.Check(int(b.Bytes()[0]>>6) == x11Lg(rf), "resize-factor", "a VarOpt sketch with resize factor %d writes %d", rf, b.Bytes()[0]>>6)
		back, err := sp.DecodeVarOptItemsSketch[int64](b.Bytes(), spLong.serde)
		t.NoErr(err, "decode")
		t.Check(back.K() == k && back.N() == int64(n), "getters", "a VarOpt sketch of k %d with %d items comes back as %d, %d", k, n, back.K(), back.N())
	}
}

func x11Lg(rf sp.ResizeFactor) int { return int(rf) }
