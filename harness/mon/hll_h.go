package mon

import (
	"bytes"
	"encoding/binary"
	"math"
	"slices"

	"github.com/apache/datasketches-go/hll"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("H01", "a case counts when a sketch left the empty state",
		core.Family{Name: "content", Quick: 2600, Thorough: 60000, Run: h01Content},
		core.Family{Name: "order", Quick: 900, Thorough: 20000, Run: h01Order},
		core.Family{Name: "extreme", Quick: 1500, Thorough: 40000, Run: h01Extreme},
		core.Family{Name: "large", Quick: 10, Thorough: 120, Run: h01Large},
		core.Family{Name: "merged", Quick: 1200, Thorough: 30000, Run: h01Merged},
	)
	core.Register("H02", "a case counts when at least two non-empty inputs were merged",
		core.Family{Name: "merge", Quick: 6000, Thorough: 60000, Run: func(t *T) { h02Merge(t, false) }},
		core.Family{Name: "mixed-lgk", Quick: 6000, Thorough: 60000, Run: func(t *T) { h02Merge(t, true) }},
		core.Family{Name: "order", Quick: 700, Thorough: 15000, Run: h02Order},
		core.Family{Name: "live", Quick: 2500, Thorough: 40000, Run: h02Live},
		core.Family{Name: "large", Quick: 6, Thorough: 80, Run: h02Large},
	)
	core.Register("H03", "a case counts when a non-empty image was decoded and used further",
		core.Family{Name: "roundtrip", Quick: 9000, Thorough: 200000, Run: h03RoundTrip},
		core.Family{Name: "union", Quick: 3000, Thorough: 60000, Run: h03Union},
	)
	core.Register("H04", "a case counts when the sketch was non-empty",
		core.Family{Name: "bracket", Quick: 5000, Thorough: 40000, Run: h04Bracket},
		core.Family{Name: "coupon-exact", Quick: 150, Thorough: 2000, Run: h04Small},
		core.Family{Name: "error", Quick: 108, Thorough: 1500, Run: h04Error},
		core.Family{Name: "width", Quick: 400, Thorough: 8000, Run: h04Width},
		core.Family{Name: "occupied", Quick: 60, Thorough: 600, Run: h04Occupied},
		core.Family{Name: "bias", Quick: 144, Thorough: 144, Run: h04Bias},
		core.Family{Name: "composite", Quick: 360, Thorough: 7200, Run: h04Composite},
		core.Family{Name: "coupons", Quick: 70, Thorough: 700, Run: h04Coupons},
	)
	core.Assume("H01", "coupons are computed with an independent MurmurHash3 x64 128 (seed 9001)")
}

func hllNew(t *T, lgK int, tt hll.TgtHllType) hll.HllSketch {
	s, err := hll.NewHllSketch(lgK, tt)
	t.NoErr(err, "new")
	return s
}

// hllSizes picks a stream length around the mode transitions of lgK.
func hllSize(t *T, lgK int) int {
	k := 1 << lgK
	switch t.IntN(10) {
	case 0:
		return t.IntN(4)
	case 1:
		return 5 + t.IntN(8)
	case 2:
		return 20 + t.IntN(12)
	case 3, 4:
		return k/16 + t.IntN(k/16+8)
	case 5, 6:
		return k*3/32 + t.IntN(k/8+3)
	case 7:
		return t.IntN(k + 1)
	case 8:
		return min(t.IntN(6*k+1), 60000)
	default:
		return min(t.IntN(20*k+1), 60000)
	}
}

func h01Content(t *T) {
	lgK := lgKPick(t)
	n := hllSize(t, lgK)
	hot := []float64{0, 0, 0.01, 0.3}[t.IntN(4)]
	its := hllStream(t, lgK, n, hot, uint64(n)*4+1)
	sk := make([]hll.HllSketch, 3)
	for i, tt := range hllTypes {
		sk[i] = hllNew(t, lgK, tt)
	}
	t.Desc("lgK=%d n=%d hot=%v", lgK, n, hot)
	set := hllSet{}
	var regs []byte // bucket maxima once in register mode
	var ksum float64
	cp := n/3 + 1
	for i, it := range its {
		before, _ := sk[0].GetEstimate()
		mode := sk[0].GetCurMode()
		for j := range sk {
			t.NoErr(it.feed(sk[j]), "update")
		}
		set.add(it)
		after, _ := sk[0].GetEstimate()
		if mode == 2 { // online HIP monitor
			if regs == nil {
				regs = ref.HllBuckets(set, lgK)
				ksum = kxq(regs)
			} else if c, ok := it.coupon(); ok {
				k := ksum
				old := regs[int(c)&(len(regs)-1)]
				if ref.HllPut(regs, c) {
					want := before + float64(int(1)<<lgK)/k
					t.Check(relEq(after, want, 1e-9), "hip-step", "item %d raised a register: estimate %v -> %v, HIP says %v", i, before, after, want)
					t.Ev("register updates checked")
					ksum += math.Ldexp(1, -int(c>>26)) - math.Ldexp(1, -int(old))
				} else {
					t.Check(after == before, "hip-idle", "item %d changed no register but the estimate went %v -> %v", i, before, after)
				}
			}
		}
		if i%cp == cp-1 {
			for j := range sk {
				hllContent(t, sk[j], set, "content")
			}
		}
	}
	for j := range sk {
		im := hllContent(t, sk[j], set, "content")
		t.EvN([]string{"list", "set", "registers"}[im.Mode], 1)
		t.Sig(im.Mode, lgK, len(set))
	}
	// identical order: the three targets agree exactly on every number
	n0 := hllNums(t, sk[0], "num")
	for j := 1; j < 3; j++ {
		nj := hllNums(t, sk[j], "num")
		for x := range n0 {
			t.Check(relEq(n0[x], nj[x], 1e-9), "targets", "HLL4 reports %v, %v reports %v", n0, hllTypes[j], nj)
		}
	}
	// conversions
	for j := range sk {
		nums := hllNums(t, sk[j], "num")
		img, _ := sk[j].ToUpdatableSlice()
		for _, tt := range hllTypes {
			c, err := sk[j].CopyAs(tt)
			t.NoErr(err, "copyas")
			t.Check(c.GetTgtHllType() == tt && c.GetLgConfigK() == lgK && c.GetCurMode() == sk[j].GetCurMode(), "copyas-config", "copy reports type %v lgK %d mode %v", c.GetTgtHllType(), c.GetLgConfigK(), c.GetCurMode())
			hllContent(t, c, set, "copyas")
			cn := hllNums(t, c, "num")
			for x := range cn {
				t.Check(relEq(nums[x], cn[x], 1e-9), "copyas-numbers", "original %v copy as %v %v", nums, tt, cn)
			}
			// the copy evolves independently and like the original would
			cset := hllSet{}
			for k := range set {
				cset[k] = struct{}{}
			}
			for x := 0; x < 30; x++ {
				it := hllStream(t, lgK, 1, 0.5, 1<<40)[0]
				t.NoErr(it.feed(c), "copy-update")
				cset.add(it)
			}
			hllContent(t, c, cset, "copyas-evolved")
			now, _ := sk[j].ToUpdatableSlice()
			t.Check(bytes.Equal(img, now), "copyas-alias", "updating a copy changed the original")
		}
		c, err := sk[j].Copy()
		t.NoErr(err, "copy")
		cb, _ := c.ToUpdatableSlice()
		t.Check(bytes.Equal(cb, img), "copy-image", "Copy serializes differently")
	}
	if len(set) > 0 {
		t.NonTrivial()
	}
	// reset behaves as new
	for j := range sk {
		t.NoErr(sk[j].Reset(), "reset")
		fresh := hllNew(t, lgK, hllTypes[j])
		m := min(len(its), 60)
		rs := hllSet{}
		for i := 0; i <= m; i++ {
			a, _ := sk[j].ToUpdatableSlice()
			b, _ := fresh.ToUpdatableSlice()
			t.Check(bytes.Equal(a, b), "reset-image", "after reset and %d items the image differs from a new sketch's", i)
			if i < m {
				t.NoErr(its[i].feed(sk[j]), "reset-update")
				t.NoErr(its[i].feed(fresh), "update")
				rs.add(its[i])
			}
		}
		hllContent(t, sk[j], rs, "reset")
	}
}

func h01Order(t *T) {
	lgK := lgKPick(t)
	n := hllSize(t, lgK)
	its := hllStream(t, lgK, n, []float64{0, 0.05, 0.5}[t.IntN(3)], uint64(n)*2+1)
	set := hllSet{}
	for _, it := range its {
		set.add(it)
	}
	t.Desc("lgK=%d n=%d distinct coupons=%d", lgK, n, len(set))
	var imgs []ref.HllImage
	var comps []float64
	for v := 0; v < 3; v++ {
		tt := hllTypes[t.IntN(3)]
		s := hllNew(t, lgK, tt)
		p := t.Perm(len(its))
		for _, i := range p {
			t.NoErr(its[i].feed(s), "update")
			if v == 2 && t.IntN(4) == 0 { // repetition
				t.NoErr(its[p[t.IntN(len(p))]].feed(s), "update")
			}
		}
		imgs = append(imgs, hllContent(t, s, set, "order"))
		ce, err := s.GetCompositeEstimate()
		t.NoErr(err, "composite")
		comps = append(comps, ce)
		est, _ := s.GetEstimate()
		if imgs[v].Mode < 2 {
			t.Check(est == ce, "coupon-estimate", "coupon mode: estimate %v composite %v", est, ce)
		}
	}
	for v := 1; v < 3; v++ {
		t.Check(imgs[v].Mode == imgs[0].Mode, "mode", "same items in another order end in mode %d, not %d", imgs[v].Mode, imgs[0].Mode)
		t.Check(relEq(comps[v], comps[0], 1e-9), "composite", "composite estimates %v for orders of the same items", comps)
	}
	t.Ev("permuted streams compared")
	t.Sig(lgK, imgs[0].Mode, len(set))
	if len(set) > 1 {
		t.NonTrivial()
	}
}

// h01Extreme drives HLL4 exceptions and minimum shifts with crafted items.
func h01Extreme(t *T) {
	lgK := 4 + t.IntN(4)
	k := 1 << lgK
	tt := hllTypes[[]int{0, 0, 0, 1, 2}[t.IntN(5)]]
	s := hllNew(t, lgK, tt)
	set := hllSet{}
	exc := 0
	phases := 2 + t.IntN(4)
	lo := 1
	t.Desc("lgK=%d tgt=%d phases=%d", lgK, tt, phases)
	for p := 0; p < phases; p++ {
		base := lo + t.IntN(6)
		holdout := t.IntN(k)
		excRate := []float64{0.05, 0.3, 1}[t.IntN(3)]
		for _, slot := range t.Perm(k) {
			if slot == holdout {
				continue
			}
			v := base + t.IntN(4)
			if t.Float64() < excRate {
				v = lo + 13 + t.IntN(8)
				exc++
			}
			v = min(v, 63)
			it := craftedHll(t, uint32(slot)|t.Uint32()&^uint32(k-1), v)
			t.NoErr(it.feed(s), "update")
			set.add(it)
		}
		hllContent(t, s, set, "extreme")
		// release the minimum step by step
		for v := lo; v <= base; v += 1 + t.IntN(3) {
			it := craftedHll(t, uint32(holdout), min(v, 63))
			t.NoErr(it.feed(s), "update")
			set.add(it)
			hllContent(t, s, set, "extreme-shift")
		}
		if s.GetCurMode() == 2 {
			lo = int(slices.Min(ref.HllBuckets(set, lgK)))
		}
	}
	for _, o := range hllTypes {
		c, err := s.CopyAs(o)
		t.NoErr(err, "copyas")
		hllContent(t, c, set, "extreme-copyas")
		for _, up := range []bool{false, true} {
			var b []byte
			if up {
				b, _ = c.ToUpdatableSlice()
			} else {
				b, _ = c.ToCompactSlice()
			}
			d, err := hll.NewHllSketchFromSlice(b, true)
			t.NoErr(err, "decode")
			hllContent(t, d, set, "extreme-decode")
		}
	}
	hllOrder(t, hllNums(t, s, "num"), "extreme")
	t.EvN("exceptional values fed", exc)
	t.Sig(lgK, len(set), lo)
	t.NonTrivial()
}

func h01Large(t *T) {
	lgK := []int{21, 18, 20, 14, 16, 19, 17, 15, 13, 12}[t.Idx%10]
	n := []int{400000, 60000, 1200000}[t.IntN(3)]
	set := hllSet{}
	sk := []hll.HllSketch{}
	for _, tt := range hllTypes {
		sk = append(sk, hllNew(t, lgK, tt))
	}
	t.Desc("lgK=%d n=%d", lgK, n)
	base := t.Uint64()
	for i := 0; i < n; i++ {
		it := hllItem{u: base + uint64(i)}
		for _, s := range sk {
			t.NoErr(it.feed(s), "update")
		}
		set.add(it)
	}
	for _, s := range sk {
		hllContent(t, s, set, "large")
		est, _ := s.GetEstimate()
		t.Check(math.Abs(est-float64(n)) < 9*1.1/math.Sqrt(float64(int(1)<<lgK))*float64(n)+3, "large-error", "n=%d estimate %v lgK %d", n, est, lgK)
		c, err := s.CopyAs(hllTypes[t.IntN(3)])
		t.NoErr(err, "copyas")
		hllContent(t, c, set, "large-copyas")
	}
	t.Sig(lgK, n)
	t.NonTrivial()
}

// h01Merged copies sketches with a merge history: every chain of target types
// keeps the registers, all numbers and the history, and goes on in step.
func h01Merged(t *T) {
	lgK := 4 + t.IntN(6)
	k := 1 << lgK
	u, err := hll.NewUnion(lgK)
	t.NoErr(err, "new-union")
	set := hllSet{}
	base := t.Uint64()
	m := 2 + t.IntN(3)
	for i := 0; i < m; i++ {
		n := 1 + t.IntN([]int{8 * k, 60 * k, 300 * k}[t.IntN(3)])
		in := hllMakeInput(t, lgK, min(n, 30000), []float64{0, 0.02, 0.2}[t.IntN(3)], uint64(n)*2+2, base)
		hllFeedUnion(t, u, in)
		for c := range in.set {
			set[c] = struct{}{}
		}
	}
	t.Desc("lgK=%d, union of %d inputs, %d coupons", lgK, m, len(set))
	s, err := u.GetResult(hllTypes[t.IntN(3)])
	t.NoErr(err, "result")
	im := hllContent(t, s, set, "merged")
	nums := hllNums(t, s, "num")
	cur := s
	path := []hll.TgtHllType{s.GetTgtHllType()}
	for step := 0; step < 4; step++ {
		tt := hllTypes[t.IntN(3)]
		path = append(path, tt)
		c, err := cur.CopyAs(tt)
		t.NoErr(err, "copyas")
		ci := hllContent(t, c, set, "merged-copyas")
		t.Check(ci.OOO == im.OOO && ci.Mode == im.Mode, "merged-history", "copied along %v: merge history %v mode %d became %v mode %d", path, im.OOO, im.Mode, ci.OOO, ci.Mode)
		cn := hllNums(t, c, "num")
		for x := range cn {
			t.Check(relEq(nums[x], cn[x], 1e-9), "merged-copyas-numbers", "copied along %v: %v became %v", path, nums, cn)
		}
		if t.IntN(2) == 0 { // both go on alike
			for i := 0; i < 20; i++ {
				it := hllStream(t, lgK, 1, 0.3, 1<<40)[0]
				t.NoErr(it.feed(cur), "update")
				t.NoErr(it.feed(c), "copy-update")
				set.add(it)
				a, _ := cur.GetEstimate()
				b, _ := c.GetEstimate()
				t.Check(relEq(a, b, 1e-9), "merged-evolve", "copied along %v and fed the same items: estimates %v and %v", path, a, b)
			}
			nums = hllNums(t, c, "num")
		}
		if t.IntN(3) == 0 {
			b, err := c.ToCompactSlice()
			t.NoErr(err, "serialize")
			c, err = hll.NewHllSketchFromSlice(b, true)
			t.NoErr(err, "decode")
		}
		cur = c
	}
	t.Sig(lgK, im.Mode, im.OOO, len(set), path)
	if im.OOO {
		t.Ev("merge histories copied")
		t.NonTrivial()
	}
}

// hllInput is a sketch (or raw items) to merge, with its true coupons.
type hllInput struct {
	sk  hll.HllSketch
	raw []hllItem
	set hllSet
}

func hllMakeInput(t *T, lgK, n int, hot float64, uni uint64, base uint64) hllInput {
	in := hllInput{set: hllSet{}}
	its := hllStream(t, lgK, n, hot, uni)
	for i := range its {
		if its[i].kind < 2 {
			its[i].u = base + its[i].u%uni
		}
		in.set.add(its[i])
	}
	if t.IntN(6) == 0 {
		in.raw = its[:min(len(its), 3000)]
		in.set = hllSet{}
		for _, it := range in.raw {
			in.set.add(it)
		}
		return in
	}
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	for _, it := range its {
		t.NoErr(it.feed(s), "update")
	}
	switch t.IntN(8) {
	case 0, 1: // through bytes
		var b []byte
		if t.IntN(2) == 0 {
			b, _ = s.ToCompactSlice()
		} else {
			b, _ = s.ToUpdatableSlice()
		}
		d, err := hll.NewHllSketchFromSlice(b, t.IntN(2) == 0)
		t.NoErr(err, "decode")
		s = d
	case 2: // itself a union result
		u, err := hll.NewUnion(lgK)
		t.NoErr(err, "new-union")
		t.NoErr(u.UpdateSketch(s), "merge")
		r, err := u.GetResult(hllTypes[t.IntN(3)])
		t.NoErr(err, "result")
		s = r
	}
	in.sk = s
	return in
}

// hllModel tracks what a union must hold.
type hllModel struct {
	lgK int
	hll bool
	set hllSet
}

func (m *hllModel) apply(in hllInput) {
	for c := range in.set {
		m.set[c] = struct{}{}
	}
	if in.sk != nil && in.sk.GetCurMode() == 2 {
		m.lgK = min(m.lgK, in.sk.GetLgConfigK())
		m.hll = true
	}
}

func hllFeedUnion(t *T, u hll.Union, in hllInput) {
	if in.sk == nil {
		for _, it := range in.raw {
			t.NoErr(it.feed(u), "union-update")
		}
		t.Ev("raw streams")
		return
	}
	before, _ := in.sk.ToUpdatableSlice()
	t.NoErr(u.UpdateSketch(in.sk), "union-merge")
	after, _ := in.sk.ToUpdatableSlice()
	t.Check(bytes.Equal(before, after), "input-modified", "merging changed the source sketch")
	t.Ev("sketches merged")
}

// hllCheckUnion compares a union with its model; direct reads come first.
func hllCheckUnion(t *T, u hll.Union, m *hllModel, full bool) {
	t.Check(u.GetLgConfigK() == m.lgK, "union-lgk", "union reports lgK %d, inputs imply %d", u.GetLgConfigK(), m.lgK)
	t.Check(u.IsEmpty() == (len(m.set) == 0), "union-empty", "IsEmpty %v with %d coupons", u.IsEmpty(), len(m.set))
	direct := hllNums(t, u, "union")
	if !full {
		return
	}
	r8, err := u.GetResult(hll.TgtHllTypeHll8)
	t.NoErr(err, "result")
	res := hllNums(t, r8, "union-result")
	for x := range res {
		t.Check(relEq(direct[x], res[x], 1e-9), "union-stale", "union reports %v, its own result %v (est, composite, lb1, ub1, ...)", direct, res)
	}
	hllOrder(t, direct, "union")
	im := hllContent(t, r8, m.set, "result8")
	t.Check(!m.hll || im.Mode == 2, "union-mode", "register input merged but the union is in mode %d", im.Mode)
	for _, tt := range hllTypes[:2] {
		r, err := u.GetResult(tt)
		t.NoErr(err, "result")
		t.Check(r.GetTgtHllType() == tt, "result-type", "asked for %v got %v", tt, r.GetTgtHllType())
		hllContent(t, r, m.set, "result")
		rn := hllNums(t, r, "union-result")
		for x := range rn {
			t.Check(relEq(rn[x], res[x], 1e-9), "result-numbers", "results in different types report %v and %v", res, rn)
		}
	}
	hllContent(t, u, m.set, "union-image")
	// the state-only (composite) estimate equals that of one sketch of the whole stream
	if im.Mode == 2 {
		one := hllNew(t, m.lgK, hll.TgtHllTypeHll8)
		for c := range m.set {
			// any item with this coupon
			t.NoErr(craftedHll(t, c&(1<<26-1), int(c>>26)).feed(one), "update")
		}
		if one.GetCurMode() == 2 {
			a, err := one.GetCompositeEstimate()
			t.NoErr(err, "composite")
			t.Check(relEq(a, res[1], 1e-9), "union-composite", "composite estimate %v, one sketch of the same stream %v", res[1], a)
			if im.OOO {
				t.Check(relEq(a, res[0], 1e-9), "union-estimate", "estimate %v, state says %v", res[0], a)
			}
		}
		t.Ev("register unions checked")
	}
	// the result is independent of the union
	b0, _ := r8.ToUpdatableSlice()
	t.NoErr(u.UpdateUInt64(0xfeedface12345), "union-update")
	m.set.add(hllItem{u: 0xfeedface12345})
	b1, _ := r8.ToUpdatableSlice()
	t.Check(bytes.Equal(b0, b1), "result-alias", "updating the union changed an earlier result")
}

func h02Merge(t *T, mixed bool) {
	lgMax := lgKPick(t)
	if lgMax > 12 {
		lgMax = 12
	}
	u, err := hll.NewUnion(lgMax)
	t.NoErr(err, "new-union")
	m := &hllModel{lgK: lgMax, set: hllSet{}}
	k := 1 + t.IntN(5)
	base := t.Uint64()
	nonEmpty := 0
	t.Desc("lgMaxK=%d inputs=%d", lgMax, k)
	for i := 0; i < k; i++ {
		lgK := lgMax
		if mixed {
			lgK = min(max(4, lgMax-3+t.IntN(7)), 13)
		}
		n := min(hllSize(t, lgK), 20000)
		in := hllMakeInput(t, lgK, n, []float64{0, 0.02, 0.4}[t.IntN(3)], uint64(n)*2+2, base)
		if len(in.set) > 0 {
			nonEmpty++
		}
		if in.sk != nil {
			t.Sig(in.sk.GetCurMode(), in.sk.GetLgConfigK()-lgMax, u.GetCurMode())
			t.Logf("merge mode %d lgK %d type %d into mode %d lgK %d", in.sk.GetCurMode(), in.sk.GetLgConfigK(), in.sk.GetTgtHllType(), u.GetCurMode(), u.GetLgConfigK())
		} else {
			t.Logf("raw %d items", len(in.raw))
		}
		if u.GetCurMode() == 2 {
			m.hll = true
		}
		hllFeedUnion(t, u, in)
		m.apply(in)
		hllCheckUnion(t, u, m, t.IntN(3) == 0 || i == k-1)
	}
	if nonEmpty >= 2 {
		t.NonTrivial()
	}
	if t.IntN(3) == 0 { // reset, then use again
		t.NoErr(u.Reset(), "reset")
		t.Check(u.IsEmpty() && u.GetLgConfigK() <= lgMax, "reset-state", "after reset: empty %v lgK %d", u.IsEmpty(), u.GetLgConfigK())
		m = &hllModel{lgK: u.GetLgConfigK(), set: hllSet{}}
		lgK := lgMax
		in := hllMakeInput(t, lgK, min(hllSize(t, lgK), 5000), 0.05, 1<<30, base)
		hllFeedUnion(t, u, in)
		m.apply(in)
		if u.GetLgConfigK() > m.lgK && u.GetLgConfigK() <= lgMax { // a reset union may return to its limit
			m.lgK = u.GetLgConfigK()
		}
		hllCheckUnion(t, u, m, true)
	}
}

// h02Live merges sketches that are updated between the merges.
func h02Live(t *T) {
	lgMax := min(lgKPick(t), 10)
	u, err := hll.NewUnion(lgMax)
	t.NoErr(err, "new-union")
	m := &hllModel{lgK: lgMax, set: hllSet{}}
	ins := make([]hllInput, 1+t.IntN(3))
	for i := range ins {
		ins[i] = hllInput{sk: hllNew(t, min(max(4, lgMax-2+t.IntN(5)), 12), hllTypes[t.IntN(3)]), set: hllSet{}}
	}
	t.Desc("lgMaxK=%d inputs=%d", lgMax, len(ins))
	merges := 0
	for range 3 + t.IntN(9) {
		in := &ins[t.IntN(len(ins))]
		for _, it := range hllStream(t, in.sk.GetLgConfigK(), t.IntN(3)*t.IntN(1+2<<in.sk.GetLgConfigK()), 0.05, 1<<30) {
			t.NoErr(it.feed(in.sk), "update")
			in.set.add(it)
		}
		if t.IntN(4) == 0 {
			continue
		}
		if u.GetCurMode() == 2 {
			m.hll = true
		}
		hllFeedUnion(t, u, *in)
		m.apply(*in)
		hllCheckUnion(t, u, m, t.IntN(3) == 0)
		merges++
	}
	t.Sig(lgMax, len(m.set), merges)
	if merges > 1 && len(m.set) > 0 {
		t.NonTrivial()
	}
}

func h02Order(t *T) {
	lgMax := 4 + t.IntN(8)
	k := 2 + t.IntN(4)
	base := t.Uint64()
	var ins []hllInput
	for i := 0; i < k; i++ {
		lgK := max(4, lgMax-2+t.IntN(5))
		n := min(hllSize(t, lgK), 8000)
		ins = append(ins, hllMakeInput(t, lgK, n, 0.02, uint64(n)+2, base))
	}
	t.Desc("lgMaxK=%d inputs=%d", lgMax, k)
	var imgs []ref.HllImage
	var comp []float64
	for v := 0; v < 3; v++ {
		u, _ := hll.NewUnion(lgMax)
		m := &hllModel{lgK: lgMax, set: hllSet{}}
		if v == 2 { // tree of unions
			u2, _ := hll.NewUnion(lgMax)
			m2 := &hllModel{lgK: lgMax, set: hllSet{}}
			for i, p := range t.Perm(k) {
				if i%2 == 0 {
					hllFeedUnion(t, u, ins[p])
					m.apply(ins[p])
				} else {
					hllFeedUnion(t, u2, ins[p])
					m2.apply(ins[p])
				}
			}
			r, err := u2.GetResult(hllTypes[t.IntN(3)])
			t.NoErr(err, "result")
			in := hllInput{sk: r, set: m2.set}
			hllFeedUnion(t, u, in)
			m.apply(in)
			m.lgK = u.GetLgConfigK()
		} else {
			for _, p := range t.Perm(k) {
				hllFeedUnion(t, u, ins[p])
				m.apply(ins[p])
			}
			t.Check(u.GetLgConfigK() == m.lgK, "order-lgk", "lgK %d, expected %d", u.GetLgConfigK(), m.lgK)
		}
		imgs = append(imgs, hllContent(t, u, m.set, "order"))
		c, err := u.GetCompositeEstimate()
		t.NoErr(err, "composite")
		comp = append(comp, c)
	}
	t.Check(imgs[0].Mode == imgs[1].Mode && imgs[0].LgK == imgs[1].LgK && relEq(comp[0], comp[1], 1e-9), "order", "merge orders give mode/lgK %d/%d and %d/%d, composite %v", imgs[0].Mode, imgs[0].LgK, imgs[1].Mode, imgs[1].LgK, comp)
	t.Ev("merge orders compared")
	t.Sig(lgMax, imgs[0].Mode, k)
	t.NonTrivial()
}

func h02Large(t *T) {
	lgMax := 12 + t.IntN(8)
	u, _ := hll.NewUnion(lgMax)
	m := &hllModel{lgK: lgMax, set: hllSet{}}
	t.Desc("lgMaxK=%d", lgMax)
	for i := 0; i < 3; i++ {
		lgK := min(21, lgMax-1+t.IntN(3))
		s := hllNew(t, lgK, hllTypes[t.IntN(3)])
		in := hllInput{sk: s, set: hllSet{}}
		n := (1 << lgK) * (1 + t.IntN(2)) / 2
		b := t.Uint64()
		for j := 0; j < n; j++ {
			it := hllItem{u: b + uint64(j)}
			t.NoErr(it.feed(s), "update")
			in.set.add(it)
		}
		hllFeedUnion(t, u, in)
		m.apply(in)
	}
	hllCheckUnion(t, u, m, true)
	t.Sig(lgMax, u.GetLgConfigK())
	t.NonTrivial()
}

func h03RoundTrip(t *T) {
	lgK := lgKPick(t)
	n := min(hllSize(t, lgK), 30000)
	tt := hllTypes[t.IntN(3)]
	s := hllNew(t, lgK, tt)
	set := hllSet{}
	for _, it := range hllStream(t, lgK, n, []float64{0, 0.02, 0.4}[t.IntN(3)], uint64(n)*2+1) {
		t.NoErr(it.feed(s), "update")
		set.add(it)
	}
	if t.IntN(4) == 0 { // out-of-order flag set through a union
		u, _ := hll.NewUnion(lgK)
		t.NoErr(u.UpdateSketch(s), "merge")
		t.NoErr(u.UpdateSketch(s), "merge")
		r, err := u.GetResult(tt)
		t.NoErr(err, "result")
		s = r
	}
	t.Desc("lgK=%d n=%d type=%d mode=%d", lgK, n, tt, s.GetCurMode())
	h03Check(t, s, set)
	t.Sig(lgK, tt, s.GetCurMode(), len(set))
	if len(set) > 0 {
		t.NonTrivial()
	}
}

func h03Check(t *T, s hll.HllSketch, set hllSet) {
	nums := hllNums(t, s, "num")
	comp, err := s.ToCompactSlice()
	t.NoErr(err, "compact")
	upd, err := s.ToUpdatableSlice()
	t.NoErr(err, "updatable")
	t.Check(len(comp) <= len(upd), "sizes", "compact image of %d bytes, updatable %d", len(comp), len(upd))
	for form, img := range [][]byte{comp, upd} {
		key := []string{"compact", "updatable"}[form]
		buf := slices.Clone(img)
		d, err := hll.NewHllSketchFromSlice(buf, t.IntN(2) == 0)
		t.NoErr(err, key+"-decode")
		t.Check(bytes.Equal(buf, img), key+"-input", "decoding modified the input bytes")
		for i := range buf { // the sketch must not depend on the caller's buffer
			buf[i] ^= 0xff
		}
		t.Check(d.GetLgConfigK() == s.GetLgConfigK() && d.GetTgtHllType() == s.GetTgtHllType() && d.GetCurMode() == s.GetCurMode() && d.IsEmpty() == s.IsEmpty(), key+"-config",
			"decoded lgK %d type %d mode %d empty %v, original %d %d %d %v", d.GetLgConfigK(), d.GetTgtHllType(), d.GetCurMode(), d.IsEmpty(), s.GetLgConfigK(), s.GetTgtHllType(), s.GetCurMode(), s.IsEmpty())
		dn := hllNums(t, d, key)
		t.Check(slices.Equal(dn, nums), key+"-numbers", "original %v decoded %v", nums, dn)
		hllContent(t, d, set, key)
		u2, err := d.ToUpdatableSlice()
		t.NoErr(err, key+"-reserialize")
		t.Check(len(u2) == len(upd), key+"-again", "second serialization has %d bytes, first %d", len(u2), len(upd))
		if form == 1 && !(s.GetCurMode() == 2 && s.GetTgtHllType() == hll.TgtHllTypeHll4) { // the exception table may be laid out differently
			t.Check(bytes.Equal(u2, upd), key+"-again", "second serialization differs")
		}
		// evolves like the original
		o, err := s.Copy()
		t.NoErr(err, "copy")
		es := hllSet{}
		for c := range set {
			es[c] = struct{}{}
		}
		scratch := slices.Clone(buf)
		for _, it := range hllStream(t, s.GetLgConfigK(), []int{1, 20, 300}[t.IntN(3)], 0.2, 1<<40) {
			t.NoErr(it.feed(o), key+"-evolve")
			t.NoErr(it.feed(d), key+"-evolve")
			es.add(it)
			a, _ := o.GetEstimate()
			b, _ := d.GetEstimate()
			t.Check(relEq(a, b, 1e-9), key+"-evolve-estimate", "after further updates original estimates %v, decoded %v", a, b)
		}
		t.Check(bytes.Equal(scratch, buf), key+"-buffer", "updating the decoded sketch wrote into the caller's buffer")
		hllContent(t, d, es, key+"-evolve")
		t.Check(o.GetCurMode() == d.GetCurMode(), key+"-evolve-mode", "modes %d %d", o.GetCurMode(), d.GetCurMode())
		t.Ev("round trips")
	}
}

func h03Union(t *T) {
	lgMax := min(lgKPick(t), 12)
	u, _ := hll.NewUnion(lgMax)
	m := &hllModel{lgK: lgMax, set: hllSet{}}
	base := t.Uint64()
	for i := 0; i < 1+t.IntN(3); i++ {
		n := min(hllSize(t, lgMax), 8000)
		in := hllMakeInput(t, lgMax, n, 0.05, uint64(n)+2, base)
		hllFeedUnion(t, u, in)
		m.apply(in)
	}
	t.Desc("lgMaxK=%d mode=%d", lgMax, u.GetCurMode())
	for form := 0; form < 2; form++ {
		var b []byte
		var err error
		if form == 0 {
			b, err = u.ToCompactSlice()
		} else {
			b, err = u.ToUpdatableSlice()
			t.Check(len(b) == u.GetUpdatableSerializationBytes(), "union-size", "GetUpdatableSerializationBytes %d, image %d", u.GetUpdatableSerializationBytes(), len(b))
		}
		t.NoErr(err, "union-serialize")
		d, err := hll.NewUnionFromSlice(b)
		t.NoErr(err, "union-decode")
		for i := range b {
			b[i] ^= 0xff
		}
		t.Check(d.GetLgConfigK() == u.GetLgConfigK() && d.IsEmpty() == u.IsEmpty() && d.GetCurMode() == u.GetCurMode(), "union-config", "decoded union lgK %d mode %d", d.GetLgConfigK(), d.GetCurMode())
		a, c := hllNums(t, u, "union"), hllNums(t, d, "union")
		t.Check(slices.Equal(a, c), "union-numbers", "original %v decoded %v", a, c)
		m2 := &hllModel{lgK: m.lgK, set: hllSet{}}
		for x := range m.set {
			m2.set[x] = struct{}{}
		}
		in := hllMakeInput(t, lgMax, 200, 0.05, 1000, base)
		hllFeedUnion(t, d, in)
		m2.apply(in)
		hllContent(t, d, m2.set, "union-evolve")
	}
	t.Sig(lgMax, u.GetCurMode(), len(m.set))
	if len(m.set) > 0 {
		t.NonTrivial()
	}
}

func h04Bracket(t *T) {
	lgK := lgKPick(t)
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	u, _ := hll.NewUnion(lgK)
	n := min(hllSize(t, lgK), 40000)
	t.Desc("lgK=%d n=%d", lgK, n)
	base := t.Uint64()
	prev := -1.0
	step := max(1, n/40)
	for i := 0; i < n; i++ {
		t.NoErr(s.UpdateUInt64(base+uint64(i)), "update")
		if i%2 == 0 {
			t.NoErr(u.UpdateUInt64(base+uint64(i)), "update")
		}
		if i%step == 0 || i < 40 {
			nums := hllNums(t, s, "num")
			hllOrder(t, nums, "sketch")
			t.Check(nums[0] >= prev, "monotone", "estimate fell from %v to %v as items were added", prev, nums[0])
			prev = nums[0]
			if i%(4*step) == 0 {
				c, _ := s.Copy()
				un, _ := hll.NewUnion(lgK)
				t.NoErr(un.UpdateSketch(c), "merge")
				t.NoErr(un.UpdateSketch(c), "merge")
				hllOrder(t, hllNums(t, un, "union"), "union")
			}
			t.Ev("brackets checked")
		}
	}
	for _, bad := range []int{0, -1, 4} {
		_, e1 := s.GetLowerBound(bad)
		_, e2 := s.GetUpperBound(bad)
		t.Check(e1 != nil && e2 != nil, "sd-range", "bounds accept %d standard deviations", bad)
	}
	t.Sig(lgK, n)
	if n > 0 {
		t.NonTrivial()
	}
}

func h04Small(t *T) {
	lgK := 8 + t.IntN(14)
	limit := min((1<<lgK)*3/32, 12000)
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	base := t.Uint64()
	for i := 1; i <= limit; i++ {
		t.NoErr(s.UpdateUInt64(base+uint64(i)), "update")
		if s.GetCurMode() == 2 {
			break
		}
		if i < 50 || i%97 == 0 {
			est, err := s.GetEstimate()
			t.NoErr(err, "estimate")
			// coupons collide with probability ~ i^2/2^28; a handful of collisions is the worst to expect
			coll := float64(i) * float64(i) / (1 << 27)
			t.Check(math.Abs(est-float64(i)) <= 0.001*float64(i)+10*math.Sqrt(coll)+4*math.Min(1, coll*1e3)+1e-3, "near-exact", "%d items still held as coupons estimate %v", i, est)
			t.Ev("coupon-mode estimates")
		}
	}
	t.Desc("lgK=%d", lgK)
	t.Sig(lgK, limit)
	t.NonTrivial()
}

// h04Error: relative error over independent streams against the advertised RSE.
func h04Error(t *T) {
	lgK := 4 + t.Idx%9
	k := float64(int(1) << lgK)
	mult := []float64{0.5, 2, 8, 30}[t.IntN(4)]
	n := int(k*mult) + 1
	trials := max(30, min(400, 400000/n))
	var sumHip, sumUni, biasHip, biasUni, maxE float64
	in3 := 0
	t.Desc("lgK=%d n=%d trials=%d", lgK, n, trials)
	for r := 0; r < trials; r++ {
		a := hllNew(t, lgK, hllTypes[r%3])
		b := hllNew(t, lgK, hllTypes[(r+1)%3])
		all := hllNew(t, lgK, hllTypes[r%3])
		base := t.Uint64()
		for i := 0; i < n; i++ {
			v := base + uint64(i)
			_ = all.UpdateUInt64(v)
			if i < 2*n/3 {
				_ = a.UpdateUInt64(v)
			}
			if i >= n/3 {
				_ = b.UpdateUInt64(v)
			}
		}
		u, _ := hll.NewUnion(lgK)
		t.NoErr(u.UpdateSketch(a), "merge")
		t.NoErr(u.UpdateSketch(b), "merge")
		h, err := all.GetEstimate()
		t.NoErr(err, "estimate")
		c, err := u.GetEstimate()
		t.NoErr(err, "estimate")
		lb, _ := u.GetLowerBound(3)
		ub, _ := u.GetUpperBound(3)
		if lb <= float64(n) && float64(n) <= ub {
			in3++
		}
		eh, ec := h/float64(n)-1, c/float64(n)-1
		sumHip += eh * eh
		sumUni += ec * ec
		biasHip += eh
		biasUni += ec
		maxE = math.Max(maxE, math.Max(math.Abs(eh), math.Abs(ec)))
		t.EvN("estimates against truth", 2)
	}
	tr := float64(trials)
	rse := 1.04 / math.Sqrt(k)
	// generous: chi-square of ~30+ samples beyond 2.5x the variance-scale is below 1e-15
	t.Check(math.Sqrt(sumHip/tr) < 2*rse, "rms-hip", "rms error %v over %d streams, advertised %v", math.Sqrt(sumHip/tr), trials, rse*0.8)
	t.Check(math.Sqrt(sumUni/tr) < 2.2*rse, "rms-union", "rms error of merged sketches %v, advertised %v", math.Sqrt(sumUni/tr), rse)
	t.Check(math.Abs(biasHip/tr) < 8*rse/math.Sqrt(tr)+0.02*rse*10, "bias-hip", "mean error %v over %d streams", biasHip/tr, trials)
	t.Check(math.Abs(biasUni/tr) < 8*rse/math.Sqrt(tr)+0.02*rse*10, "bias-union", "mean error of merged sketches %v over %d streams", biasUni/tr, trials)
	t.Check(maxE < 10*rse+0.2, "max", "single error %v", maxE)
	t.Check(float64(in3) >= 0.85*tr, "coverage", "3-sd interval covered the truth in %d of %d streams", in3, trials)
	t.Sig(lgK, n)
	t.NonTrivial()
}

// Quantiles of the relative error (estimate/n - 1) at 15.87/84.13, 2.28/97.72 and 0.135/99.865 percent, by lgK 4..12,
// as published with the algorithm; h04Quantiles confirms them by simulation. Index [ooo][lgK-4][sd-1].
var hllQLo = [2][9][3]float64{
	{{.2078, .3556, .4755}, {.1470, .2624, .3609}, {.1039, .1915, .2693}, {.0735, .1385, .1985}, {.0520, .0997, .1441}, {.0368, .0714, .1044}, {.0260, .0509, .0748}, {.0183, .0361, .0533}, {.0129, .0256, .0379}},
	{{.2570, .4119, .5265}, {.1823, .3103, .4127}, {.1293, .2301, .3156}, {.0916, .1683, .2363}, {.0649, .1220, .1741}, {.0459, .0878, .1269}, {.0324, .0629, .0919}, {.0230, .0449, .0657}, {.0162, .0318, .0470}},
}
var hllQHi = [2][9][3]float64{
	{{.2073, .5029, .8823}, {.1470, .3354, .5571}, {.1040, .2277, .3659}, {.0736, .1568, .2457}, {.0521, .1088, .1680}, {.0368, .0757, .1159}, {.0260, .0531, .0808}, {.0184, .0373, .0563}, {.0129, .0261, .0394}},
	{{.2544, .6823, 1.3040}, {.1818, .4434, .7788}, {.1294, .2958, .4925}, {.0916, .2012, .3237}, {.0649, .1385, .2188}, {.0459, .0959, .1486}, {.0325, .0670, .1027}, {.0229, .0469, .0713}, {.0162, .0328, .0497}},
}

// hllWidths: in register mode the bounds are at least as wide as the error quantiles of the estimator in use.
func hllWidths(t *T, s hllSer, lgK int, ooo bool, n int, name string) {
	e, err := s.GetEstimate()
	t.NoErr(err, "estimate")
	o := 0
	if ooo {
		o = 1
	}
	for sd := 1; sd <= 3; sd++ {
		lb, _ := s.GetLowerBound(sd)
		ub, _ := s.GetUpperBound(sd)
		lo := float64(sd) * []float64{math.Sqrt(math.Ln2), math.Sqrt(3*math.Ln2 - 1)}[o] / math.Sqrt(float64(uint64(1)<<lgK))
		hi := lo
		if lgK <= 12 {
			lo, hi = hllQLo[o][lgK-4][sd-1], hllQHi[o][lgK-4][sd-1]
		}
		u, l := 1-e/ub, e/lb-1
		t.Check(u >= 0.98*lo && u <= 1.3*lo, name+"-upper-width", "lgK %d, merged %v: estimate %v, upper bound(%d) %v leaves %v for an error of %v", lgK, ooo, e, sd, ub, u, lo)
		// the lower bound may be raised to the number of non-zero registers
		t.Check(l <= 1.3*hi && (l >= 0.98*hi || lb <= math.Min(float64(n), float64(uint64(1)<<lgK))), name+"-lower-width", "lgK %d, merged %v: estimate %v, lower bound(%d) %v leaves %v for an error of %v", lgK, ooo, e, sd, lb, l, hi)
	}
	t.Ev("bound widths checked")
}

// h04Width: the widths of the intervals, in order and merged.
func h04Width(t *T) {
	lgK := 4 + t.Idx%18
	k := 1 << lgK
	n := k/8 + 40 + t.IntN(min(12*k, 60000+k/4))
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	base := t.Uint64()
	for i := 0; i < n; i++ {
		t.NoErr(s.UpdateUInt64(base+uint64(i)), "update")
	}
	t.Desc("lgK=%d n=%d", lgK, n)
	t.Sig(lgK, n)
	if s.GetCurMode() != 2 {
		return
	}
	t.NonTrivial()
	hllWidths(t, s, lgK, false, n, "sketch")
	img, err := s.ToCompactSlice()
	t.NoErr(err, "image")
	back, err := hll.NewHllSketchFromSlice(img, true)
	t.NoErr(err, "decode")
	hllWidths(t, back, lgK, false, n, "decoded")
	u, _ := hll.NewUnion(lgK)
	o := hllNew(t, lgK, hllTypes[t.IntN(3)])
	for i := 0; i < n; i++ {
		t.NoErr(o.UpdateUInt64(base+uint64(i)), "update")
	}
	t.NoErr(u.UpdateSketch(s), "merge")
	t.NoErr(u.UpdateSketch(o), "merge")
	hllWidths(t, u, lgK, true, n, "union")
	for _, tt := range hllTypes {
		r, err := u.GetResult(tt)
		t.NoErr(err, "result")
		hllWidths(t, r, lgK, true, n, "result")
	}
}

// h04Bias: mean and quantiles of the errors of both estimators over many streams.
func h04Bias(t *T) {
	mults := []float64{0.08, 0.2, 0.35, 0.5, 0.64, 0.8, 1, 1.3, 1.7, 2.2, 2.7, 3, 3.3, 4, 6, 10}
	lgK := 4 + t.Idx%9
	k := float64(int(1) << lgK)
	n := int(k*mults[(t.Idx/9)%len(mults)]) + 1
	rse := 1.04 / math.Sqrt(k)
	trials := min(20000, max(300, 3000000/n))
	if t.Tier == "thorough" {
		trials *= 4
	}
	var sh, sc float64
	var below, above [2][3]int
	used := 0
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	for r := 0; r < trials; r++ {
		t.NoErr(s.Reset(), "reset")
		base := t.Uint64()
		for i := 0; i < n; i++ {
			_ = s.UpdateUInt64(base + uint64(i))
		}
		if s.GetCurMode() != 2 {
			continue
		}
		used++
		h, err := s.GetEstimate()
		t.NoErr(err, "estimate")
		c, err := s.GetCompositeEstimate()
		t.NoErr(err, "estimate")
		sh += h/float64(n) - 1
		sc += c/float64(n) - 1
		for sd := 0; sd < 3; sd++ {
			lb, _ := s.GetLowerBound(sd + 1)
			ub, _ := s.GetUpperBound(sd + 1)
			if float64(n) < lb-1e-6 {
				below[0][sd]++
			}
			if float64(n) > ub+1e-6 {
				above[0][sd]++
			}
			if c/float64(n)-1 > hllQHi[1][lgK-4][sd] {
				below[1][sd]++
			}
			if c/float64(n)-1 < -hllQLo[1][lgK-4][sd] {
				above[1][sd]++
			}
		}
	}
	t.Desc("lgK=%d n=%d trials=%d", lgK, n, used)
	t.Sig(lgK, n)
	if used < trials/2 {
		return // mostly coupons
	}
	t.NonTrivial()
	t.EvN("estimates against truth", 2*used)
	tr := float64(used)
	se := rse / math.Sqrt(tr)
	slack := []float64{.014, .007, .004, .0025, .0015, .001, .001, .001, .001}[lgK-4]
	t.Check(math.Abs(sh/tr) <= 6*se+0.001, "mean-hip", "lgK %d, %d items: mean error %v over %d streams (standard error %v)", lgK, n, sh/tr, used, se)
	t.Check(math.Abs(sc/tr) <= 6*se+slack, "mean-composite", "lgK %d, %d items: mean error of the composite estimate %v over %d streams (standard error %v)", lgK, n, sc/tr, used, se)
	for sd, p := range []float64{.1587, .0228, .00135} {
		lim := p + 6*math.Sqrt(p*(1-p)/tr) + 12/tr
		for o, what := range []string{"in-order", "composite"} {
			t.Check(float64(below[o][sd])/tr <= lim, "miss-low", "lgK %d, %d items: truth below the %s lower bound(%d) in %d of %d streams", lgK, n, what, sd+1, below[o][sd], used)
			t.Check(float64(n) < 0.3*float64(int(1)<<lgK) || float64(above[o][sd])/tr <= lim, "miss-high", "lgK %d, %d items: truth above the %s upper bound(%d) in %d of %d streams", lgK, n, what, sd+1, above[o][sd], used)
		}
	}
}

// h04Occupied: merged sketches whose m occupied registers all hold small values: m is a certain lower bound, the
// composite estimate may be below it.
func h04Occupied(t *T) {
	lgK := 4 + t.Idx%6
	k := 1 << lgK
	m := k*9/16 + 1 + t.IntN(k/8)
	top := 1 + t.Idx/6%2
	u, _ := hll.NewUnion(lgK)
	for x := 0; x < 2; x++ {
		s := hllNew(t, lgK, hllTypes[t.IntN(3)])
		for i := 0; i < m; i++ {
			t.NoErr(craftedHll(t, uint32(i), 1+i*(top-1)/m).feed(s), "update")
		}
		t.NoErr(u.UpdateSketch(s), "merge")
	}
	t.Desc("lgK=%d occupied=%d", lgK, m)
	t.Sig(lgK, m)
	t.NonTrivial()
	n := hllNums(t, u, "num")
	if !hllOccupied(n) || n[2] != float64(m) {
		hllOrder(t, n, "union")
		return
	}
	t.Check(false, "estimate-below-occupied", "lgK %d: %d registers are occupied, so at least that many items were seen, and the lower bounds say so; the estimate is %v", lgK, m, n[0])
}

// hllImage8 is an HLL_8 image of the given registers.
func hllImage8(lgK int, regs []byte) []byte {
	out := make([]byte, 40+len(regs))
	copy(out, []byte{10, 1, 7, byte(lgK), 0, 16, 0, 2 | 2<<2})
	var cnt [64]int
	for _, v := range regs {
		cnt[v]++
	}
	var q0, q1 float64
	for v, n := range cnt {
		if v < 32 {
			q0 += float64(n) * math.Ldexp(1, -v)
		} else {
			q1 += float64(n) * math.Ldexp(1, -v)
		}
	}
	le := binary.LittleEndian
	le.PutUint64(out[8:], math.Float64bits(1))
	le.PutUint64(out[16:], math.Float64bits(q0))
	le.PutUint64(out[24:], math.Float64bits(q1))
	le.PutUint32(out[32:], uint32(cnt[0]))
	copy(out[40:], regs)
	return out
}

// hllBelow is the probability that a register is at most v after n items.
func hllBelow(k, n float64, v int) float64 {
	if v >= 63 {
		return 1
	}
	return math.Exp(n * math.Log1p(-math.Ldexp(1, -v)/k))
}

// hllInverse is the number of items for which the reciprocal of the sum of 2^-register is expected to be 1/q (to second
// order: the mean of the sum, its variance for independent registers, less what the fixed number of items takes away).
func hllInverse(lgK int, q float64) float64 {
	k := math.Ldexp(1, lgK)
	recip := func(n float64) float64 {
		var e, e2, d, prev, prevD float64
		for v := 0; v < 64; v++ {
			l := math.Log1p(-math.Ldexp(1, -v) / k)
			p, pd := math.Exp(n*l), l*math.Exp(n*l)
			if v == 63 {
				p, pd = 1, 0
			}
			e += math.Ldexp(p-prev, -v)
			e2 += math.Ldexp(p-prev, -2*v)
			d += math.Ldexp(pd-prevD, -v)
			prev, prevD = p, pd
		}
		return (1 + ((e2-e*e)/k-n*d*d)/(e*e)) / (e * k)
	}
	lo, hi := 0.0, k
	for recip(hi) < 1/q {
		hi *= 2
	}
	for i := 0; i < 60; i++ {
		if m := (lo + hi) / 2; recip(m) < 1/q {
			lo = m
		} else {
			hi = m
		}
	}
	return (lo + hi) / 2
}

// h04Composite: the answer of a merged sketch is a function of its registers. It is recomputed from them: by counting the empty
// registers where these are many, otherwise by inverting the expectation of the sum of 2^-register.
func h04Composite(t *T) {
	lgK := 4 + t.Idx%18
	k := 1 << lgK
	points := max(2, min(24, (1<<20)/k))
	t.Desc("lgK=%d points=%d", lgK, points)
	t.Sig(lgK, t.Uint64())
	t.NonTrivial()
	for p := 0; p < points; p++ {
		n := float64(k) * 22 * t.Float64()
		switch t.IntN(6) {
		case 0:
			n = float64(k) * 3.5 * t.Float64()
		case 1:
			n = float64(k) * math.Exp(12*t.Float64())
		case 2: // about where the linear estimator hands over
			n = float64(k) * (0.55 + 0.25*t.Float64())
		}
		var cum [64]float64
		for v := range cum {
			cum[v] = hllBelow(float64(k), n, v)
		}
		regs := make([]byte, k)
		shift := t.Float64()
		for i, v := 0, 0; i < k; i++ { // the quantiles of the distribution of a register
			for v < 63 && cum[v] <= (float64(i)+shift)/float64(k) {
				v++
			}
			regs[i] = byte(v)
		}
		if random := t.IntN(2) == 0 && lgK <= 16; random {
			for i := range regs {
				f := t.Float64()
				v := 0
				for v < 63 && cum[v] <= f {
					v++
				}
				regs[i] = byte(v)
			}
		}
		zeros, q := 0, 0.0
		for _, v := range regs {
			if v == 0 {
				zeros++
			}
			q += math.Ldexp(1, -int(v))
		}
		s, err := hll.NewHllSketchFromSlice(hllImage8(lgK, regs), true)
		t.NoErr(err, "image")
		got, err := s.GetCompositeEstimate()
		t.NoErr(err, "estimate")
		inv := hllInverse(lgK, q)
		lin := math.Inf(1)
		if zeros > 0 {
			lin = 0
			for i := k; i > zeros; i-- {
				lin += float64(k) / float64(i)
			}
		}
		isInv := math.Abs(got-inv) <= (1e-4+2.5*math.Ldexp(1, -2*lgK))*inv
		slack := 2e-4 + 2.5*math.Ldexp(1, -2*lgK)
		isLin := math.Abs(got-lin) <= 1e-7*lin
		if zeros == 0 {
			isLin = false
		}
		cross := float64(k) * 0.64 // published crossover points, on the average of the two estimates
		if lgK < 6 {
			cross = float64(k) * []float64{0.718, 0.672}[lgK-4]
		}
		switch avg := (inv + lin) / 2; {
		case zeros == 0 || inv > 3.05*float64(k) || avg > (1+slack)*cross:
			t.Check(isInv, "composite-inverse", "lgK %d: registers with a sum of 2^-register of %v, expected of %v items, are estimated as %v", lgK, q, inv, got)
		case avg < (1-slack)*cross:
			t.Check(isLin, "composite-linear", "lgK %d: %d empty registers, expected of %v items, are estimated as %v", lgK, zeros, lin, got)
		default:
			t.Check(isInv || isLin, "composite-either", "lgK %d: estimated as %v, which is neither %v nor %v", lgK, got, inv, lin)
		}
		t.Ev("estimates recomputed")
		if lgK > 16 && p > 0 {
			continue
		}
		e, err := s.GetEstimate()
		t.NoErr(err, "estimate")
		t.Check(e == got, "composite-merged", "lgK %d: an out-of-order sketch answers %v, its registers say %v", lgK, e, got)
		u, err := hll.NewUnion(lgK)
		t.NoErr(err, "new union")
		t.NoErr(u.UpdateSketch(s), "merge")
		ue, err := u.GetEstimate()
		t.NoErr(err, "estimate")
		t.Check(relEq(ue, got, 1e-9), "composite-union", "lgK %d: a union of one sketch answers %v, the sketch %v", lgK, ue, got)
		c, err := s.CopyAs(hllTypes[t.IntN(3)])
		t.NoErr(err, "copy")
		ce, err := c.GetEstimate()
		t.NoErr(err, "estimate")
		t.Check(relEq(ce, got, 1e-9), "composite-copy", "lgK %d: a copy of another type answers %v, the sketch %v", lgK, ce, got)
	}
}

// h04Coupons: while a sketch holds coupons it answers with the number of items for which that many distinct ones among
// the 2^26 addresses (and their values) are expected; the bounds keep their published distance.
func h04Coupons(t *T) {
	lgK := 8 + t.Idx%14
	limit := (1 << lgK) * 3 / 32 // a set is turned into registers beyond three quarters of K/8
	s := hllNew(t, lgK, hllTypes[t.IntN(3)])
	base := t.Uint64()
	next := 1
	t.Desc("lgK=%d", lgK)
	t.Sig(lgK, base)
	t.NonTrivial()
	seen := map[uint32]bool{}
	for i := 1; i <= limit; i++ {
		v := base + uint64(i)
		if err := s.UpdateUInt64(v); err != nil {
			t.NoErr(err, "update")
		}
		seen[ref.HllCoupon(ref.U64Bytes(v))] = true
		if i < next && i != limit {
			continue
		}
		next = i + 1 + t.IntN(i/4+1)
		if s.GetCurMode() == 2 {
			break
		}
		c := float64(len(seen))
		want := math.Max(c, iconInverse(26, c))
		got, err := s.GetEstimate()
		t.NoErr(err, "estimate")
		t.Check(math.Abs(got-want) <= 1e-3+1e-7*want, "coupon-inverse", "%v coupons are expected of %v items, the estimate is %v", c, want, got)
		for sd := 1; sd <= 3; sd++ {
			l, _ := s.GetLowerBound(sd)
			u, _ := s.GetUpperBound(sd)
			f := float64(sd) * 0.409 / 8192
			t.Check(l >= math.Max(c, got/(1+1.02*f)) && l <= math.Max(c, got/(1+0.98*f)), "coupon-lower-width", "%v coupons estimated as %v: lower bound(%d) %v", c, got, sd, l)
			t.Check(u >= math.Max(c, got/(1-0.98*f)) && u <= math.Max(c, got/(1-1.02*f)), "coupon-upper-width", "%v coupons estimated as %v: upper bound(%d) %v", c, got, sd, u)
		}
		t.Ev("coupon counts inverted")
	}
}
