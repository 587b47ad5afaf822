package mon

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"

	"verif/harness/core"
)

func init() {
	core.Register("K01", "model of the fed multiset compared with everything a KLL sketch reports, after updates, merges and resets",
		core.Family{Name: "stream", Quick: 2500, Thorough: 40000, Run: kllRun(k01Stream[int64], k01Stream[float64], k01Stream[string], k01Stream[float32])},
		core.Family{Name: "merge", Quick: 2500, Thorough: 40000, Run: kllRun(k01Merge[int64], k01Merge[float64], k01Merge[string], k01Merge[float32])},
		core.Family{Name: "doubling", Quick: 200, Thorough: 2500, Run: kllRun(k01Double[int64], k01Double[float64], k01Double[string], k01Double[float32])},
		core.Family{Name: "reset", Quick: 400, Thorough: 5000, Run: kllRun(k01Reset[int64], k01Reset[float64], k01Reset[string], k01Reset[float32])},
		core.Family{Name: "bigk", Quick: 16, Thorough: 120, Run: k01BigK})
	core.Register("K02", "every rank, quantile, CDF, PMF and partition answer recomputed from the retained items; questions repeated in other orders",
		core.Family{Name: "queries", Quick: 2500, Thorough: 40000, Run: kllRun(k02Queries[int64], k02Queries[float64], k02Queries[string], k02Queries[float32])},
		core.Family{Name: "order", Quick: 2500, Thorough: 40000, Run: kllRun(k02Order[int64], k02Order[float64], k02Order[string], k02Order[float32])},
		core.Family{Name: "partitions", Quick: 2500, Thorough: 40000, Run: kllRun(k02Partitions[int64], k02Partitions[float64], k02Partitions[string], k02Partitions[float32])},
		core.Family{Name: "huge", Quick: 150, Thorough: 2000, Run: kllRun(k02Huge[int64], k02Huge[float64], k02Huge[string], k02Huge[float32])})
	core.Register("K04", "serialized images decoded and compared item by item with the source, re-serialized, and evolved",
		core.Family{Name: "roundtrip", Quick: 3500, Thorough: 60000, Run: kllRun(k04Round[int64], k04Round[float64], k04Round[string], k04Round[float32])},
		core.Family{Name: "huge", Quick: 100, Thorough: 1500, Run: kllRun(k04Huge[int64], k04Huge[float64], k04Huge[string], k04Huge[float32])})
	core.Assume("K01", "float items are not NaN; strings any bytes")
}

// kllKind is an item type with its order.
type kllKind[C comparable] struct {
	name  string
	less  common.CompareFn[C]
	serde common.ItemSketchSerde[C]
	of    func(int64) C
}

func kllKindOf[C comparable](t *T) *kllKind[C] {
	rev := t.IntN(4) == 0
	var k any
	var z C
	switch any(z).(type) {
	case int64:
		k = &kllKind[int64]{"int64", common.ItemSketchLongComparator(rev), common.ItemSketchLongSerDe{}, func(x int64) int64 { return x }}
	case float64:
		k = &kllKind[float64]{"float64", common.ItemSketchDoubleComparator(rev), common.ItemSketchDoubleSerDe{}, func(x int64) float64 { return float64(x) / 8 }}
	case float32:
		less := ordLess[float32]
		if rev {
			less = ordMore[float32]
		}
		k = &kllKind[float32]{"float32", less, common.ItemSketchFloatSerDe{}, func(x int64) float32 { return float32(x) / 4 }}
	case string:
		mode := t.IntN(3)
		k = &kllKind[string]{"string", common.ItemSketchStringComparator(rev), common.ItemSketchStringSerDe{}, func(x int64) string {
			switch mode {
			case 0:
				return fmt.Sprintf("%016x", uint64(x)+1<<63)
			case 1: // every length, the empty string included
				if x%7 == 0 {
					return ""
				}
				return fmt.Sprintf("%x", x)[:1+int(uint64(x)%5)%len(fmt.Sprintf("%x", x))]
			}
			return string([]byte{byte(x), 0, byte(x >> 8)}) + "é世"
		}}
	}
	kk := k.(*kllKind[C])
	if rev {
		kk.name += "-reversed"
	}
	return kk
}

// kllRun picks the item type of a case.
func kllRun(fs ...func(*T)) func(*T) {
	return func(t *T) { fs[t.Idx%len(fs)](t) }
}

// kllModel is the fed multiset.
type kllModel[C comparable] struct {
	kd       *kllKind[C]
	k, minK  uint16
	m        uint8
	n        uint64
	min, max C
	count    map[C]uint64
	lossy    bool // a merged sketch had already discarded something
}

func kllNew[C comparable](t *T, kd *kllKind[C], k uint16, m uint8) (*kll.ItemsSketch[C], *kllModel[C]) {
	s, err := kll.NewKllItemsSketch[C](k, m, kd.less, kd.serde)
	t.NoErr(err, "new")
	return s, &kllModel[C]{kd: kd, k: k, minK: k, m: m, count: map[C]uint64{}}
}

func (m *kllModel[C]) widen(x C) {
	if m.n == 0 {
		m.min, m.max = x, x
		return
	}
	if m.kd.less(x, m.min) {
		m.min = x
	}
	if m.kd.less(m.max, x) {
		m.max = x
	}
}

func (m *kllModel[C]) add(x C) {
	m.widen(x)
	m.n++
	m.count[x]++
}

func (m *kllModel[C]) merge(o *kllModel[C], oEst bool) {
	if o.n == 0 {
		return
	}
	m.widen(o.min)
	if m.n > 0 {
		m.widen(o.max)
	} else {
		m.min, m.max = o.min, o.max
	}
	m.n += o.n
	for x, c := range o.count {
		m.count[x] += c
	}
	if oEst {
		m.lossy = true
		m.minK = min(m.minK, o.minK)
	}
}

func (m *kllModel[C]) clone() *kllModel[C] {
	c := *m
	c.count = make(map[C]uint64, len(m.count))
	for x, n := range m.count {
		c.count[x] = n
	}
	return &c
}

func kllRetained[C comparable](s *kll.ItemsSketch[C]) []wItem[C] {
	var out []wItem[C]
	for it := s.GetIterator(); it.Next(); {
		out = append(out, wItem[C]{it.GetQuantile(), uint64(it.GetWeight())})
	}
	return out
}

// kllCap is the paper's size limit: level capacities k*(2/3)^depth, not below m.
func kllCap(k uint16, m uint8, levels int) int {
	total := 0
	for d := 0; d < levels; d++ {
		c := float64(k) * math.Pow(2.0/3.0, float64(d))
		total += max(int(m), int(math.Ceil(c)))
	}
	return total
}

// kllInspect compares a sketch with the model.
func kllInspect[C comparable](t *T, s *kll.ItemsSketch[C], m *kllModel[C], key string) []wItem[C] {
	t.Check(s.GetN() == m.n && s.IsEmpty() == (m.n == 0) && s.GetK() == m.k, key+"-n", "N=%d empty=%v k=%d, fed %d with k=%d", s.GetN(), s.IsEmpty(), s.GetK(), m.n, m.k)
	its := kllRetained(s)
	t.Check(int(s.GetNumRetained()) == len(its), key+"-retained", "NumRetained %d, iterator gave %d", s.GetNumRetained(), len(its))
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	if m.n == 0 {
		t.Check(e1 != nil && e2 != nil && len(its) == 0 && !s.IsEstimationMode(), key+"-empty", "empty sketch: min error %v, max error %v, %d items, estimation %v", e1, e2, len(its), s.IsEstimationMode())
		return its
	}
	t.Check(e1 == nil && e2 == nil && mn == m.min && mx == m.max, key+"-minmax", "min %v max %v (errors %v %v), fed %v..%v", mn, mx, e1, e2, m.min, m.max)
	sum, maxw := uint64(0), uint64(1)
	ones := true
	got := map[C]uint64{}
	for _, it := range its {
		if it.w == 0 || it.w&(it.w-1) != 0 || m.count[it.v] == 0 {
			t.Check(false, key+"-item", "retained item %v with weight %d, fed %d times", it.v, it.w, m.count[it.v])
		}
		ones = ones && it.w == 1
		maxw = max(maxw, it.w)
		sum += it.w
		got[it.v]++
	}
	t.Check(sum == m.n, key+"-weights", "weights of %d retained items sum to %d, N=%d", len(its), sum, m.n)
	for x, c := range got {
		if c > m.count[x] {
			t.Check(false, key+"-item", "item %v retained %d times, fed %d times", x, c, m.count[x])
		}
	}
	if m.n <= uint64(m.k) && !m.lossy {
		t.Check(ones && !s.IsEstimationMode(), key+"-exact", "N=%d does not exceed k=%d, yet something was discarded (estimation mode %v)", m.n, m.k, s.IsEstimationMode())
	}
	if ones {
		t.Ev("exact states checked")
	} else {
		t.Check(s.IsEstimationMode(), key+"-mode", "weights above 1, yet not in estimation mode")
		t.Ev("estimation states checked")
	}
	lim := kllCap(m.k, m.m, bits.Len64(maxw))
	t.Check(len(its) <= lim, key+"-size", "%d items retained with top weight %d, the capacity is %d (k=%d m=%d)", len(its), maxw, lim, m.k, m.m)
	f, err := kll.NewKllItemsSketch[C](m.minK, 8, m.kd.less, m.kd.serde)
	t.NoErr(err, "new")
	for _, pmf := range []bool{false, true} {
		t.Check(s.GetNormalizedRankError(pmf) == f.GetNormalizedRankError(pmf), key+"-error", "advertised error %v, of a sketch with k=%d %v", s.GetNormalizedRankError(pmf), m.minK, f.GetNormalizedRankError(pmf))
	}
	return its
}

func kllK(t *T) (uint16, uint8) {
	m := []uint8{8, 8, 8, 2, 4, 6}[t.IntN(6)]
	switch t.IntN(6) {
	case 0:
		return 8 + uint16(t.IntN(3)), m
	case 1:
		return 8 + uint16(t.IntN(50)), m
	case 2:
		return 200, m
	case 3:
		return 1 << (3 + t.IntN(8)), m
	case 4:
		return 20, m
	}
	return 8 + uint16(t.IntN(600)), m
}

func kllSize(t *T, k uint16) int {
	switch t.IntN(7) {
	case 0:
		return t.IntN(3)
	case 1:
		return int(k) - 1 + t.IntN(3)
	case 2:
		return t.IntN(int(k) * 2)
	case 3:
		return t.IntN(int(k) * 8)
	case 4:
		return t.IntN(20000)
	}
	return t.IntN(1500)
}

func kllFeed[C comparable](t *T, s *kll.ItemsSketch[C], m *kllModel[C], n int) string {
	keys, kind := keyStream(t, n)
	for _, x := range keys {
		v := m.kd.of(x)
		s.Update(v)
		m.add(v)
	}
	return kind
}

func k01Stream[C comparable](t *T) {
	kd := kllKindOf[C](t)
	k, mm := kllK(t)
	s, m := kllNew(t, kd, k, mm)
	kllInspect(t, s, m, "fresh")
	kinds := ""
	for i := 1 + t.IntN(4); i > 0; i-- {
		keys, kind := keyStream(t, kllSize(t, k))
		kinds += kind + " "
		every := 1 + t.IntN(300)
		for j, x := range keys {
			v := kd.of(x)
			s.Update(v)
			m.add(v)
			if j%every == 0 && j < 40*every {
				kllInspect(t, s, m, "online")
			}
		}
		if t.IntN(2) == 0 && m.n > 0 { // a query must not disturb later updates
			_, err := s.GetQuantile(t.Float64(), true)
			t.NoErr(err, "quantile-error")
		}
		kllInspect(t, s, m, "streamed")
	}
	t.Desc("%s k=%d m=%d n=%d %s", kd.name, k, mm, m.n, kinds)
	t.Sig(kd.name, k, mm, m.n)
	if m.n > uint64(k) {
		t.NonTrivial()
	}
}

func kllBytes[C comparable](t *T, s *kll.ItemsSketch[C]) []byte {
	b, err := s.ToSlice()
	t.NoErr(err, "serialize")
	return b
}

func kllDecode[C comparable](t *T, b []byte, kd *kllKind[C]) *kll.ItemsSketch[C] {
	d, err := kll.NewKllItemsSketchFromSlice[C](b, kd.less, kd.serde)
	t.NoErr(err, "decode")
	return d
}

func k01Merge[C comparable](t *T) {
	kd := kllKindOf[C](t)
	k, mm := kllK(t)
	same := t.IntN(2) == 0
	n := 2 + t.IntN(5)
	var ss []*kll.ItemsSketch[C]
	var ms []*kllModel[C]
	desc := ""
	for i := 0; i < n; i++ {
		kk := k
		if !same {
			kk, _ = kllK(t)
		}
		s, m := kllNew(t, kd, kk, mm)
		kllFeed(t, s, m, kllSize(t, kk))
		if t.IntN(4) == 0 {
			s = kllDecode(t, kllBytes(t, s), kd)
		}
		ss, ms = append(ss, s), append(ms, m)
		desc += fmt.Sprintf("(k=%d n=%d)", kk, m.n)
	}
	t.Desc("%s m=%d %s", kd.name, mm, desc)
	merges := 0
	for step := 0; step < 2*n; step++ {
		i, j := t.IntN(n), t.IntN(n)
		if i == j {
			continue
		}
		if ms[i].n+ms[j].n > 1<<40 {
			continue
		}
		before, berr := ss[j].GetNormalizedRankError(false), kllRetained(ss[j])
		img := kllBytes(t, ss[j])
		est := ss[j].IsEstimationMode()
		ss[i].Merge(ss[j])
		ms[i].merge(ms[j], est)
		kllInspect(t, ss[i], ms[i], "merged")
		kllInspect(t, ss[j], ms[j], "argument")
		t.Check(slices.Equal(berr, kllRetained(ss[j])) && before == ss[j].GetNormalizedRankError(false) && bytes.Equal(img, kllBytes(t, ss[j])), "argument-changed", "merging changed its argument")
		if t.IntN(2) == 0 { // both go on living separately
			kllFeed(t, ss[i], ms[i], t.IntN(300))
			kllInspect(t, ss[i], ms[i], "evolved")
			t.Check(slices.Equal(berr, kllRetained(ss[j])), "argument-shared", "updating the target changed the argument")
			kllFeed(t, ss[j], ms[j], t.IntN(300))
			kllInspect(t, ss[j], ms[j], "argument-evolved")
			kllInspect(t, ss[i], ms[i], "evolved-twice")
		}
		if ms[j].n > 0 {
			merges++
		}
		t.Ev("merges")
	}
	t.Sig(kd.name, mm, desc)
	if merges > 0 {
		t.NonTrivial()
	}
}

// kllDouble merges a sketch with copies of itself until N is enormous.
func kllDouble[C comparable](t *T, kd *kllKind[C], top int, each func(*kll.ItemsSketch[C], *kllModel[C])) (*kll.ItemsSketch[C], *kllModel[C]) {
	k, mm := kllK(t)
	if t.IntN(2) == 0 {
		k = 8 + uint16(t.IntN(20))
	}
	s, m := kllNew(t, kd, k, mm)
	kllFeed(t, s, m, 1+kllSize(t, k))
	for bits.Len64(m.n) < top {
		o := kllDecode(t, kllBytes(t, s), kd)
		om := m.clone()
		est := o.IsEstimationMode()
		s.Merge(o)
		m.merge(om, est)
		if t.IntN(4) == 0 {
			kllFeed(t, s, m, t.IntN(40))
		}
		if each != nil {
			each(s, m)
		}
	}
	t.Desc("%s k=%d m=%d n=%d", kd.name, k, mm, m.n)
	t.Sig(kd.name, k, mm, m.n)
	t.NonTrivial()
	return s, m
}

func k01Double[C comparable](t *T) {
	kd := kllKindOf[C](t)
	kllDouble(t, kd, 20+t.IntN(43), func(s *kll.ItemsSketch[C], m *kllModel[C]) {
		kllInspect(t, s, m, "doubled")
	})
}

func k01Reset[C comparable](t *T) {
	kd := kllKindOf[C](t)
	k, mm := kllK(t)
	s, m := kllNew(t, kd, k, mm)
	f, fm := kllNew(t, kd, k, mm)
	kllFeed(t, s, m, kllSize(t, k))
	if t.IntN(2) == 0 {
		k2, _ := kllK(t)
		o, om := kllNew(t, kd, k2, mm)
		kllFeed(t, o, om, kllSize(t, k2))
		est := o.IsEstimationMode()
		s.Merge(o)
		m.merge(om, est)
	}
	if m.n > 0 && t.IntN(2) == 0 {
		_, err := s.GetSortedView()
		t.NoErr(err, "view")
	}
	s.Reset()
	kllInspect(t, s, fm, "reset")
	t.Check(s.GetNormalizedRankError(false) == f.GetNormalizedRankError(false), "reset-error", "a reset sketch advertises error %v, a fresh one %v", s.GetNormalizedRankError(false), f.GetNormalizedRankError(false))
	_, err := s.GetRank(kd.of(1), true)
	t.Check(err != nil, "reset-query", "a reset sketch answers rank queries")
	t.Check(bytes.Equal(kllBytes(t, s), kllBytes(t, f)), "reset-bytes", "a reset sketch serializes differently from a fresh one")
	kllFeed(t, s, fm, kllSize(t, k))
	kllInspect(t, s, fm, "refed")
	t.Desc("%s k=%d m=%d n=%d", kd.name, k, mm, m.n)
	t.Sig(kd.name, k, mm, m.n, fm.n)
	t.NonTrivial()
}

// k01BigK uses the largest sizes.
func k01BigK(t *T) {
	kd := kllKindOf[int64](t)
	k := []uint16{65535, 32768, 32767, 40000, 50000, 20000}[t.Idx%6]
	s, m := kllNew(t, kd, k, 8)
	for i := 0; i < 3; i++ {
		kllFeed(t, s, m, int(k)/2+t.IntN(3*int(k)))
		kllInspect(t, s, m, "bigk")
	}
	its := kllRetained(s)
	if m.n >= 3*uint64(k) { // a sketch this size keeps at least k/2 items
		t.Check(len(its) >= int(k)/2, "bigk-thin", "k=%d sketch of %d items retains %d", k, m.n, len(its))
	}
	o, om := kllNew(t, kd, k, 8)
	kllFeed(t, o, om, t.IntN(3*int(k)))
	est := o.IsEstimationMode()
	s.Merge(o)
	m.merge(om, est)
	kllInspect(t, s, m, "bigk-merged")
	t.Desc("k=%d n=%d", k, m.n)
	t.Sig(k, m.n)
	t.NonTrivial()
}

func kllQ[C comparable](s *kll.ItemsSketch[C]) qSketch[C] {
	return qSketch[C]{s.GetRank, s.GetRanks, s.GetQuantile, s.GetQuantiles, s.GetCDF, s.GetPMF}
}

func kllProbe[C comparable](t *T, its []wItem[C], m *kllModel[C]) qProbe[C] {
	p := qProbe[C]{incl: t.IntN(2) == 0}
	xs := []C{m.min, m.max}
	for i := 0; i < 30; i++ {
		if t.IntN(2) == 0 {
			xs = append(xs, its[t.IntN(len(its))].v)
		} else {
			xs = append(xs, m.kd.of(t.Int64N(1<<uint(1+t.IntN(50)))-t.Int64N(1000)))
		}
	}
	p.xs = sortedDistinct(xs, m.kd.less)
	p.rs = []float64{0, 1, 0.5, 1e-18, math.Nextafter(1, 0)}
	q := newQOracle(its, m.kd.less)
	for i := 0; i < 30; i++ {
		if t.IntN(2) == 0 {
			p.rs = append(p.rs, t.Float64())
		} else {
			p.rs = append(p.rs, float64(q.cum[t.IntN(len(q.cum))])/float64(q.n))
		}
	}
	return p
}

func kllBuild[C comparable](t *T, kd *kllKind[C]) (*kll.ItemsSketch[C], *kllModel[C]) {
	k, mm := kllK(t)
	s, m := kllNew(t, kd, k, mm)
	kllFeed(t, s, m, 1+kllSize(t, k))
	if t.IntN(2) == 0 {
		k2, _ := kllK(t)
		o, om := kllNew(t, kd, k2, mm)
		kllFeed(t, o, om, kllSize(t, k2))
		est := o.IsEstimationMode()
		s.Merge(o)
		m.merge(om, est)
	}
	if t.IntN(3) == 0 {
		s = kllDecode(t, kllBytes(t, s), kd)
	}
	t.Desc("%s k=%d m=%d n=%d", kd.name, k, mm, m.n)
	t.Sig(kd.name, k, mm, m.n)
	if m.n > 1 {
		t.NonTrivial()
	}
	return s, m
}

func k02Queries[C comparable](t *T) {
	s, m := kllBuild(t, kllKindOf[C](t))
	for round := 0; round < 3; round++ {
		its := kllRetained(s)
		q := newQOracle(its, m.kd.less)
		p := kllProbe(t, its, m)
		qCheck(t, q, kllQ(s), p)
		for i := 0; i < 10; i++ { // quantile undoes rank on retained items
			x := its[t.IntN(len(its))].v
			for _, incl := range []bool{true, false} {
				r, err := s.GetRank(x, incl)
				t.NoErr(err, "rank-error")
				v, err := s.GetQuantile(r, incl)
				t.NoErr(err, "quantile-error")
				t.Check(v == x, "inverse", "rank(%v)=%v inclusive=%v, quantile of that is %v", x, r, incl, v)
			}
		}
		kllViewCheck(t, s, m, q)
		kllBad(t, s, m)
		// the cached view must follow
		switch t.IntN(3) {
		case 0:
			kllFeed(t, s, m, t.IntN(100))
		case 1:
			kllFeed(t, s, m, t.IntN(3))
		case 2:
			k2, _ := kllK(t)
			o, om := kllNew(t, m.kd, []uint16{m.k, k2}[t.IntN(2)], m.m)
			kllFeed(t, o, om, []int{t.IntN(3), kllSize(t, m.k)}[t.IntN(2)])
			est := o.IsEstimationMode()
			s.Merge(o)
			m.merge(om, est)
			t.Ev("merges between queries")
		}
	}
}

// kllBad checks that meaningless questions are refused.
func kllBad[C comparable](t *T, s *kll.ItemsSketch[C], m *kllModel[C]) {
	for _, r := range []float64{-1e-9, 1.0000001, math.Inf(1), math.Inf(-1), math.NaN()} {
		_, err := s.GetQuantile(r, true)
		t.Check(err != nil, "bad-rank", "rank %v was accepted", r)
		_, err = s.GetQuantiles([]float64{0.5, r}, true)
		t.Check(err != nil, "bad-rank", "rank %v was accepted in a list", r)
	}
	a, b := m.min, m.max
	_, err := s.GetCDF([]C{a, a}, true)
	t.Check(err != nil, "bad-splits", "repeated split points were accepted")
	if a != b {
		_, err = s.GetPMF([]C{b, a}, true)
		t.Check(err != nil, "bad-splits", "decreasing split points were accepted")
	}
}

func kllViewCheck[C comparable](t *T, s *kll.ItemsSketch[C], m *kllModel[C], q *qOracle[C]) {
	v, err := s.GetSortedView()
	t.NoErr(err, "view")
	t.Check(v.GetNumRetained() == len(q.items), "view-size", "view holds %d items, sketch %d", v.GetNumRetained(), len(q.items))
	i, cum := 0, uint64(0)
	seen := map[C]uint64{}
	for it := v.Iterator(); it.Next(); i++ {
		w := uint64(it.GetWeight())
		seen[it.GetQuantile()] += w
		ok := !m.kd.less(it.GetQuantile(), q.items[i].v) && !m.kd.less(q.items[i].v, it.GetQuantile()) &&
			it.GetNaturalRank(false) == int64(cum) && it.GetNaturalRank(true) == int64(cum+w) &&
			it.GetNormalizedRank(true) == float64(cum+w)/float64(q.n) && it.GetNormalizedRank(false) == float64(cum)/float64(q.n)
		if !ok {
			t.Check(false, "view-item", "view item %d is %v with weight %d and ranks %d..%d; retained %v, running weight %d", i, it.GetQuantile(), w, it.GetNaturalRank(false), it.GetNaturalRank(true), q.items[i].v, cum)
		}
		cum += w
	}
	t.Check(i == len(q.items) && cum == m.n, "view-weights", "view lists %d items of total weight %d, N=%d", i, cum, m.n)
	for _, it := range q.items {
		seen[it.v] -= it.w
	}
	for x, w := range seen {
		t.Check(w == 0, "view-weight", "the view's weight of %v is not the retained one", x)
	}
}

// kllAnyQuery asks something whose answer is not looked at.
func kllAnyQuery[C comparable](t *T, s *kll.ItemsSketch[C], its []wItem[C], m *kllModel[C]) string {
	p := kllProbe(t, its, m)
	var err error
	name := ""
	switch t.IntN(9) {
	case 0:
		name = "GetPartitionBoundaries"
		_, err = s.GetPartitionBoundaries(1+t.IntN(20), p.incl)
	case 1:
		name = "GetSortedView"
		var v *kll.ItemsSketchSortedView[C]
		v, err = s.GetSortedView()
		if err == nil {
			for it := v.Iterator(); it.Next(); {
			}
		}
	case 2:
		name = "ToSlice"
		_, err = s.ToSlice()
	case 3:
		name = "GetCDF"
		_, err = s.GetCDF(p.xs, p.incl)
	case 4:
		name = "GetPMF"
		_, err = s.GetPMF(p.xs, p.incl)
	case 5:
		name = "GetQuantiles"
		_, err = s.GetQuantiles(p.rs, p.incl)
	case 6:
		name = "GetRanks"
		_, err = s.GetRanks(p.xs, p.incl)
	case 7:
		name = "GetTotalItemsArray"
		a := s.GetTotalItemsArray()
		var z C
		for i := range a {
			a[i] = z
		}
	case 8:
		name = "being merged elsewhere"
		o, _ := kllNew(t, m.kd, m.k, m.m)
		o.Merge(s)
	}
	t.NoErr(err, "any-query")
	return name
}

func k02Order[C comparable](t *T) {
	s, m := kllBuild(t, kllKindOf[C](t))
	its := kllRetained(s)
	p := kllProbe(t, its, m)
	img := kllBytes(t, s)
	first := p.ask(t, kllQ(s))
	q := newQOracle(its, m.kd.less)
	for i := 0; i < 12; i++ {
		name := kllAnyQuery(t, s, its, m)
		again := p.ask(t, kllQ(s))
		t.Check(again == first, "unstable", "the same questions have other answers after %s", name)
		t.Ev("questions repeated after " + name)
	}
	qCheck(t, q, kllQ(s), p)
	kllViewCheck(t, s, m, q)
	t.Check(bytes.Equal(img, kllBytes(t, s)), "query-writes", "queries changed the serialized sketch")
	kllInspect(t, s, m, "queried")
}

func k02Partitions[C comparable](t *T) {
	s, m := kllBuild(t, kllKindOf[C](t))
	its := kllRetained(s)
	q := newQOracle(its, m.kd.less)
	parts := 1 + t.IntN(40)
	incl := t.IntN(2) == 0
	pb, err := s.GetPartitionBoundaries(parts, incl)
	t.NoErr(err, "partitions")
	b := pb.GetBoundaries()
	t.Check(len(b) == parts+1, "partition-count", "%d partitions gave %d boundaries", parts, len(b))
	t.Check(b[0] == m.min && b[parts] == m.max, "partition-ends", "boundaries run %v..%v, the stream %v..%v", b[0], b[parts], m.min, m.max)
	first := float64(q.items[0].w) / float64(q.n)
	for i := 1; i < parts; i++ {
		t.Check(!m.kd.less(b[i], b[i-1]), "partition-order", "boundary %d %v precedes %v", i, b[i], b[i-1])
		r := float64(i) / float64(parts)
		lo, hi := q.rank(b[i], false), q.rank(b[i], true)
		if b[i] == m.max {
			lo, hi = min(lo, q.rank(q.items[len(q.items)-1].v, false)), 1
		}
		if b[i] == m.min {
			lo, hi = 0, max(hi, q.rank(q.items[0].v, true))
		}
		t.Check(lo <= r+first+1e-9 && hi >= r-first-1e-9, "partition-rank", "boundary %d of %d is %v with ranks %v..%v (first weight %v)", i, parts, b[i], lo, hi, first)
	}
	_, err = s.GetPartitionBoundaries(0, incl)
	t.Check(err != nil, "partition-zero", "zero partitions were accepted")
	t.EvN("boundaries checked", parts+1)
	qCheck(t, q, kllQ(s), kllProbe(t, its, m))
}

func k02Huge[C comparable](t *T) {
	kd := kllKindOf[C](t)
	s, m := kllDouble(t, kd, 25+t.IntN(36), nil)
	its := kllRetained(s)
	q := newQOracle(its, m.kd.less)
	for i := 0; i < 3; i++ {
		qCheck(t, q, kllQ(s), kllProbe(t, its, m))
	}
	kllViewCheck(t, s, m, q)
}

func k04Compare[C comparable](t *T, s *kll.ItemsSketch[C], m *kllModel[C], evolve bool) {
	img := kllBytes(t, s)
	sz, err := s.GetSerializedSizeBytes()
	t.NoErr(err, "size")
	t.Check(sz == len(img), "size", "GetSerializedSizeBytes %d, %d bytes written", sz, len(img))
	t.Check(bytes.Equal(img, kllBytes(t, s)), "stable", "serializing twice gives different bytes")
	// the caller's buffer may be longer than the image and may be reused
	buf := append(slices.Clone(img), make([]byte, t.IntN(3)*8)...)
	d := kllDecode(t, buf, m.kd)
	for i := range buf {
		buf[i] = 0xa5
	}
	its := kllInspect(t, d, m, "decoded")
	t.Check(slices.Equal(its, kllRetained(s)), "items", "the decoded sketch holds other items, weights or order")
	t.Check(d.IsEstimationMode() == s.IsEstimationMode() && d.GetNumRetained() == s.GetNumRetained(), "mode", "estimation mode %v -> %v, retained %d -> %d", s.IsEstimationMode(), d.IsEstimationMode(), s.GetNumRetained(), d.GetNumRetained())
	t.Check(bytes.Equal(img, kllBytes(t, d)), "bytes", "the decoded sketch serializes differently")
	if m.n > 0 {
		p := kllProbe(t, its, m)
		t.Check(p.ask(t, kllQ(d)) == p.ask(t, kllQ(s)), "answers", "the decoded sketch answers differently")
		qCheck(t, newQOracle(its, m.kd.less), kllQ(d), p)
	}
	t.Ev("round trips")
	if !evolve {
		return
	}
	dm := m.clone()
	if t.IntN(2) == 0 {
		k2, _ := kllK(t)
		o, om := kllNew(t, m.kd, k2, m.m)
		kllFeed(t, o, om, kllSize(t, k2))
		est := o.IsEstimationMode()
		d.Merge(o)
		dm.merge(om, est)
		kllInspect(t, d, dm, "decoded-merged")
	}
	kllFeed(t, d, dm, t.IntN(4*int(m.k)))
	kllInspect(t, d, dm, "decoded-updated")
	kllInspect(t, s, m, "source")
	if t.IntN(2) == 0 {
		k2, _ := kllK(t)
		o, om := kllNew(t, m.kd, k2, m.m)
		kllFeed(t, o, om, kllSize(t, k2))
		est := d.IsEstimationMode()
		o.Merge(d)
		om.merge(dm, est)
		kllInspect(t, o, om, "merged-decoded")
	}
	k04Compare(t, d, dm, false)
}

func k04Round[C comparable](t *T) {
	kd := kllKindOf[C](t)
	if t.IntN(12) == 0 {
		k, mm := kllK(t)
		s, m := kllNew(t, kd, k, mm)
		if t.IntN(2) == 0 {
			kllFeed(t, s, m, 1)
		}
		k04Compare(t, s, m, true)
		t.Sig(kd.name, k, mm, m.n)
		return
	}
	s, m := kllBuild(t, kd)
	k04Compare(t, s, m, true)
}

func k04Huge[C comparable](t *T) {
	kd := kllKindOf[C](t)
	s, m := kllDouble(t, kd, 30+t.IntN(33), nil)
	k04Compare(t, s, m, true)
}
