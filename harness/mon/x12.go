package mon

import (
	"bytes"
	"cmp"
	"errors"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/common"
	qc "github.com/apache/datasketches-go/common/quantiles"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

// X12: the exported building blocks do on their own what they document.

func init() {
	const non = "non-trivial: a building block was driven through its exported interface and compared with a model; distinct by its parameters and contents"
	core.Register("X12", non, core.Family{Name: "view", Quick: 4000, Thorough: 200000, Run: func(t *T) {
		switch t.IntN(3) {
		case 0:
			x12View(t, func() int64 { return t.Int64N(40) - 20 })
		case 1:
			x12View(t, func() float64 { return t.NormFloat64() * math.Exp(20*t.NormFloat64()) })
		default:
			x12View(t, func() float32 { return float32(t.IntN(50)) / 4 })
		}
	}})
	core.Register("X12", non, core.Family{Name: "hashtable", Quick: 3000, Thorough: 100000, Run: x12Table})
	core.Register("X12", non, core.Family{Name: "matrix", Quick: 1500, Thorough: 40000, Run: x12Matrix})
	core.Register("X12", non, core.Family{Name: "common", Quick: 6000, Thorough: 200000, Run: x12Common})
	core.Assume("X12", "sorted views are given ordered quantiles with increasing cumulative weights; hash tables are given hashes below their theta, at the slot their Find returned")
}

func x12View[N qc.Number](t *T, gen func() N) {
	n := 1 + t.IntN(30)
	q := make([]N, n)
	for i := range q {
		q[i] = gen()
	}
	slices.Sort(q)
	cum := make([]int64, n)
	total := int64(0)
	for i := range cum {
		w := int64(1 + t.IntN(4))
		switch t.IntN(6) {
		case 0:
			w = 1 << t.IntN(30)
		case 1:
			w = 2
		}
		total += w
		cum[i] = total
	}
	lo, hi := q[0], q[n-1]
	if t.IntN(2) == 0 && cum[0] > 1 {
		for i := 0; i < 5 && lo == q[0]; i++ {
			lo = min(lo, gen())
		}
	}
	if t.IntN(2) == 0 && cum[n-1]-1 > max(1, func() int64 {
		if n > 1 {
			return cum[n-2]
		}
		return 0
	}()) {
		for i := 0; i < 5 && hi == q[n-1]; i++ {
			hi = max(hi, gen())
		}
	}
	t.Desc("view of %d quantiles, weight %d, extremes %v %v", n, total, lo, hi)
	t.Sig(n, total, lo, hi)
	t.NonTrivial()
	// the model: the extremes take one unit of the weight of their neighbours
	type wv struct {
		v N
		w int64
	}
	var items []wv
	for i := range q {
		w := cum[i]
		if i > 0 {
			w -= cum[i-1]
		}
		items = append(items, wv{q[i], w})
	}
	if lo != q[0] {
		items[0].w--
		items = append([]wv{{lo, 1}}, items...)
	}
	if hi != q[n-1] {
		items[len(items)-1].w--
		items = append(items, wv{hi, 1})
	}
	q0, c0 := slices.Clone(q), slices.Clone(cum)
	v := qc.NewNumericSortedView[N](q, cum, total, hi, lo)
	t.Check(slices.Equal(q, q0) && slices.Equal(cum, c0), "input", "making a view changed its input")
	t.Check(v.N() == total && v.NumRetained() == len(items) && !v.IsEmpty(), "counts", "N %d of %d, retained %d of %d", v.N(), total, v.NumRetained(), len(items))
	a, e1 := v.MinItem()
	b, e2 := v.MaxItem()
	t.Check(e1 == nil && e2 == nil && a == lo && b == hi, "extremes", "extremes %v %v of %v %v", a, b, lo, hi)
	qs, cs := v.Quantiles(), v.CumulativeWeights()
	sum := int64(0)
	for i, x := range items {
		sum += x.w
		t.Check(qs[i] == x.v && cs[i] == sum, "content", "item %d is %v up to %d, expected %v up to %d", i, qs[i], cs[i], x.v, sum)
	}
	qs[0]++
	cs[0] = 99
	it := v.Iterator()
	bad := func(when string) {
		_, a1 := it.Quantile()
		_, a2 := it.Weight()
		_, a3 := it.NaturalRank()
		_, a4 := it.NormalizedRank()
		_, a5 := it.NaturalRankWithCriterion(t.IntN(2) == 0)
		_, a6 := it.NormalizedRankWithCriterion(t.IntN(2) == 0)
		ok := true
		for _, e := range []error{a1, a2, a3, a4, a5, a6} {
			ok = ok && errors.Is(e, qc.ErrIndexOutOfValidRange)
		}
		t.Check(ok, "iterator-range", "an iterator %s: %v %v %v %v %v %v", when, a1, a2, a3, a4, a5, a6)
	}
	bad("before its first item")
	sum = 0
	for i, x := range items {
		t.Check(it.Next(), "iterator", "ended after %d of %d", i, len(items))
		gq, a1 := it.Quantile()
		gw, a2 := it.Weight()
		r1, a3 := it.NaturalRank()
		r2, a4 := it.NaturalRankWithCriterion(false)
		r3, a5 := it.NaturalRankWithCriterion(true)
		f1, a6 := it.NormalizedRank()
		f2, a7 := it.NormalizedRankWithCriterion(false)
		f3, a8 := it.NormalizedRankWithCriterion(true)
		t.NoErr(errors.Join(a1, a2, a3, a4, a5, a6, a7, a8), "iterator")
		tt := float64(total)
		t.Check(gq == x.v && gw == x.w && r1 == sum+x.w && r2 == sum && r3 == r1 && f1 == float64(r1)/tt && f2 == float64(sum)/tt && f3 == f1 && it.N() == total, "iterator",
			"item %d: %v weight %d ranks %d %d %d, %v %v %v of %d; expected %v weight %d after %d of %d", i, gq, gw, r1, r2, r3, f1, f2, f3, it.N(), x.v, x.w, sum, total)
		sum += x.w
	}
	t.Check(!it.Next(), "iterator", "goes on after %d items", len(items))
	bad("after its last item")
	rank := func(x N, incl bool) float64 {
		s := int64(0)
		for _, y := range items {
			if y.v < x || incl && y.v == x {
				s += y.w
			}
		}
		return float64(s) / float64(total)
	}
	ask := []N{lo, hi, lo - 1, hi + 1}
	for i := 0; i < 10; i++ {
		ask = append(ask, gen(), items[t.IntN(len(items))].v)
	}
	for _, x := range ask {
		for _, incl := range []bool{false, true} {
			r, err := v.Rank(x, incl)
			t.Check(err == nil && r == rank(x, incl), "rank", "rank of %v (inclusive %v) %v, %v, expected %v", x, incl, r, err, rank(x, incl))
		}
	}
	sum = 0
	for i, x := range items { // at the very ranks of the items, and in between
		if total <= 1000000 {
			for _, d := range []float64{0, 0.5} {
				r := (float64(sum) + d) / float64(total)
				a, e1 := v.Quantile(r, true)
				b, e2 := v.Quantile(r, false)
				wa, wb := x.v, x.v
				if d == 0 && i > 0 {
					wa = items[i-1].v
				}
				t.Check(e1 == nil && e2 == nil && a == wa && b == wb, "quantile", "quantile of rank %v (weight %v of %d): inclusive %v, expected %v; exclusive %v, expected %v; %v %v", r, float64(sum)+d, total, a, wa, b, wb, e1, e2)
			}
		}
		sum += x.w
	}
	a, e1 = v.Quantile(1, true)
	b, e2 = v.Quantile(1, false)
	t.Check(e1 == nil && e2 == nil && a == hi && b == hi, "quantile", "the quantile of rank 1 is %v, %v", a, b)
	for _, r := range []float64{-1e-9, 1.0000001, math.Inf(1), math.Inf(-1), math.NaN()} {
		_, err := v.Quantile(r, t.IntN(2) == 0)
		t.Check(err != nil, "bad-rank", "rank %v was accepted", r)
	}
	sp := slices.Clone(ask)
	slices.Sort(sp)
	sp = slices.Compact(sp)
	incl := t.IntN(2) == 0
	c, err := v.CDF(sp, incl)
	t.NoErr(err, "cdf")
	p, err := v.PMF(sp, incl)
	t.NoErr(err, "pmf")
	t.Check(len(c) == len(sp)+1 && len(p) == len(c) && c[len(sp)] == 1, "cdf", "%d split points, %d and %d entries, last %v", len(sp), len(c), len(p), c[len(c)-1])
	for i := range c {
		want := c[i]
		if i > 0 {
			want -= c[i-1]
		}
		t.Check((i == len(sp) || c[i] == rank(sp[i], incl)) && p[i] == want, "cdf", "split point %d: %v, mass %v, expected %v", i, c[i], p[i], want)
	}
	for _, s := range [][]N{{lo, lo}, {lo + 1, lo}, {lo, lo + 1, lo}} {
		_, e1 := v.CDF(s, incl)
		_, e2 := v.PMF(s, incl)
		t.Check(e1 != nil && e2 != nil || s[0] < s[1] && len(s) == 2, "bad-splits", "split points %v were accepted", s)
	}
	t.EvN("view items", len(items))
}

func x12Table(t *T) {
	nom := uint8(5 + t.IntN(5))
	rf := theta.ResizeFactor(1 + t.IntN(3))
	if t.IntN(5) == 0 {
		rf = theta.ResizeX1
	}
	seed := []uint64{9001, 1, t.Uint64()}[t.IntN(3)]
	cur := nom + 1
	if rf != theta.ResizeX1 {
		cur = 5 + (nom+1-5)%uint8(rf)
	}
	tb := theta.NewHashtable(cur, nom, rf, 1, theta.MaxTheta, seed, true)
	k := 1 << nom
	in := map[uint64]bool{}
	n := t.IntN(5 * k)
	t.Desc("hash table lgNom %d factor %d, %d inserts", nom, rf, n)
	t.Sig(nom, rf, n, seed)
	t.NonTrivial()
	cluster := t.IntN(3) == 0
	low := t.Uint64() >> 1
	insert := func(tb *theta.Hashtable, in map[uint64]bool, limit uint64) {
		var h uint64
		switch {
		case cluster: // long probe chains
			h = (t.Uint64()>>1)&^0xff | low&0xf
		default:
			var err error
			switch x := t.IntN(1 << 20); t.IntN(4) {
			case 0:
				h, err = tb.HashInt64AndScreen(int64(x))
				t.Check(err != nil || h == hash12(ref.U64Bytes(uint64(x)), seed)>>1, "hash", "hash of %d is %d", x, h)
			case 1:
				h, err = tb.HashInt32AndScreen(int32(x))
			case 2:
				b := []byte{byte(x), byte(x >> 8), 7}
				h, err = tb.HashBytesAndScreen(b)
				t.Check(err != nil || h == hash12(b, seed)>>1, "hash", "hash of %v is %d", b, h)
			default:
				h, err = tb.HashStringAndScreen(string(rune('a'+x%26)) + "key" + string(rune('A'+x/26%26)))
			}
			if errors.Is(err, theta.ErrHashExceedsTheta) {
				t.Ev("screened hashes")
				return
			}
			t.NoErr(err, "hash")
		}
		if h == 0 || h >= limit {
			return
		}
		i, err := tb.Find(h)
		if in[h] {
			return // found or dropped
		}
		t.Check(errors.Is(err, theta.ErrKeyNotFound), "find", "a hash that was not inserted gives %v", err)
		in[h] = true
		tb.Insert(i, h)
	}
	check := func(tb *theta.Hashtable, in map[uint64]bool, exact int) uint64 {
		var found, gone []uint64
		for h := range in {
			i, err := tb.Find(h)
			switch {
			case err == nil:
				found = append(found, h)
			default:
				t.Check(errors.Is(err, theta.ErrKeyNotFound) && i >= 0, "find", "%v", err)
				gone = append(gone, h)
			}
		}
		limit := uint64(math.MaxUint64)
		if len(gone) > 0 {
			limit = slices.Min(gone)
			t.Check(len(found) == 0 || slices.Max(found) < limit, "kept", "hash %d was kept and the smaller %d dropped", slices.Max(found), limit)
			t.Check(len(found) >= k, "kept", "%d of %d hashes kept, with %d nominal", len(found), len(in), k)
		}
		t.Check(exact < 0 || len(found) == min(exact, len(found)+len(gone)), "trim", "%d kept after a trim, nominal %d of %d", len(found), exact, len(in))
		for i := 0; i < 20; i++ {
			h := t.Uint64()>>1 | 1
			if !in[h] {
				_, err := tb.Find(h)
				t.Check(errors.Is(err, theta.ErrKeyNotFound), "find", "a hash that was not inserted: %v", err)
			}
		}
		return limit
	}
	limit := uint64(theta.MaxTheta)
	settle := func() { // when the largest hash is gone, so are all from some point on
		if len(in) <= k {
			return
		}
		top := uint64(0)
		for h := range in {
			top = max(top, h)
		}
		if _, err := tb.Find(top); err == nil {
			return
		}
		limit = min(limit, check(tb, in, -1))
		for h := range in {
			if h >= limit {
				delete(in, h)
			}
		}
		t.Ev("rebuilds")
	}
	for i := 0; i < n; i++ {
		insert(tb, in, limit)
		settle()
	}
	limit = min(limit, check(tb, in, -1))
	c := tb.Copy()
	cin := map[uint64]bool{}
	for h := range in {
		if h < limit {
			cin[h] = true
		}
	}
	ref0 := len(cin)
	switch t.IntN(3) {
	case 0:
		tb.Trim()
		check(tb, cin, k)
		t.Ev("trims")
	case 1:
		tb.Reset()
		for h := range cin {
			_, err := tb.Find(h)
			t.Check(errors.Is(err, theta.ErrKeyNotFound), "reset", "a hash found after a reset: %v", err)
		}
		in2 := map[uint64]bool{}
		for i := 0; i < k/2; i++ {
			insert(tb, in2, theta.MaxTheta)
		}
		check(tb, in2, -1)
		t.Ev("resets")
	default:
		in2 := map[uint64]bool{}
		for h := range cin {
			in2[h] = true
		}
		for i := 0; i < k/4; i++ {
			insert(tb, in2, limit)
		}
	}
	found := 0
	for h := range cin {
		if _, err := c.Find(h); err == nil {
			found++
		}
	}
	t.Check(found == ref0, "copy", "the copy has %d of its %d hashes after the original changed", found, ref0)
	t.EvN("hashes", len(in))
}

func x12Matrix(t *T) {
	lg := 4 + t.IntN(8)
	seed := []uint64{9001, 0, t.Uint64()}[t.IntN(3)]
	m := cpc.NewBitMatrixWithSeed(lg, seed)
	s, err := cpc.NewCpcSketch(lg, seed)
	if err != nil { // the seed has no usable hash
		return
	}
	u, err := cpc.NewCpcUnionSketch(lg, seed)
	t.NoErr(err, "union")
	rounds := 1 + t.IntN(3)
	t.Desc("matrix of lgK %d, %d rounds", lg, rounds)
	for r := 0; r < rounds; r++ {
		if r > 0 && t.IntN(3) == 0 {
			m.Reset()
			t.Check(m.GetNumCoupons() == 0 && cpc.CountCoupons(m.GetMatrix()) == 0 && len(m.GetMatrix()) == 1<<lg, "reset", "%d coupons after a reset", m.GetNumCoupons())
			s, _ = cpc.NewCpcSketch(lg, seed)
			u, _ = cpc.NewCpcUnionSketch(lg, seed)
			t.Ev("resets")
		}
		for i, n := 0, t.IntN(20<<lg); i < n; i++ {
			x := int64(t.Uint64() >> t.IntN(50))
			m.Update(x)
			t.NoErr(s.UpdateInt64(x), "update")
		}
		t.NoErr(u.Update(s), "union")
		want, err := u.GetBitMatrix()
		t.NoErr(err, "matrix")
		t.Check(slices.Equal(want, m.GetMatrix()), "matrix", "the matrix differs from that of a sketch of the same stream")
		pop := 0
		for _, w := range m.GetMatrix() {
			pop += bits.OnesCount64(w)
		}
		t.Check(m.GetNumCoupons() == uint64(pop) && cpc.CountCoupons(m.GetMatrix()) == uint64(pop), "coupons", "%d coupons, counted %d, %d bits", m.GetNumCoupons(), cpc.CountCoupons(m.GetMatrix()), pop)
		t.EvN("coupons", pop)
		t.Sig(lg, seed, pop)
	}
	t.NonTrivial()
}

func x12Common(t *T) {
	t.NonTrivial()
	n := t.IntN(1 << (1 + t.IntN(31)))
	if t.IntN(4) == 0 {
		n = 1<<t.IntN(62) + t.IntN(3) - 1
	}
	if t.IntN(20) == 0 {
		n = []int{-1, 0, math.MinInt, math.MaxInt, math.MaxInt32, 1 << 30, 1<<30 + 1, 1<<30 - 1}[t.IntN(8)]
	}
	want := 1
	for want < n && want < 1<<30 {
		want *= 2
	}
	t.Check(common.CeilingPowerOf2(n) == want, "ceiling", "CeilingPowerOf2(%d) = %d, expected %d", n, common.CeilingPowerOf2(n), want)

	// the series: it grows, by at most a step, and takes about ppb steps for a factor of base
	ppb, base := 1+t.IntN(50), []float64{2, 10, 1.5, math.E}[t.IntN(4)]
	round := t.IntN(2) == 0
	x := math.Exp(20*t.Float64()) - 0.5
	switch t.IntN(10) {
	case 0:
		x = -t.Float64()
	case 1:
		x = float64(1 + t.IntN(60))
	case 2: // a point of the series
		x = 0
		for i := t.IntN(3 * ppb); i >= 0; i-- {
			x = common.PowerSeriesNextDouble(ppb, x, round, base)
		}
	}
	y := common.PowerSeriesNextDouble(ppb, x, round, base)
	step := math.Pow(base, 1/float64(ppb))
	from := math.Max(x, 1)
	t.Check(y > from && (y <= from*step*step*1.0000001 || round && y <= from*step*step+1), "series", "next of %v (%d points in a factor of %v, rounded %v) is %v", x, ppb, base, round, y)
	if round {
		t.Check(y == math.Round(y), "series", "next of %v is %v, not rounded", x, y)
	} else {
		g := math.Log(y) / math.Log(base) * float64(ppb)
		t.Check(math.Abs(g-math.Round(g)) < 1e-6, "series", "next of %v is %v, not a point of the series of %d in %v", x, y, ppb, base)
	}

	cmp12(t, common.ItemSketchLongComparator, func() int64 { return t.Int64N(5) - 2 + []int64{0, math.MaxInt64 - 3, math.MinInt64 + 3}[t.IntN(3)] })
	cmp12(t, common.ItemSketchDoubleComparator, func() float64 {
		return []float64{0, 1, -1, 0.5, math.Inf(1), math.Inf(-1), 5e-324, math.MaxFloat64}[t.IntN(8)]
	})
	cmp12(t, common.ItemSketchStringComparator, func() string { return []string{"", "a", "b", "aa", "ab", "B", "\xff", "\x00", "日"}[t.IntN(9)] })
	i := int64(t.Uint64())
	t.Check(common.ItemSketchLongHasher{}.Hash(i) == hash12(ref.U64Bytes(uint64(i)), 9001), "hasher", "hash of %d", i)
	s := string(bytes.Repeat([]byte{byte(i)}, t.IntN(40))) + "x"
	t.Check(common.ItemSketchStringHasher{}.Hash(s) == hash12([]byte(s), 9001), "hasher", "hash of %q", s)
	if t.IntN(2) == 0 {
		x = x12Doubles[t.IntN(len(x12Doubles))] * []float64{1, -1}[t.IntN(2)]
		if x == 0 {
			x = 0
		}
	}
	t.Check(common.ItemSketchDoubleHasher{}.Hash(x) == hash12(ref.U64Bytes(math.Float64bits(x)), 9001), "hasher", "hash of %v", x)
	t.Sig(n, ppb, base, round, x, i)
	t.Desc("n %d, series %d in %v from %v", n, ppb, base, x)
	t.Ev("helper calls")
}

func cmp12[C cmp.Ordered](t *T, mk func(bool) common.CompareFn[C], gen func() C) {
	less, more := mk(false), mk(true)
	a, b := gen(), gen()
	t.Check(less(a, b) == (a < b) && more(a, b) == (a > b) && !less(a, a) && !more(b, b), "comparator", "%v and %v: %v, reversed %v", a, b, less(a, b), more(a, b))
}

func hash12(b []byte, seed uint64) uint64 {
	h, _ := ref.Murmur128(b, seed)
	return h
}

var x12Doubles = []float64{0, 1, 5e-324, 1e-310, 2.2250738585072014e-308, math.MaxFloat64, math.Inf(1), 0.1, 1 << 53}
