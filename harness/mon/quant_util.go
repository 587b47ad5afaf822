package mon

import (
	"cmp"
	"fmt"
	"math"
	"math/big"
	"slices"
	"strings"
)

// wItem is a retained item with its weight.
type wItem[C comparable] struct {
	v C
	w uint64
}

// qOracle answers rank and quantile questions from the retained items alone.
type qOracle[C comparable] struct {
	items []wItem[C] // sorted
	cum   []uint64
	n     uint64
	less  func(a, b C) bool
}

func newQOracle[C comparable](items []wItem[C], less func(a, b C) bool) *qOracle[C] {
	its := slices.Clone(items)
	slices.SortStableFunc(its, func(a, b wItem[C]) int {
		if less(a.v, b.v) {
			return -1
		}
		if less(b.v, a.v) {
			return 1
		}
		return 0
	})
	q := &qOracle[C]{items: its, less: less}
	for _, it := range its {
		q.n += it.w
		q.cum = append(q.cum, q.n)
	}
	return q
}

// weight of the items below x (or not above x when inclusive).
func (q *qOracle[C]) weight(x C, inclusive bool) uint64 {
	i, _ := slices.BinarySearchFunc(q.items, x, func(it wItem[C], x C) int {
		if q.less(it.v, x) || inclusive && !q.less(x, it.v) {
			return -1
		}
		return 1
	})
	if i == 0 {
		return 0
	}
	return q.cum[i-1]
}

// rank is the normalized rank of x.
func (q *qOracle[C]) rank(x C, inclusive bool) float64 {
	return float64(q.weight(x, inclusive)) / float64(q.n)
}

// quantileRange gives the indexes of the first and last retained item that are
// right answers for rank r, allowing the natural rank to be off by its own
// rounding (1e-7 of an item, or a few ulps of r*n).
func (q *qOracle[C]) quantileRange(r float64, inclusive bool) (int, int) {
	nat := new(big.Float).SetPrec(200).Mul(new(big.Float).SetPrec(200).SetFloat64(r), new(big.Float).SetPrec(200).SetUint64(q.n))
	f, _ := nat.Float64()
	tol := max(2e-7, f*1e-15)
	idx := func(d float64) int {
		x := new(big.Float).SetPrec(200).Add(nat, big.NewFloat(d))
		if x.Sign() < 0 {
			x.SetInt64(0)
		}
		fl, _ := x.Int(nil)
		v := fl.Uint64()
		if inclusive { // smallest i with cum >= x, i.e. cum >= ceil(x)
			if x.Cmp(new(big.Float).SetInt(fl)) > 0 {
				v++
			}
			i, _ := slices.BinarySearch(q.cum, v)
			return min(i, len(q.cum)-1)
		}
		// smallest i with cum > x
		i, _ := slices.BinarySearch(q.cum, v+1)
		return min(i, len(q.cum)-1)
	}
	return idx(-tol), idx(tol)
}

// qSketch is what the common quantile monitor needs from a sketch.
type qSketch[C comparable] struct {
	rank     func(C, bool) (float64, error)
	ranks    func([]C, bool) ([]float64, error)
	quantile func(float64, bool) (C, error)
	quants   func([]float64, bool) ([]C, error)
	cdf      func([]C, bool) ([]float64, error)
	pmf      func([]C, bool) ([]float64, error)
}

// qProbe is one round of questions, kept so that it can be asked again.
type qProbe[C comparable] struct {
	xs   []C // sorted, distinct
	rs   []float64
	incl bool
}

// ask asks every question and returns the answers in a comparable form.
func (p qProbe[C]) ask(t *T, s qSketch[C]) string {
	var b strings.Builder
	for _, x := range p.xs {
		r, err := s.rank(x, p.incl)
		t.NoErr(err, "rank-error")
		fmt.Fprintf(&b, "%x,", math.Float64bits(r))
	}
	for _, r := range p.rs {
		v, err := s.quantile(r, p.incl)
		t.NoErr(err, "quantile-error")
		fmt.Fprintf(&b, "%v,", v)
	}
	c, err := s.cdf(p.xs, p.incl)
	t.NoErr(err, "cdf-error")
	m, err := s.pmf(p.xs, p.incl)
	t.NoErr(err, "pmf-error")
	fmt.Fprint(&b, c, m)
	return b.String()
}

func sortedDistinct[C comparable](xs []C, less func(a, b C) bool) []C {
	xs = slices.Clone(xs)
	slices.SortFunc(xs, func(a, b C) int {
		if less(a, b) {
			return -1
		}
		if less(b, a) {
			return 1
		}
		return 0
	})
	return slices.Compact(xs)
}

// qCheck compares every answer with the oracle.
func qCheck[C comparable](t *T, q *qOracle[C], s qSketch[C], p qProbe[C]) {
	last := 0.0
	for _, x := range p.xs {
		r, err := s.rank(x, p.incl)
		t.NoErr(err, "rank-error")
		want := q.rank(x, p.incl)
		t.Check(r == want, "rank", "rank(%v, inclusive=%v) = %v, the retained weight gives %v (%d of %d)", x, p.incl, r, want, q.weight(x, p.incl), q.n)
		t.Check(r >= last && r >= 0 && r <= 1, "rank-monotone", "rank(%v)=%v after %v", x, r, last)
		last = r
		if p.incl {
			lo, err := s.rank(x, false)
			t.NoErr(err, "rank-error")
			t.Check(lo <= r, "rank-criteria", "exclusive rank %v above inclusive rank %v of %v", lo, r, x)
		}
	}
	if s.ranks != nil {
		rs, err := s.ranks(p.xs, p.incl)
		t.NoErr(err, "ranks-error")
		t.Check(len(rs) == len(p.xs), "ranks", "%d ranks for %d items", len(rs), len(p.xs))
		for i, r := range rs {
			t.Check(r == q.rank(p.xs[i], p.incl), "ranks", "ranks[%d]=%v for %v", i, r, p.xs[i])
		}
	}
	var prev C
	rs := slices.Clone(p.rs)
	slices.Sort(rs)
	for i, r := range rs {
		v, err := s.quantile(r, p.incl)
		t.NoErr(err, "quantile-error")
		lo, hi := q.quantileRange(r, p.incl)
		in := !q.less(v, q.items[lo].v) && !q.less(q.items[hi].v, v)
		t.Check(in, "quantile", "quantile(%v, inclusive=%v) = %v, expected an item in [%v,%v] (positions %d..%d of %d, n=%d)", r, p.incl, v, q.items[lo].v, q.items[hi].v, lo, hi, len(q.items), q.n)
		_, ret := slices.BinarySearchFunc(q.items, v, func(it wItem[C], x C) int {
			if q.less(it.v, x) {
				return -1
			}
			if q.less(x, it.v) {
				return 1
			}
			return 0
		})
		t.Check(ret, "quantile-retained", "quantile(%v)=%v is not retained", r, v)
		if i > 0 {
			t.Check(!q.less(v, prev), "quantile-monotone", "quantile(%v)=%v below quantile(%v)=%v", r, v, rs[i-1], prev)
		}
		prev = v
	}
	if s.quants != nil {
		vs, err := s.quants(p.rs, p.incl)
		t.NoErr(err, "quantiles-error")
		t.Check(len(vs) == len(p.rs), "quantiles", "%d quantiles for %d ranks", len(vs), len(p.rs))
		for i, v := range vs {
			o, err := s.quantile(p.rs[i], p.incl)
			t.NoErr(err, "quantile-error")
			t.Check(v == o, "quantiles", "quantiles[%d]=%v, quantile(%v)=%v", i, v, p.rs[i], o)
		}
	}
	c, err := s.cdf(p.xs, p.incl)
	t.NoErr(err, "cdf-error")
	m, err := s.pmf(p.xs, p.incl)
	t.NoErr(err, "pmf-error")
	t.Check(len(c) == len(p.xs)+1 && len(m) == len(c), "cdf-length", "%d split points gave %d CDF and %d PMF entries", len(p.xs), len(c), len(m))
	t.Check(c[len(c)-1] == 1, "cdf-end", "CDF ends at %v", c[len(c)-1])
	sum := 0.0
	for i := range c {
		if i < len(p.xs) {
			t.Check(c[i] == q.rank(p.xs[i], p.incl), "cdf", "CDF[%d]=%v, rank of %v is %v", i, c[i], p.xs[i], q.rank(p.xs[i], p.incl))
		}
		d := c[i]
		if i > 0 {
			d -= c[i-1]
		}
		t.Check(m[i] == d && m[i] >= 0, "pmf", "PMF[%d]=%v, the CDF differs by %v", i, m[i], d)
		sum += m[i]
	}
	t.Check(math.Abs(sum-1) < 1e-9, "pmf-sum", "PMF sums to %v", sum)
	t.EvN("answers checked", 2*len(p.xs)+len(p.rs))
}

// keyStream gives n keys in one of several arrival orders.
func keyStream(t *T, n int) ([]int64, string) {
	out := make([]int64, n)
	kind := t.IntN(9)
	switch kind {
	case 0:
		for i := range out {
			out[i] = int64(t.Uint64() >> 12)
		}
		return out, "wide"
	case 1:
		d := 1 + t.Int64N(20)
		for i := range out {
			out[i] = t.Int64N(d)
		}
		return out, "duplicates"
	case 2:
		for i := range out {
			out[i] = int64(i)
		}
		return out, "sorted"
	case 3:
		for i := range out {
			out[i] = int64(n - i)
		}
		return out, "reversed"
	case 4:
		for i := range out {
			out[i] = int64(i / 2)
			if i%2 == 1 {
				out[i] = int64(n - i/2)
			}
		}
		return out, "zigzag"
	case 5:
		b := 1 + t.IntN(50)
		for i := range out {
			out[i] = int64((i%b)*1000000 + i/b)
		}
		return out, "blocks"
	case 6:
		c := t.Int64N(100)
		for i := range out {
			out[i] = c
		}
		return out, "constant"
	case 7:
		for i := range out {
			out[i] = int64(i) * 3
		}
		t.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out, "shuffled"
	}
	for i := range out {
		out[i] = int64(math.Exp(t.Float64() * 30))
		if t.IntN(2) == 0 {
			out[i] = -out[i]
		}
	}
	return out, "skewed"
}

func ordLess[C cmp.Ordered](a, b C) bool { return a < b }
func ordMore[C cmp.Ordered](a, b C) bool { return a > b }
