package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/common"
	fq "github.com/apache/datasketches-go/frequencies"

	"verif/harness/core"
)

func init() {
	core.Register("F01", "exact counts of the fed stream compared with the bounds of every item of the stream and of items never fed",
		core.Family{Name: "stream", Quick: 12000, Thorough: 50000, Run: fqRun(f01Stream[int64], f01Stream[int64], f01Stream[string], f01Stream[float64])},
		core.Family{Name: "merge", Quick: 12000, Thorough: 50000, Run: fqRun(f01Merge[int64], f01Merge[int64], f01Merge[string], f01Merge[float64])},
		core.Family{Name: "large", Quick: 64, Thorough: 300, Run: fqRun(f01Large[int64], f01Large[int64], f01Large[string], f01Large[float64])})
	core.Register("F02", "rows of both reports compared with exact counts and with single queries, over thresholds around the interesting counts",
		core.Family{Name: "rows", Quick: 12000, Thorough: 80000, Run: fqRun(f02Rows[int64], f02Rows[int64], f02Rows[string], f02Rows[float64])})
	core.Register("F03", "images read by an independent parser and by the library, compared answer by answer and evolved",
		core.Family{Name: "roundtrip", Quick: 20000, Thorough: 80000, Run: fqRun(f03Round[int64], f03Round[int64], f03Round[string], f03Round[float64])},
		core.Family{Name: "text", Quick: 8000, Thorough: 30000, Run: f03Text})
	core.Assume("F01", "weights sum to less than 2^63", "float items are not NaN", "no thousand items are chosen to collide in the fixed hash function")
}

type fqRow[C comparable] struct {
	item        C
	est, ub, lb int64
}

type fqCommon[C comparable] interface {
	Update(C) error
	UpdateMany(C, int64) error
	GetEstimate(C) (int64, error)
	GetLowerBound(C) (int64, error)
	GetUpperBound(C) (int64, error)
	GetMaximumError() int64
	GetStreamLength() int64
	GetNumActiveItems() int
	GetCurrentMapCapacity() int
	GetMaximumMapCapacity() int
	IsEmpty() bool
	String() string
	ToString() (string, error)
}

type fqBox[C comparable] struct {
	fqCommon[C]
	merge func(o *fqBox[C]) error
	rows  func(thr int64, given, positives bool) ([]fqRow[C], error)
	image func() ([]byte, error)
	reset func() error

	// the model
	truth   map[C]int64
	keys    []C
	total   int64
	size    int // map size
	minSize int // smallest map size of anything merged in
	exact   bool
}

type fqKind[C comparable] struct {
	name   string
	make   func(lgMax, lgCur int) (fqCommon[C], error)
	decode func(b []byte) (fqCommon[C], error)
	wrap   func(s fqCommon[C]) *fqBox[C]
	key    func(i int) C
	parse  func(t *T, b []byte, n int) []C
	serde  bool
}

func fqMix(i int) uint64 {
	x := uint64(i) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

func fqLongKey(i int) int64 {
	switch i {
	case 0:
		return 0
	case 1:
		return math.MinInt64
	case 2:
		return math.MaxInt64
	case 3:
		return -1
	}
	if i%3 == 0 {
		return int64(i)
	}
	if i%3 == 1 {
		return -int64(i)
	}
	return int64(fqMix(i))
}

func fqLongs() *fqKind[int64] {
	k := &fqKind[int64]{name: "longs", key: fqLongKey}
	k.make = func(a, b int) (fqCommon[int64], error) { return fq.NewLongsSketch(a, b) }
	k.decode = func(b []byte) (fqCommon[int64], error) { return fq.NewLongsSketchFromSlice(b) }
	k.parse = func(t *T, b []byte, n int) []int64 {
		t.Check(len(b) == 8*n, "image", "%d bytes for %d items", len(b), n)
		out := make([]int64, n)
		for i := range out {
			out[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
		}
		return out
	}
	k.wrap = func(c fqCommon[int64]) *fqBox[int64] {
		s := c.(*fq.LongsSketch)
		x := &fqBox[int64]{fqCommon: s, truth: map[int64]int64{}, exact: true}
		x.merge = func(o *fqBox[int64]) error {
			r, err := s.Merge(o.fqCommon.(*fq.LongsSketch))
			if err == nil && r != s {
				return fmt.Errorf("merge returned another sketch")
			}
			return err
		}
		x.image = func() ([]byte, error) { return s.ToSlice(), nil }
		x.reset = func() error { s.Reset(); return nil }
		x.rows = func(thr int64, given, positives bool) ([]fqRow[int64], error) {
			mode := fq.ErrorTypeEnum.NoFalseNegatives
			if positives {
				mode = fq.ErrorTypeEnum.NoFalsePositives
			}
			rs, err := s.GetFrequentItems(mode)
			if given {
				rs, err = s.GetFrequentItemsWithThreshold(thr, mode)
			}
			var out []fqRow[int64]
			for _, r := range rs {
				_ = r.String()
				out = append(out, fqRow[int64]{r.GetItem(), r.GetEstimate(), r.GetUpperBound(), r.GetLowerBound()})
			}
			return out, err
		}
		return x
	}
	return k
}

func fqItems[C comparable](name string, h common.ItemSketchHasher[C], sd common.ItemSketchSerde[C], key func(int) C, parse func(t *T, b []byte, n int) []C) *fqKind[C] {
	k := &fqKind[C]{name: name, key: key, parse: parse}
	k.make = func(a, b int) (fqCommon[C], error) { return fq.NewFrequencyItemsSketch[C](a, b, h, sd) }
	k.decode = func(b []byte) (fqCommon[C], error) { return fq.NewFrequencyItemsSketchFromSlice[C](b, h, sd) }
	k.wrap = func(c fqCommon[C]) *fqBox[C] {
		s := c.(*fq.ItemsSketch[C])
		x := &fqBox[C]{fqCommon: s, truth: map[C]int64{}, exact: true}
		x.merge = func(o *fqBox[C]) error {
			r, err := s.Merge(o.fqCommon.(*fq.ItemsSketch[C]))
			if err == nil && r != s {
				return fmt.Errorf("merge returned another sketch")
			}
			return err
		}
		x.image = s.ToSlice
		x.reset = s.Reset
		x.rows = func(thr int64, given, positives bool) ([]fqRow[C], error) {
			mode := fq.ErrorTypeEnum.NoFalseNegatives
			if positives {
				mode = fq.ErrorTypeEnum.NoFalsePositives
			}
			rs, err := s.GetFrequentItems(mode)
			if given {
				rs, err = s.GetFrequentItemsWithThreshold(thr, mode)
			}
			var out []fqRow[C]
			for _, r := range rs {
				_ = r.String()
				out = append(out, fqRow[C]{r.GetItem(), r.GetEstimate(), r.GetUpperBound(), r.GetLowerBound()})
			}
			return out, err
		}
		return x
	}
	return k
}

func fqStringKey(i int) string {
	switch i {
	case 0:
		return ""
	case 1:
		return "\x00"
	case 2:
		return "абв\u5fb5"
	case 3:
		return strings.Repeat("long", 200)
	case 4:
		return "\xff\xfe" // not UTF-8
	case 5:
		return ","
	}
	return fmt.Sprintf("key%d", i)
}

func fqFloatKey(i int) float64 {
	switch i {
	case 0:
		return 0
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.SmallestNonzeroFloat64
	case 4:
		return -math.MaxFloat64
	}
	return (float64(i) - 1000) / 7
}

func fqStrings() *fqKind[string] {
	return fqItems[string]("strings", common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}, fqStringKey, func(t *T, b []byte, n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			t.Check(len(b) >= 4, "image", "image ends before string %d", i)
			l := int(binary.LittleEndian.Uint32(b))
			t.Check(len(b) >= 4+l, "image", "image ends inside string %d", i)
			out = append(out, string(b[4:4+l]))
			b = b[4+l:]
		}
		t.Check(len(b) == 0, "image", "%d bytes after the last string", len(b))
		return out
	})
}

func fqDoubles() *fqKind[float64] {
	return fqItems[float64]("doubles", common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{}, fqFloatKey, func(t *T, b []byte, n int) []float64 {
		t.Check(len(b) == 8*n, "image", "%d bytes for %d items", len(b), n)
		out := make([]float64, n)
		for i := range out {
			out[i] = math.Float64frombits(binary.LittleEndian.Uint64(b[8*i:]))
		}
		return out
	})
}

func fqLongItems() *fqKind[int64] {
	return fqItems[int64]("longitems", common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{}, fqLongKey, func(t *T, b []byte, n int) []int64 {
		t.Check(len(b) == 8*n, "image", "%d bytes for %d items", len(b), n)
		out := make([]int64, n)
		for i := range out {
			out[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
		}
		return out
	})
}

func fqRun(a func(*T, *fqKind[int64]), b func(*T, *fqKind[int64]), c func(*T, *fqKind[string]), d func(*T, *fqKind[float64])) func(*T) {
	return func(t *T) {
		switch t.Idx % 4 {
		case 0:
			a(t, fqLongs())
		case 1:
			b(t, fqLongItems())
		case 2:
			c(t, fqStrings())
		default:
			d(t, fqDoubles())
		}
	}
}

func fqNew[C comparable](t *T, k *fqKind[C], lg int) *fqBox[C] {
	cur := 3
	if t.IntN(3) == 0 {
		cur = t.IntN(max(lg, 3) + 1)
	}
	s, err := k.make(lg, cur)
	t.NoErr(err, "new")
	x := k.wrap(s)
	x.size = 1 << max(lg, 3)
	x.minSize = x.size
	t.Check(s.IsEmpty() && s.GetStreamLength() == 0 && s.GetMaximumError() == 0, "new", "new sketch is not empty")
	t.Check(s.GetMaximumMapCapacity() == x.size*3/4, "capacity", "capacity %d of a map of %d", s.GetMaximumMapCapacity(), x.size)
	return x
}

func (x *fqBox[C]) note(key C, w int64) {
	if _, ok := x.truth[key]; !ok {
		x.keys = append(x.keys, key)
	}
	x.truth[key] += w
	x.total += w
	if len(x.truth) > x.size*3/4 {
		x.exact = false
	}
}

// fqFeed feeds n updates of a random kind of stream.
func fqFeed[C comparable](t *T, k *fqKind[C], n int, boxes ...*fqBox[C]) string {
	kind := t.IntN(8)
	span := 1 + t.IntN(4*boxes[0].size)
	base := 0
	if t.IntN(2) == 0 {
		base = t.IntN(10000)
	}
	wkind := t.IntN(5)
	for i := 0; i < n; i++ {
		var o int
		w := int64(1)
		switch kind {
		case 0:
			o = t.IntN(span)
		case 1: // heavily skewed
			o = int(float64(span) * math.Pow(t.Float64(), 6))
		case 2: // all distinct, equal weights: purges can empty the map
			o = i
		case 3: // rounds over the same keys
			o = i % span
		case 4: // heavy items first, then noise
			o = i
			if i < 5 {
				w = int64(n)
			}
		case 5: // noise, then heavy items
			o = i
			if i > n-n/4 {
				o = i % 3
			}
		case 6: // one item against the rest
			o = 0
			if i%2 == 0 {
				o = 1 + t.IntN(span)
			}
		case 7: // growing counts
			o = i
			w = int64(i + 1)
		}
		switch wkind {
		case 0:
			w *= 1 + t.Int64N(10)
		case 1:
			w *= 1 + t.Int64N(1<<uint(1+t.IntN(30)))
		case 2:
			w *= 1 << 20
		}
		key := k.key(base + o)
		for _, x := range boxes {
			var err error
			if w == 1 && t.IntN(2) == 0 {
				err = x.Update(key)
			} else {
				err = x.UpdateMany(key, w)
			}
			t.NoErr(err, "update")
			x.note(key, w)
		}
		if t.IntN(200) == 0 {
			for _, x := range boxes {
				t.NoErr(x.UpdateMany(key, 0), "zero")
				t.Check(x.UpdateMany(key, -1-t.Int64N(100)) != nil, "negative", "negative weight accepted")
			}
		}
	}
	t.EvN("updates", n)
	return fmt.Sprintf("%d/%d", kind, wkind)
}

func (x *fqBox[C]) absorb(o *fqBox[C]) {
	ok := x.exact && o.exact
	for _, key := range o.keys {
		x.note(key, o.truth[key])
	}
	x.exact = x.exact && ok
	x.minSize = min(x.minSize, o.minSize)
}

func fqCheck[C comparable](t *T, k *fqKind[C], x *fqBox[C]) {
	t.Check(x.GetStreamLength() == x.total, "length", "%s: stream length %d, fed %d", k.name, x.GetStreamLength(), x.total)
	t.Check(x.IsEmpty() == (x.total == 0), "empty", "%s: IsEmpty %v with weight %d", k.name, x.IsEmpty(), x.total)
	me := x.GetMaximumError()
	t.Check(me >= 0 && float64(me) <= 3.5/float64(x.minSize)*float64(x.total), "apriori", "%s: maximum error %d for weight %d and map size %d", k.name, me, x.total, x.minSize)
	t.Check(x.GetNumActiveItems() <= x.GetMaximumMapCapacity() && x.GetNumActiveItems() <= len(x.keys) && x.GetCurrentMapCapacity() <= x.GetMaximumMapCapacity(), "active",
		"%s: %d active of %d distinct, capacity %d/%d", k.name, x.GetNumActiveItems(), len(x.keys), x.GetCurrentMapCapacity(), x.GetMaximumMapCapacity())
	if x.exact {
		t.Check(me == 0 && x.GetNumActiveItems() == len(x.keys), "exact", "%s: maximum error %d, %d active, with %d distinct in a map of %d", k.name, me, x.GetNumActiveItems(), len(x.keys), x.size)
	} else {
		t.Ev("estimating sketches")
	}
	active := 0
	sum := int64(0)
	ask := func(key C) {
		true_ := x.truth[key]
		lb, e1 := x.GetLowerBound(key)
		ub, e2 := x.GetUpperBound(key)
		est, e3 := x.GetEstimate(key)
		t.Check(e1 == nil && e2 == nil && e3 == nil, "query", "%v %v %v", e1, e2, e3)
		t.Check(0 <= lb && lb <= true_ && true_ <= ub, "bounds", "%s: item %v has frequency %d, bounds [%d, %d], maximum error %d", k.name, key, true_, lb, ub, me)
		t.Check(ub-lb <= me, "width", "%s: item %v bounds [%d, %d], maximum error %d", k.name, key, lb, ub, me)
		t.Check(lb <= est && est <= ub, "estimate", "%s: item %v estimate %d bounds [%d, %d]", k.name, key, est, lb, ub)
		t.Check(est == 0 || lb > 0 || k.name == "longs", "untracked", "%s: item %v is not tracked but has the estimate %d, bounds [%d, %d]", k.name, key, est, lb, ub)
		t.Check(est == ub || lb == 0, "tracked", "%s: item %v is tracked with the estimate %d, bounds [%d, %d]", k.name, key, est, lb, ub)
		if lb > 0 {
			active++
			sum += lb
		}
	}
	for _, key := range x.keys {
		ask(key)
	}
	t.Check(active == x.GetNumActiveItems(), "active", "%s: %d active items, %d items with a positive count", k.name, x.GetNumActiveItems(), active)
	for i := 0; i < 10; i++ {
		ask(k.key(1000000 + t.IntN(1000000)))
	}
	t.EvN("items checked", len(x.keys)+10)
	_ = x.String()
}

func fqLg(t *T) int {
	return []int{0, 2, 3, 3, 4, 5, 6, 7}[t.IntN(8)]
}

func f01Stream[C comparable](t *T, k *fqKind[C]) {
	x := fqNew(t, k, fqLg(t))
	n := t.IntN(10*x.size) + t.IntN(20)
	kinds := ""
	for rounds := 1 + t.IntN(3); rounds > 0; rounds-- {
		kinds += " " + fqFeed(t, k, n/rounds, x)
		fqCheck(t, k, x)
	}
	if t.IntN(10) == 0 {
		t.NoErr(x.reset(), "reset")
		sz := x.size
		*x = fqBox[C]{fqCommon: x.fqCommon, merge: x.merge, rows: x.rows, image: x.image, reset: x.reset, truth: map[C]int64{}, exact: true, size: sz, minSize: sz}
		fqCheck(t, k, x)
		fqFeed(t, k, n, x)
		fqCheck(t, k, x)
		t.Ev("resets")
	}
	t.Desc("%s size=%d n=%d streams%s distinct=%d exact=%v error=%d", k.name, x.size, n, kinds, len(x.keys), x.exact, x.GetMaximumError())
	t.Sig(k.name, x.size, n, kinds, len(x.keys))
	if !x.exact {
		t.NonTrivial()
	}
}

func f01Merge[C comparable](t *T, k *fqKind[C]) {
	var xs []*fqBox[C]
	for i := 2 + t.IntN(5); i > 0; i-- {
		x := fqNew(t, k, fqLg(t))
		if t.IntN(6) > 0 {
			fqFeed(t, k, t.IntN(6*x.size)+1, x)
		}
		xs = append(xs, x)
	}
	for step := 0; step < 6; step++ {
		a, b := xs[t.IntN(len(xs))], xs[t.IntN(len(xs))]
		if a.total > 1<<58 || b.total > 1<<58 {
			continue
		}
		if a == b {
			t.NoErr(a.merge(a), "selfmerge")
			keys := slices.Clone(a.keys)
			for _, key := range keys {
				a.note(key, a.truth[key])
			}
			fqCheck(t, k, a)
			t.Ev("self merges")
			continue
		}
		before, err := b.image()
		t.NoErr(err, "image")
		t.NoErr(a.merge(b), "merge")
		after, err := b.image()
		t.NoErr(err, "image")
		t.Check(bytes.Equal(before, after), "argument", "%s: merging changed its argument", k.name)
		a.absorb(b)
		fqCheck(t, k, a)
		t.Ev("merges")
		if t.IntN(3) == 0 {
			fqFeed(t, k, t.IntN(3*a.size)+1, a)
			fqCheck(t, k, a)
			fqCheck(t, k, b)
		}
	}
	t.NoErr(xs[0].mergeNil(), "nil")
	a := xs[0]
	t.Desc("%s %d sketches, first: size=%d distinct=%d error=%d", k.name, len(xs), a.size, len(a.keys), a.GetMaximumError())
	t.Sig(k.name, len(xs), a.size, len(a.keys), a.total)
	t.NonTrivial()
}

func (x *fqBox[C]) mergeNil() error {
	before := x.GetStreamLength()
	var err error
	switch s := any(x.fqCommon).(type) {
	case *fq.LongsSketch:
		_, err = s.Merge(nil)
	case *fq.ItemsSketch[C]:
		_, err = s.Merge(nil)
	}
	if err == nil && x.GetStreamLength() != before {
		return fmt.Errorf("merging nothing changed the stream length")
	}
	return err
}

func f01Large[C comparable](t *T, k *fqKind[C]) {
	lg := 9 + t.IntN(5)
	x := fqNew(t, k, lg)
	n := x.size * (1 + t.IntN(4))
	kinds := fqFeed(t, k, n, x)
	y := fqNew(t, k, lg-t.IntN(3))
	fqFeed(t, k, n/2, y)
	fqCheck(t, k, x)
	t.NoErr(x.merge(y), "merge")
	x.absorb(y)
	fqCheck(t, k, x)
	t.Desc("%s size=%d n=%d stream %s distinct=%d error=%d", k.name, x.size, n, kinds, len(x.keys), x.GetMaximumError())
	t.Sig(k.name, lg, n, kinds)
	t.NonTrivial()
}

func f02Rows[C comparable](t *T, k *fqKind[C]) {
	x := fqNew(t, k, fqLg(t))
	kinds := fqFeed(t, k, t.IntN(8*x.size)+1, x)
	if t.IntN(2) == 0 {
		y := fqNew(t, k, fqLg(t))
		fqFeed(t, k, t.IntN(8*y.size)+1, y)
		t.NoErr(x.merge(y), "merge")
		x.absorb(y)
	}
	me := x.GetMaximumError()
	thrs := []int64{0, 1, me, me + 1, max(me-1, 0), -5, math.MaxInt64}
	for i := 0; i < 8; i++ {
		f := x.truth[x.keys[t.IntN(len(x.keys))]]
		thrs = append(thrs, f, f-1, f+1)
	}
	reported := 0
	for i, thr := range thrs {
		given := i > 0
		eff := max(thr, me)
		if !given {
			eff = me
		}
		for _, positives := range []bool{false, true} {
			rows, err := x.rows(thr, given, positives)
			t.NoErr(err, "rows")
			seen := map[C]bool{}
			for j, r := range rows {
				t.Check(!seen[r.item], "duplicate", "%s: item %v reported twice", k.name, r.item)
				seen[r.item] = true
				lb, _ := x.GetLowerBound(r.item)
				ub, _ := x.GetUpperBound(r.item)
				est, _ := x.GetEstimate(r.item)
				t.Check(r.lb == lb && r.ub == ub && r.est == est, "row", "%s: row %v [%d %d %d], queries [%d %d %d]", k.name, r.item, r.lb, r.est, r.ub, lb, est, ub)
				true_ := x.truth[r.item]
				t.Check(true_ > 0 && lb <= true_ && true_ <= ub, "rowbounds", "%s: row %v [%d, %d], frequency %d", k.name, r.item, lb, ub, true_)
				if positives {
					t.Check(true_ >= eff && lb >= eff, "falsepositive", "%s: item %v with frequency %d (lower bound %d) reported at threshold %d", k.name, r.item, true_, lb, eff)
				} else {
					t.Check(ub >= eff, "possible", "%s: item %v with upper bound %d reported at threshold %d", k.name, r.item, ub, eff)
				}
				if j > 0 {
					t.Check(rows[j-1].est >= r.est, "order", "%s: row %d has estimate %d after %d", k.name, j, r.est, rows[j-1].est)
				}
				reported++
			}
			for _, key := range x.keys {
				if positives {
					if lb, _ := x.GetLowerBound(key); lb > eff {
						t.Check(seen[key], "certain", "%s: item %v with lower bound %d not reported at threshold %d", k.name, key, lb, eff)
					}
				} else if x.truth[key] > eff {
					t.Check(seen[key], "falsenegative", "%s: item %v with frequency %d not reported at threshold %d (maximum error %d)", k.name, key, x.truth[key], eff, me)
				}
			}
		}
	}
	t.EvN("rows reported", reported)
	t.Desc("%s size=%d stream %s distinct=%d error=%d", k.name, x.size, kinds, len(x.keys), me)
	t.Sig(k.name, x.size, kinds, len(x.keys), x.total)
	if reported > 0 {
		t.NonTrivial()
	}
}

func fqSame[C comparable](t *T, k *fqKind[C], key string, a, b fqCommon[C], keys []C) {
	t.Check(a.GetStreamLength() == b.GetStreamLength() && a.GetMaximumError() == b.GetMaximumError() && a.GetNumActiveItems() == b.GetNumActiveItems() && a.IsEmpty() == b.IsEmpty(), key,
		"%s: length %d/%d error %d/%d active %d/%d empty %v/%v", k.name, a.GetStreamLength(), b.GetStreamLength(), a.GetMaximumError(), b.GetMaximumError(), a.GetNumActiveItems(), b.GetNumActiveItems(), a.IsEmpty(), b.IsEmpty())
	t.Check(a.GetMaximumMapCapacity() == b.GetMaximumMapCapacity(), key, "%s: maximum capacity %d/%d", k.name, a.GetMaximumMapCapacity(), b.GetMaximumMapCapacity())
	for _, x := range keys {
		l1, _ := a.GetLowerBound(x)
		l2, _ := b.GetLowerBound(x)
		u1, _ := a.GetUpperBound(x)
		u2, _ := b.GetUpperBound(x)
		e1, _ := a.GetEstimate(x)
		e2, _ := b.GetEstimate(x)
		t.Check(l1 == l2 && u1 == u2 && e1 == e2, key, "%s: item %v [%d %d %d] and [%d %d %d]", k.name, x, l1, e1, u1, l2, e2, u2)
	}
}

func fqGrown[C comparable](t *T, k *fqKind[C]) *fqBox[C] {
	x := fqNew(t, k, fqLg(t))
	if t.IntN(8) > 0 {
		fqFeed(t, k, t.IntN(5*x.size)+t.IntN(10), x)
	}
	if t.IntN(3) == 0 {
		y := fqNew(t, k, fqLg(t))
		fqFeed(t, k, t.IntN(5*y.size)+1, y)
		t.NoErr(x.merge(y), "merge")
		x.absorb(y)
	}
	if t.IntN(10) == 0 && x.total < 1<<60 { // a huge weight
		key := k.key(t.IntN(20))
		t.NoErr(x.UpdateMany(key, 1<<61), "update")
		x.note(key, 1<<61)
	}
	return x
}

func f03Round[C comparable](t *T, k *fqKind[C]) {
	x := fqGrown(t, k)
	img, err := x.image()
	t.NoErr(err, "image")
	le := binary.LittleEndian
	t.Check(len(img) >= 8 && img[1] == 1 && img[2] == 10 && 1<<img[3] == x.size && int(math.Floor(float64(uint64(1)<<img[4])*0.75)) == x.GetCurrentMapCapacity(), "preamble", "%s: preamble % x, map size %d, current capacity %d", k.name, img[:8], x.size, x.GetCurrentMapCapacity())
	if x.total == 0 {
		t.Check(len(img) == 8 && img[0] == 1 && img[5] == 5, "preamble", "empty image % x", img)
	} else {
		n := int(le.Uint32(img[8:]))
		t.Check(img[0] == 4 && img[5] == 0 && len(img) >= 32+8*n, "preamble", "image % x of %d bytes", img[:8], len(img))
		t.Check(n == x.GetNumActiveItems() && int64(le.Uint64(img[16:])) == x.total && int64(le.Uint64(img[24:])) == x.GetMaximumError(), "content", "%s: image says %d items, weight %d, error %d", k.name, n, le.Uint64(img[16:]), le.Uint64(img[24:]))
		items := k.parse(t, img[32+8*n:], n)
		seen := map[C]bool{}
		for i, it := range items {
			lb, _ := x.GetLowerBound(it)
			t.Check(int64(le.Uint64(img[32+8*i:])) == lb && !seen[it], "content", "%s: image has item %v with count %d, sketch %d", k.name, it, le.Uint64(img[32+8*i:]), lb)
			seen[it] = true
		}
	}
	if s, ok := any(x.fqCommon).(*fq.LongsSketch); ok {
		t.Check(s.GetStorageBytes() == len(img), "size", "advertised %d, image %d bytes", s.GetStorageBytes(), len(img))
	}
	raw := slices.Clone(img)
	c, err := k.decode(raw)
	t.NoErr(err, "decode")
	for i := range raw {
		raw[i] = 0x5a
	}
	y := k.wrap(c)
	y.truth, y.keys, y.total, y.size, y.minSize, y.exact = map[C]int64{}, slices.Clone(x.keys), x.total, x.size, x.minSize, x.exact
	for key, v := range x.truth {
		y.truth[key] = v
	}
	fqSame(t, k, "copy", x.fqCommon, c, x.keys)
	fqCheck(t, k, y)
	img2, err := y.image()
	t.NoErr(err, "image")
	t.Check(len(img2) == len(img) || k.name == "strings", "again", "images of %d and %d bytes", len(img), len(img2))
	if x.total < 1<<60 {
		switch t.IntN(3) {
		case 0:
			fqFeed(t, k, 1+t.IntN(3*x.size), x, y)
		case 1:
			o := fqGrown(t, k)
			if o.total < 1<<60 {
				t.NoErr(x.merge(o), "merge")
				t.NoErr(y.merge(o), "merge")
				x.absorb(o)
				y.absorb(o)
				fqCheck(t, k, x)
			}
		case 2: // merging the copy elsewhere keeps every promise
			o := fqGrown(t, k)
			if o.total < 1<<60 {
				t.NoErr(o.merge(y), "merge")
				o.absorb(y)
				fqCheck(t, k, o)
			}
		}
		fqCheck(t, k, y)
	}
	t.Ev("round trips")
	t.Desc("%s size=%d distinct=%d active=%d error=%d %d bytes", k.name, x.size, len(x.keys), x.GetNumActiveItems(), x.GetMaximumError(), len(img))
	t.Sig(k.name, x.size, len(x.keys), x.total)
	t.NonTrivial()
}

func f03Text(t *T) {
	k := fqLongs()
	x := fqGrown(t, k)
	s, err := x.ToString()
	t.NoErr(err, "tostring")
	c, err := fq.NewLongsSketchFromString(s)
	t.NoErr(err, "fromstring")
	y := k.wrap(c)
	y.truth, y.keys, y.total, y.size, y.minSize, y.exact = map[int64]int64{}, slices.Clone(x.keys), x.total, x.size, x.minSize, x.exact
	for key, v := range x.truth {
		y.truth[key] = v
	}
	fqSame(t, k, "copy", x.fqCommon, c, x.keys)
	fqCheck(t, k, y)
	s2, _ := y.ToString()
	f := func(s string) int { return strings.Count(s, ",") }
	t.Check(f(s) == f(s2), "again", "string forms %q and %q", trimString(s), trimString(s2))
	if x.total < 1<<60 {
		fqFeed(t, k, 1+t.IntN(3*x.size), x, y)
		fqCheck(t, k, y)
	}
	t.Ev("round trips")
	t.Desc("size=%d distinct=%d active=%d %s", x.size, len(x.keys), x.GetNumActiveItems(), trimString(s))
	t.Sig(x.size, len(x.keys), x.total)
	t.NonTrivial()
}

func trimString(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}
