package mon

import (
	"bytes"
	"runtime"
	"runtime/metrics"

	"github.com/apache/datasketches-go/common"
	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	fq "github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

// X13: the memory an object holds depends on its configuration, not on what it
// has been through. Objects of one kind go through long histories (updates,
// merges, resets, images, queries) and the live heap is measured with them and
// without them; nothing else runs meanwhile.

func init() {
	core.Register("X13", "non-trivial: at least two objects of one configuration went through at least 40 k items and one further kind of step, and the live heap was measured before and after; distinct by kind, configuration and history",
		core.Family{Name: "heap", Quick: 96, Thorough: 3000, Serial: true, Run: x13Heap})
}

// spaceObj is an object with a history. limit: bytes it may hold.
type spaceObj struct {
	feed  func(n int)       // n new items
	merge func(t *T, n int) // takes in another object of n items
	reset func(t *T)        // back to empty
	image func(t *T)        // replaced with what its image decodes to
	ask   func(t *T)        // queries
	limit func() int        // bytes
	size  func() (int, int) // retained, most that may be
}

func x13Live() int {
	runtime.GC()
	runtime.GC()
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return int(s[0].Value.Uint64())
}

func x13Heap(t *T) {
	kd := x13Kinds[t.Idx%len(x13Kinds)]
	f := t.Fork()
	k, make1 := kd.make(t)
	probe := make1()
	m := min(max((1<<20)/probe.limit(), 2), 100)
	long := 64*k + 2000
	t.Desc("%s k=%d objects=%d", kd.name, k, m)
	t.Sig(kd.name, k, t.Uint64())
	before := x13Live()
	objs := make([]*spaceObj, m)
	seen := map[int]bool{}
	for i := range objs {
		o := make1()
		objs[i] = o
		n := 0
		for step := 0; step < 5 || n < 40*k; step++ {
			what := f.IntN(6)
			if what == 2 && (o.reset == nil || f.IntN(3) > 0) || what == 3 && o.image == nil || what == 1 && o.merge == nil {
				what = 0
			}
			switch seen[what] = true; what {
			case 1:
				l := f.IntN(long/4 + 1)
				for range 1 + f.IntN(4) {
					o.merge(t, l)
					n += l
				}
			case 2:
				o.reset(t)
				n = 0
			case 3:
				o.image(t)
			case 4:
				if n > 0 && o.ask != nil {
					o.ask(t)
				}
			default:
				l := f.IntN(long/2) + 1
				o.feed(l)
				n += l
			}
			if o.size != nil {
				r, most := o.size()
				t.Check(r <= most, "retained", "%s, k=%d: %d retained, at most %d are allowed", kd.name, k, r, most)
			}
			t.Ev("steps")
		}
		t.EvN("items", n)
	}
	after := x13Live()
	limit := 0
	for _, o := range objs {
		limit += o.limit()
	}
	runtime.KeepAlive(objs)
	runtime.KeepAlive(probe)
	got := after - before
	if len(seen) > 1 {
		t.NonTrivial()
	}
	t.Logf("%s k=%d: %d objects hold %d bytes, limit %d (%.2f)", kd.name, k, m, got, limit, float64(got)/float64(limit))
	t.Check(got <= limit+(64<<10), "heap", "%s, k=%d: %d objects hold %d bytes of memory, %d are allowed", kd.name, k, m, got, limit)
	t.Ev("heaps measured")
}

type x13Kind struct {
	name string
	make func(t *T) (k int, one func() *spaceObj)
}

var x13Kinds = []x13Kind{
	{"theta update sketch", x13Theta}, {"theta union", x13ThetaUnion}, {"tuple array of numbers", x13Aon},
	{"hll sketch", x13Hll}, {"hll union", x13HllUnion}, {"cpc sketch", x13Cpc}, {"cpc union", x13CpcUnion},
	{"kll", x13Kll}, {"req", x13Req}, {"t-digest", x13Td}, {"frequent longs", x13Longs}, {"frequent items", x13Items},
	{"count-min", x13Count}, {"bloom", x13Bloom}, {"reservoir", x13Res}, {"varopt", x13Var},
	{"reservoir union", x13ResUnion}, {"varopt union", x13VarUnion}, {"tuple union", x13AonUnion},
}

// x13Keys gives keys that never repeat.
func x13Keys(t *T) func() int64 {
	c := t.Uint64()
	return func() int64 { c += 0x9e3779b97f4a7c15; return int64(c) }
}

func x13Theta(t *T) (int, func() *spaceObj) {
	lgK, rf, key := uint8(5+t.IntN(7)), theta.ResizeFactor(t.IntN(4)), x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf))
		t.NoErr(err, "new")
		return &spaceObj{
			feed:  func(n int) { x13Feed(n, func() { _ = s.UpdateInt64(key()) }) },
			reset: func(t *T) { s.Reset() },
			ask:   func(t *T) { s.Trim(); _ = s.CompactOrdered() },
			size:  func() (int, int) { return int(s.NumRetained()), 15 << lgK >> 3 },
			limit: func() int { return 28<<lgK + 2048 },
		}
	}
}

func x13Feed(n int, f func()) {
	for range n {
		f()
	}
}

func x13ThetaUnion(t *T) (int, func() *spaceObj) {
	lgK, key := uint8(5+t.IntN(6)), x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		u, err := theta.NewUnion(theta.WithUnionLgK(lgK))
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) {
				s, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(12))
				x13Feed(n, func() { _ = s.UpdateInt64(key()) })
				t.NoErr(u.Update(s.Compact(n%2 == 0)), "update")
			},
			reset: func(t *T) { u.Reset() },
			ask: func(t *T) {
				r, err := u.Result(true)
				t.NoErr(err, "result")
				t.Check(r.NumRetained() <= 1<<lgK, "retained", "a union of lgK %d gives %d entries", lgK, r.NumRetained())
			},
			limit: func() int { return 28<<lgK + 2048 },
		}
	}
}

func x13Aon(t *T) (int, func() *spaceObj) {
	lgK, nv, key := uint8(5+t.IntN(6)), 1+t.IntN(4), x13Keys(t)
	vals := make([]float64, nv)
	return 1 << lgK, func() *spaceObj {
		s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(nv), tuple.WithUpdateSketchLgK(lgK))
		t.NoErr(err, "new")
		return &spaceObj{
			feed:  func(n int) { x13Feed(n, func() { _ = s.UpdateInt64(key(), vals) }) },
			reset: func(t *T) { s.Reset() },
			ask:   func(t *T) { s.Trim(); _, _ = s.Compact(true) },
			size:  func() (int, int) { return int(s.NumRetained()), 15 << lgK >> 3 },
			limit: func() int { return (80+14*nv)<<lgK*2 + 2048 },
		}
	}
}

type x13Add struct{}

func (x13Add) Apply(a, b *tuple.ArrayOfNumbersSummary[float64]) {}

func x13AonUnion(t *T) (int, func() *spaceObj) {
	lgK, nv, key := uint8(5+t.IntN(6)), 1+t.IntN(4), x13Keys(t)
	vals := make([]float64, nv)
	return 1 << lgK, func() *spaceObj {
		u, err := tuple.NewArrayOfNumbersSketchUnion[float64](x13Add{}, uint8(nv), tuple.WithUnionLgK(lgK))
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) {
				s, _ := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(nv), tuple.WithUpdateSketchLgK(11))
				x13Feed(n, func() { _ = s.UpdateInt64(key(), vals) })
				t.NoErr(u.Update(s), "update")
			},
			reset: func(t *T) { u.Reset() },
			limit: func() int { return (80+14*nv)<<lgK*2 + 2048 },
		}
	}
}

func x13HllLimit(lgK int) int { return 3<<lgK + 2048 }

func x13Hll(t *T) (int, func() *spaceObj) {
	lgK, ty, key := 4+t.IntN(11), hllTypes[t.IntN(3)], x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		s, err := hll.NewHllSketch(lgK, ty)
		t.NoErr(err, "new")
		return &spaceObj{
			feed:  func(n int) { x13Feed(n, func() { _ = s.UpdateInt64(key()) }) },
			reset: func(t *T) { t.NoErr(s.Reset(), "reset") },
			image: func(t *T) {
				b, err := s.ToCompactSlice()
				t.NoErr(err, "image")
				t.Check(len(b) <= 40+4<<lgK, "image", "an image of %d bytes", len(b))
				s, err = hll.NewHllSketchFromSlice(b, true)
				t.NoErr(err, "decode")
			},
			ask:   func(t *T) { _, _ = s.GetEstimate() },
			limit: func() int { return x13HllLimit(lgK) },
		}
	}
}

func x13HllUnion(t *T) (int, func() *spaceObj) {
	lgK, key := 4+t.IntN(9), x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		u, err := hll.NewUnion(lgK)
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = u.UpdateInt64(key()) }) },
			merge: func(t *T, n int) {
				s, err := hll.NewHllSketch(4+n%12, hllTypes[n%3])
				t.NoErr(err, "new")
				x13Feed(n, func() { _ = s.UpdateInt64(key()) })
				t.NoErr(u.UpdateSketch(s), "merge")
			},
			reset: func(t *T) { t.NoErr(u.Reset(), "reset") },
			ask:   func(t *T) { _, _ = u.GetResult(hllTypes[0]) },
			limit: func() int { return x13HllLimit(lgK) },
		}
	}
}

func x13Cpc(t *T) (int, func() *spaceObj) {
	lgK, key := 4+t.IntN(9), x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		s, err := cpc.NewCpcSketchWithDefault(lgK)
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = s.UpdateInt64(key()) }) },
			image: func(t *T) {
				b, err := s.ToCompactSlice()
				t.NoErr(err, "image")
				t.Check(len(b) <= 2<<lgK+200, "image", "an image of %d bytes", len(b))
				s, err = cpc.NewCpcSketchFromSliceWithDefault(b)
				t.NoErr(err, "decode")
			},
			ask:   func(t *T) { _ = s.GetEstimate() },
			limit: func() int { return 6<<lgK + 3072 },
		}
	}
}

func x13CpcUnion(t *T) (int, func() *spaceObj) {
	lgK, key := 4+t.IntN(9), x13Keys(t)
	return 1 << lgK, func() *spaceObj {
		u, err := cpc.NewCpcUnionSketchWithDefault(lgK)
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) {
				s, err := cpc.NewCpcSketchWithDefault(4 + n%10)
				t.NoErr(err, "new")
				x13Feed(n, func() { _ = s.UpdateInt64(key()) })
				t.NoErr(u.Update(s), "merge")
			},
			ask:   func(t *T) { _, _ = u.GetResult() },
			limit: func() int { return 18<<lgK + 3072 },
		}
	}
}

func x13Kll(t *T) (int, func() *spaceObj) {
	k, key := 8+t.IntN(400), x13Keys(t)
	cmp, serde := common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}
	fresh := func() *kll.ItemsSketch[int64] {
		s, err := kll.NewKllItemsSketch[int64](uint16(k), 8, cmp, serde)
		t.NoErr(err, "new")
		return s
	}
	return k, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { s.Update(key()) }) },
			merge: func(t *T, n int) {
				o := fresh()
				x13Feed(n, func() { o.Update(key()) })
				s.Merge(o)
			},
			reset: func(t *T) { s.Reset() },
			image: func(t *T) {
				b, err := s.ToSlice()
				t.NoErr(err, "image")
				s, err = kll.NewKllItemsSketchFromSlice[int64](b, cmp, serde)
				t.NoErr(err, "decode")
			},
			ask:   func(t *T) { _, err := s.GetQuantile(0.3, true); t.NoErr(err, "quantile") },
			size:  func() (int, int) { return int(s.GetNumRetained()), 3*k + 600 },
			limit: func() int { return 80*k + 6144 },
		}
	}
}

func x13Req(t *T) (int, func() *spaceObj) {
	k, hra, key := 4+2*t.IntN(30), t.IntN(2) == 0, x13Keys(t)
	fresh := func() *req.Sketch {
		s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
		t.NoErr(err, "new")
		return s
	}
	return 20 * k, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = s.Update(float32(key())) }) },
			merge: func(t *T, n int) {
				o := fresh()
				x13Feed(n, func() { _ = o.Update(float32(key())) })
				t.NoErr(s.Merge(o), "merge")
			},
			reset: func(t *T) { s.Reset() },
			ask:   func(t *T) { _, err := s.Quantile(0.3); t.NoErr(err, "quantile") },
			limit: func() int { return 40*s.NumRetained() + 600*k + 6144 },
		}
	}
}

func x13Td(t *T) (int, func() *spaceObj) {
	k, key := 10+t.IntN(300), x13Keys(t)
	fresh := func() *tdigest.Double {
		s, err := tdigest.NewDouble(uint16(k))
		t.NoErr(err, "new")
		return s
	}
	return 2 * k, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = s.Update(float64(key())) }) },
			merge: func(t *T, n int) {
				o := fresh()
				x13Feed(n+1, func() { _ = o.Update(float64(key())) })
				t.NoErr(s.Merge(o), "merge")
			},
			image: func(t *T) {
				var b bytes.Buffer
				enc := tdigest.NewDoubleEncoder(&b, true)
				t.NoErr(enc.Encode(s), "image")
				var err error
				s, err = tdigest.DecodeDouble(b.Bytes())
				t.NoErr(err, "decode")
			},
			ask:   func(t *T) { _, _ = s.Quantile(0.3) },
			limit: func() int { return 300*k + 8192 },
		}
	}
}

func x13Longs(t *T) (int, func() *spaceObj) {
	lg, key := 3+t.IntN(8), x13Keys(t)
	fresh := func() *fq.LongsSketch {
		s, err := fq.NewLongsSketch(lg, 3)
		t.NoErr(err, "new")
		return s
	}
	return 1 << lg, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = s.Update(key()) }) },
			merge: func(t *T, n int) {
				o := fresh()
				x13Feed(n, func() { _ = o.Update(key()) })
				_, err := s.Merge(o)
				t.NoErr(err, "merge")
			},
			reset: func(t *T) { s.Reset() },
			image: func(t *T) {
				var err error
				s, err = fq.NewLongsSketchFromSlice(s.ToSlice())
				t.NoErr(err, "decode")
			},
			ask:   func(t *T) { _, _ = s.GetFrequentItems(fq.ErrorTypeEnum.NoFalseNegatives) },
			size:  func() (int, int) { return s.GetNumActiveItems(), 3 << lg >> 2 },
			limit: func() int { return 50<<lg + 2048 },
		}
	}
}

func x13Items(t *T) (int, func() *spaceObj) {
	lg, key := 3+t.IntN(8), x13Keys(t)
	fresh := func() *fq.ItemsSketch[int64] {
		s, err := fq.NewFrequencyItemsSketch[int64](lg, 3, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
		t.NoErr(err, "new")
		return s
	}
	return 1 << lg, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = s.Update(key()) }) },
			merge: func(t *T, n int) {
				o := fresh()
				x13Feed(n, func() { _ = o.Update(key()) })
				_, err := s.Merge(o)
				t.NoErr(err, "merge")
			},
			reset: func(t *T) { t.NoErr(s.Reset(), "reset") },
			image: func(t *T) {
				b, err := s.ToSlice()
				t.NoErr(err, "image")
				s, err = fq.NewFrequencyItemsSketchFromSlice[int64](b, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
				t.NoErr(err, "decode")
			},
			size:  func() (int, int) { return s.GetNumActiveItems(), 3 << lg >> 2 },
			limit: func() int { return 40<<lg + 2048 },
		}
	}
}

func x13Count(t *T) (int, func() *spaceObj) {
	h, w, key := 1+t.IntN(6), 3+t.IntN(2000), x13Keys(t)
	fresh := func() *cm.CountMinSketch {
		s, err := cm.NewCountMinSketch(int8(h), int32(w), 9001)
		t.NoErr(err, "new")
		return s
	}
	return w, func() *spaceObj {
		s := fresh()
		return &spaceObj{
			feed: func(n int) { x13Feed(min(n, 20000), func() { _ = s.UpdateUint64(uint64(key()), 1) }) },
			merge: func(t *T, n int) {
				o := fresh()
				_ = o.UpdateUint64(uint64(key()), 1)
				t.NoErr(s.Merge(o), "merge")
			},
			limit: func() int { return 20*h*w + 2048 },
		}
	}
}

func x13Bloom(t *T) (int, func() *spaceObj) {
	bits, nh, key := 64*uint64(1+t.IntN(4000)), uint16(1+t.IntN(6)), x13Keys(t)
	fresh := func() bf.BloomFilter {
		f, err := bf.NewBloomFilterBySize(bits, nh, bf.WithSeed(7))
		t.NoErr(err, "new")
		return f
	}
	return int(bits / 64), func() *spaceObj {
		f := fresh()
		return &spaceObj{
			feed:  func(n int) { x13Feed(min(n, 20000), func() { _ = f.UpdateInt64(key()) }) },
			merge: func(t *T, n int) { t.NoErr(f.Union(fresh()), "union") },
			reset: func(t *T) { t.NoErr(f.Reset(), "reset") },
			image: func(t *T) {
				b, err := f.ToCompactSlice()
				t.NoErr(err, "image")
				f, err = bf.NewBloomFilterFromSlice(b)
				t.NoErr(err, "decode")
			},
			size:  func() (int, int) { return int(f.BitsUsed()), int(bits) },
			limit: func() int { return int(bits)/4 + 2048 },
		}
	}
}

func x13Res(t *T) (int, func() *spaceObj) {
	k, key := 2+t.IntN(1000), x13Keys(t)
	return k, func() *spaceObj {
		s, err := sp.NewReservoirItemsSketch[int64](k)
		t.NoErr(err, "new")
		return &spaceObj{
			feed:  func(n int) { x13Feed(n, func() { _ = s.Update(key()) }) },
			reset: func(t *T) { s.Reset() },
			size:  func() (int, int) { return s.NumSamples(), k },
			limit: func() int { return 28*k + 1024 },
		}
	}
}

func x13Var(t *T) (int, func() *spaceObj) {
	k, key := 2+t.IntN(1000), x13Keys(t)
	return k, func() *spaceObj {
		s, err := sp.NewVarOptItemsSketch[int64](uint(k))
		t.NoErr(err, "new")
		return &spaceObj{
			feed:  func(n int) { x13Feed(n, func() { x := key(); _ = s.Update(x, 1+float64(uint64(x)>>54)) }) },
			reset: func(t *T) { s.Reset() },
			size:  func() (int, int) { return s.NumSamples(), k },
			limit: func() int { return 52*k + 1024 },
		}
	}
}

func x13ResUnion(t *T) (int, func() *spaceObj) {
	k, key := 2+t.IntN(1000), x13Keys(t)
	return k, func() *spaceObj {
		u, err := sp.NewReservoirItemsUnion[int64](k)
		t.NoErr(err, "new")
		o := &spaceObj{
			feed: func(n int) { x13Feed(n, func() { _ = u.Update(key()) }) },
			merge: func(t *T, n int) {
				s, err := sp.NewReservoirItemsSketch[int64](2 + n%1500)
				t.NoErr(err, "new")
				x13Feed(n, func() { _ = s.Update(key()) })
				t.NoErr(u.UpdateSketch(s), "merge")
			},
			reset: func(t *T) { u.Reset() },
			limit: func() int { return 28*k + 2048 },
		}
		return o
	}
}

func x13VarUnion(t *T) (int, func() *spaceObj) {
	k, key := 2+t.IntN(1000), x13Keys(t)
	return k, func() *spaceObj {
		u, err := sp.NewVarOptItemsUnion[int64](uint(k))
		t.NoErr(err, "new")
		return &spaceObj{
			feed: func(n int) {
				s, err := sp.NewVarOptItemsSketch[int64](uint(2 + n%1500))
				t.NoErr(err, "new")
				x13Feed(n, func() { x := key(); _ = s.Update(x, 1+float64(uint64(x)>>54)) })
				t.NoErr(u.Update(s), "merge")
			},
			reset: func(t *T) { u.Reset() },
			ask:   func(t *T) { _, err := u.Result(); t.NoErr(err, "result") },
			limit: func() int { return 52*k + 2048 },
		}
	}
}
