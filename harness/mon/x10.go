package mon

import (
	"fmt"
	"maps"
	"slices"

	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

// X10: operations use the present state of their operands. Live operands evolve
// between the operations they take part in; a twin of the receiver gets, each
// time, a new object with the operand's history and must end up the same.

func init() {
	reg := func(name string, quick, thorough int, f func(t *T)) {
		core.Register("X10", "non-trivial: one live object was an operand at least twice, changed in between at least once, and the receiver was compared with a twin that was given a new object with the same history every time; distinct by the history of steps",
			core.Family{Name: name, Quick: quick, Thorough: thorough, Run: f})
	}
	reg("theta-union", 2500, 60000, func(t *T) { x10Theta(t, x10ThetaUnion) })
	reg("theta-intersection", 2500, 60000, func(t *T) { x10Theta(t, x10ThetaInter) })
	reg("theta-binary", 1500, 40000, func(t *T) { x10Theta(t, x10ThetaBinary) })
	reg("tuple-union", 900, 60000, func(t *T) { x10Tuple(t, x10TupleUnion) })
	reg("tuple-intersection", 900, 60000, func(t *T) { x10Tuple(t, x10TupleInter) })
	reg("tuple-binary", 500, 40000, func(t *T) { x10Tuple(t, x10TupleBinary) })
	reg("hll", 2500, 60000, x10Hll)
	reg("cpc", 1500, 40000, x10Cpc)
	reg("kll", 2500, 60000, kllRun(x10Kll[int64], x10Kll[float64], x10Kll[string], x10Kll[float32]))
	reg("req", 2500, 60000, x10Req)
	reg("tdigest", 2500, 60000, x10Td)
	reg("frequencies", 2500, 60000, fqRun(x10Fq[int64], x10Fq[int64], x10Fq[string], x10Fq[float64]))
	reg("count", 1500, 40000, x10Count)
	reg("bloom", 2500, 60000, x10Bloom)
	reg("reservoir", 2500, 60000, x10Res)
	reg("varopt", 2500, 60000, x10Var)
}

// liveObj is an operand. op changes it and must depend on t alone.
type liveObj struct {
	obj  any
	op   func(t *T)
	look func(t *T) string
}

// liveRecv takes operands. look holds what is determined by the history alone.
type liveRecv struct {
	op    func(t *T)
	merge func(t *T, o any) error // t: choices to be made alike
	look  func(t *T) string
}

func x10Run(t *T, name string, mkO func(t *T) liveObj, mkR func(t *T) liveRecv) {
	type operand struct {
		live         liveObj
		hist         []int
		used, stale  int
		usedThenMove bool
	}
	ops := make([]operand, 1+t.IntN(3))
	hist := name
	for i := range ops {
		ops[i].live = mkO(t.Fork("make", i))
	}
	replay := func(i int) liveObj {
		o := mkO(t.Fork("make", i))
		for _, h := range ops[i].hist {
			o.op(t.Fork("op", i, h))
		}
		return o
	}
	nr := 1 + t.IntN(2)
	var recv, twin []liveRecv
	for r := range nr {
		recv = append(recv, mkR(t.Fork("recv", r)))
		twin = append(twin, mkR(t.Fork("recv", r)))
	}
	again := 0
	compare := func(r int, step int) {
		a, b := recv[r].look(t.Fork("look", step)), twin[r].look(t.Fork("look", step))
		t.Check(a == b, "operand-state", "%s\nreceiver of live operands\n%s\nreceiver of new objects with the same histories\n%s", hist, clip(a), clip(b))
	}
	for step := range 4 + t.IntN(12) {
		i, r := t.IntN(len(ops)), t.IntN(nr)
		o := &ops[i]
		switch c := t.IntN(10); {
		case c < 3: // the operand evolves
			o.live.op(t.Fork("op", i, step))
			o.hist = append(o.hist, step)
			if o.used > 0 {
				o.stale++
			}
			hist += fmt.Sprintf(" c%d", i)
		case c < 9:
			e1 := recv[r].merge(t.Fork("merge", step), o.live.obj)
			e2 := twin[r].merge(t.Fork("merge", step), replay(i).obj)
			t.Check((e1 == nil) == (e2 == nil), "operand-error", "%s: error %v with the live operand, %v with a new one", hist, e1, e2)
			hist += fmt.Sprintf(" m%d>%d", i, r)
			if o.used > 0 {
				again++
				t.Ev("operands used again")
			}
			o.used++
			if t.IntN(2) == 0 {
				compare(r, step)
			}
		default:
			if recv[r].op != nil {
				recv[r].op(t.Fork("rop", step))
				twin[r].op(t.Fork("rop", step))
				hist += fmt.Sprintf(" r%d", r)
			}
		}
	}
	moved := false
	for i := range ops {
		moved = moved || ops[i].stale > 0
		if ops[i].live.look != nil {
			a, b := ops[i].live.look(t.Fork("olook", i)), replay(i).look(t.Fork("olook", i))
			t.Check(a == b, "operand-touched", "%s\noperand %d after its uses\n%s\nnever used\n%s", hist, i, clip(a), clip(b))
		}
	}
	for r := range nr {
		compare(r, 1000)
	}
	t.Desc("%s", hist)
	t.Sig(hist, recv[0].look(t.Fork("look", 1000)))
	if again > 0 && moved {
		t.NonTrivial()
	}
}

func x10Pair[A any](a A, err error) string { return show(a, err) }

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// ---- theta

func x10ThetaObj(lgMax int, seed uint64) func(t *T) liveObj {
	return func(t *T) liveObj {
		s := buildTheta(t, uint8(5+t.IntN(lgMax)), seed, 1+t.IntN(1500))
		return liveObj{s, func(t *T) {
			switch t.IntN(8) {
			case 0:
				s.Trim()
			case 1:
				s.Reset()
			default:
				lo := t.IntN(3000)
				for i := range t.IntN(400) {
					_ = s.UpdateInt64(int64(lo + i))
				}
			}
		}, func(t *T) string { return xbThetaLook(s) }}
	}
}

func x10Theta(t *T, mk func(t *T, seed uint64) liveRecv) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	x10Run(t, "theta", x10ThetaObj(4, seed), func(t *T) liveRecv { return mk(t, seed) })
}

// x10Form passes a sketch itself, most of the time, or a form of it.
func x10Form(t *T, s *theta.QuickSelectUpdateSketch) theta.Sketch {
	if t.IntN(4) == 0 {
		return s.Compact(t.IntN(2) == 0)
	}
	return s
}

func x10ThetaUnion(t *T, seed uint64) liveRecv {
	u, err := theta.NewUnion(theta.WithUnionLgK(uint8(5+t.IntN(4))), theta.WithUnionSeed(seed))
	t.NoErr(err, "union")
	return liveRecv{
		op:    func(t *T) { u.Reset() },
		merge: func(t *T, o any) error { return u.Update(x10Form(t, o.(*theta.QuickSelectUpdateSketch))) },
		look: func(t *T) string {
			r, err := u.Result(true)
			t.NoErr(err, "result")
			return xbThetaLook(r)
		}}
}

func x10ThetaInter(t *T, seed uint64) liveRecv {
	x := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	return liveRecv{
		merge: func(t *T, o any) error { return x.Update(x10Form(t, o.(*theta.QuickSelectUpdateSketch))) },
		look: func(t *T) string {
			if !x.HasResult() {
				return "none"
			}
			r, err := x.Result(true)
			t.NoErr(err, "result")
			return xbThetaLook(r)
		}}
}

// x10ThetaBinary keeps the answers of the operations without a state of their own.
func x10ThetaBinary(t *T, seed uint64) liveRecv {
	var last theta.Sketch
	out := ""
	return liveRecv{
		merge: func(t *T, o any) error {
			s := o.(*theta.QuickSelectUpdateSketch)
			if last == nil {
				last = buildTheta(t.Fork("first"), 7, seed, 800)
			}
			a, b := theta.Sketch(s), last
			if t.IntN(2) == 0 {
				a, b = b, a
			}
			switch t.IntN(3) {
			case 0:
				r, err := theta.ANotB(a, b, seed, true)
				t.NoErr(err, "a-not-b")
				out += xbThetaLook(r)
			case 1:
				j, err := theta.Jaccard(a, b, seed)
				t.NoErr(err, "jaccard")
				out += show(j)
			default:
				out += x10Pair(theta.IsExactlyEqual(a, b, seed))
			}
			last = s.Compact(true)
			return nil
		},
		look: func(t *T) string { return out }}
}

// ---- tuple

func x10TupleObj(k tkind, seed uint64) func(t *T) liveObj {
	return func(t *T) liveObj {
		s, err := k.newUpdate(uint8(5+t.IntN(3)), theta.ResizeFactor(t.IntN(4)), 1, seed)
		t.NoErr(err, "new")
		feed := func(t *T) {
			lo := t.IntN(1000)
			for i := range t.IntN(300) {
				_ = s.feed(item{kind: itInt64, i: int64(lo + i)}, int64(t.IntN(5)))
			}
		}
		feed(t)
		return liveObj{s, func(t *T) {
			switch t.IntN(8) {
			case 0:
				s.trim()
			case 1:
				s.reset()
			case 2:
				s.sk().poke()
			default:
				feed(t)
			}
		}, func(t *T) string { return x10TupleLook(s.sk()) }}
	}
}

func x10TupleLook(s tsk) string {
	sn := s.snap()
	e, lb, ub, _ := s.est()
	keys := slices.Sorted(maps.Keys(sn.sum))
	out := show(sn.theta, sn.empty, sn.seed, e, lb, ub, len(keys))
	for _, h := range keys {
		out += show(h, sn.sum[h])
	}
	return out
}

func x10Tuple(t *T, mk func(t *T, k tkind, seed uint64) liveRecv) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	k := tupleKinds(t)
	x10Run(t, "tuple "+k.name(), x10TupleObj(k, seed), func(t *T) liveRecv { return mk(t, k, seed) })
}

func x10TupleForm(t *T, o any) tsk {
	s := o.(tupd)
	if t.IntN(4) == 0 {
		c, err := s.compact(t.IntN(2) == 0)
		t.NoErr(err, "compact")
		return c
	}
	return s.sk()
}

func x10TupleUnion(t *T, k tkind, seed uint64) liveRecv {
	u, err := k.union(uint8(5+t.IntN(4)), theta.ResizeFactor(t.IntN(4)), 1, seed)
	t.NoErr(err, "union")
	return x10TupleSet(u, func(t *T) { u.reset() })
}

func x10TupleInter(t *T, k tkind, seed uint64) liveRecv { return x10TupleSet(k.inter(seed), nil) }

func x10TupleSet(u tset, op func(t *T)) liveRecv {
	fed := op != nil // an intersection has no result before its first sketch
	return liveRecv{op: op,
		merge: func(t *T, o any) error { fed = true; return u.update(x10TupleForm(t, o)) },
		look: func(t *T) string {
			if !fed {
				return "none"
			}
			r, err := u.result(true)
			t.NoErr(err, "result")
			return x10TupleLook(r)
		}}
}

func x10TupleBinary(t *T, k tkind, seed uint64) liveRecv {
	var last tsk
	out := ""
	return liveRecv{
		merge: func(t *T, o any) error {
			s := o.(tupd)
			if last == nil {
				last = x10TupleObj(k, seed)(t.Fork("first")).obj.(tupd).sk()
			}
			a, b := s.sk(), last
			if t.IntN(2) == 0 {
				a, b = b, a
			}
			switch t.IntN(3) {
			case 0:
				if j, ok, err := k.jaccard(a, b, seed); ok {
					t.NoErr(err, "jaccard")
					out += show(j)
				}
			default:
				r, err := k.diff(a, b, seed, true)
				t.NoErr(err, "a-not-b")
				out += x10TupleLook(r)
			}
			c, err := s.compact(true)
			t.NoErr(err, "compact")
			last = c
			return nil
		},
		look: func(t *T) string { return out }}
}

// ---- hll, cpc

func x10Hll(t *T) {
	x10Run(t, "hll", func(t *T) liveObj {
		s := xbHllFresh(t, 4+t.IntN(6))
		lg := s.GetLgConfigK()
		return liveObj{s, func(t *T) {
			if t.IntN(8) == 0 {
				t.NoErr(s.Reset(), "reset")
			}
			for _, it := range hllStream(t, lg, t.IntN(60), 0.05, 1<<40) {
				t.NoErr(it.feed(s), "update")
			}
		}, xbHll(s).look}
	}, func(t *T) liveRecv {
		u, err := hll.NewUnion(4 + t.IntN(7))
		t.NoErr(err, "union")
		return liveRecv{
			op:    func(t *T) { xbHllOp(t, u, u.GetLgConfigK(), u.Reset) },
			merge: func(t *T, o any) error { return u.UpdateSketch(o.(hll.HllSketch)) },
			look: func(t *T) string {
				r, err := u.GetResult(hll.TgtHllType(t.IntN(3)))
				t.NoErr(err, "result")
				x, e1 := r.ToCompactSlice()
				e, e2 := r.GetEstimate()
				c, e3 := r.GetCompositeEstimate()
				return show(hllPlain(x), e, c, e1, e2, e3) + xbHllUnion(u).look(t)
			}}
	})
}

func x10Cpc(t *T) {
	seed := cpcSeed(t)
	x10Run(t, "cpc", func(t *T) liveObj {
		lg := 4 + t.IntN(6)
		s := cpcNew(t, lg, seed)
		feed := func(t *T, n int) {
			for _, it := range cpcStream(t, lg, n, seed, 0.1) {
				t.NoErr(it.feed(s), "update")
			}
		}
		feed(t, t.IntN(4)*t.IntN(1<<lg))
		return liveObj{s, func(t *T) { feed(t, t.IntN(1+2<<lg)) }, xbCpc(s, seed).look}
	}, func(t *T) liveRecv {
		u, err := cpc.NewCpcUnionSketch(4+t.IntN(6), seed)
		t.NoErr(err, "union")
		return liveRecv{
			merge: func(t *T, o any) error { return u.Update(o.(*cpc.CpcSketch)) },
			look:  xbCpcUnion(&u, seed).look}
	})
}

// ---- quantiles: what chance cannot touch

func x10Kll[C comparable](t *T) {
	kd := kllKindOf[C](t)
	mk := func(t *T) (func() string, func(t *T), *kll.ItemsSketch[C]) {
		k, mm := kllK(t)
		s, m := kllNew(t, kd, k, mm)
		look := func() string {
			if s.IsEmpty() {
				return show("empty", s.GetN(), s.GetK())
			}
			mn, e1 := s.GetMinItem()
			mx, e2 := s.GetMaxItem()
			r, e3 := s.GetRank(mn, false)
			return show(s.GetN(), mn, mx, e1, e2, s.GetK(), r, e3)
		}
		return look, func(t *T) {
			if t.IntN(8) == 0 {
				s.Reset()
			}
			kllFeed(t, s, m, t.IntN(150))
		}, s
	}
	x10Run(t, "kll "+kd.name, func(t *T) liveObj {
		look, op, s := mk(t)
		op(t)
		return liveObj{s, op, func(t *T) string { return look() }}
	}, func(t *T) liveRecv {
		look, op, s := mk(t)
		return liveRecv{op: op,
			merge: func(t *T, o any) error { s.Merge(o.(*kll.ItemsSketch[C])); return nil },
			look:  func(t *T) string { return look() }}
	})
}

func x10Req(t *T) {
	hra := t.IntN(2) == 0
	mk := func(t *T) (*req.Sketch, func(t *T), func(t *T) string) {
		s, m := reqNew(t, reqK(t), hra)
		return s, func(t *T) {
				if t.IntN(8) == 0 {
					s.Reset()
				}
				reqFeed(t, s, m, t.IntN(200))
			}, func(t *T) string {
				if s.IsEmpty() {
					return "empty"
				}
				mn, e1 := s.MinItem()
				mx, e2 := s.MaxItem()
				return show(s.N(), mn, mx, e1, e2)
			}
	}
	x10Run(t, "req", func(t *T) liveObj {
		s, op, look := mk(t)
		op(t)
		return liveObj{s, op, look}
	}, func(t *T) liveRecv {
		s, op, look := mk(t)
		return liveRecv{op: op, merge: func(t *T, o any) error { return s.Merge(o.(*req.Sketch)) }, look: look}
	})
}

func x10Td(t *T) {
	mk := func(t *T) (*tdigest.Double, func(t *T), func(t *T) string) {
		d, err := tdigest.NewDouble(tdK(t))
		t.NoErr(err, "new")
		return d, func(t *T) {
				base := t.NormFloat64()
				for range t.IntN(150) {
					t.NoErr(d.Update(base+t.NormFloat64()), "update")
				}
			}, func(t *T) string {
				if d.IsEmpty() {
					return "empty"
				}
				mn, e1 := d.MinValue()
				mx, e2 := d.MaxValue()
				return show(d.TotalWeight(), mn, mx, e1, e2)
			}
	}
	x10Run(t, "tdigest", func(t *T) liveObj {
		d, op, look := mk(t)
		op(t)
		return liveObj{d, op, look}
	}, func(t *T) liveRecv {
		d, op, look := mk(t)
		return liveRecv{op: op, merge: func(t *T, o any) error {
			if o.(*tdigest.Double).IsEmpty() {
				return nil
			}
			return d.Merge(o.(*tdigest.Double))
		}, look: look}
	})
}

// ---- counters, filters, samples

func x10Fq[C comparable](t *T, k *fqKind[C]) {
	keys := make([]C, 2+t.IntN(8))
	for i := range keys {
		keys[i] = k.key(i * 7)
	}
	mk := func(t *T) (*fqBox[C], func(t *T), func(t *T) string) { // big enough to be exact
		x := fqNew(t, k, 6)
		return x, func(t *T) {
				if t.IntN(8) == 0 {
					t.NoErr(x.reset(), "reset")
				}
				for range t.IntN(20) {
					key, w := keys[t.IntN(len(keys))], int64(t.IntN(50))
					t.NoErr(x.UpdateMany(key, w), "update")
				}
			}, func(t *T) string {
				out := show(x.GetStreamLength(), x.GetMaximumError(), x.GetNumActiveItems())
				for _, key := range keys {
					l, e1 := x.GetLowerBound(key)
					e, e2 := x.GetEstimate(key)
					out += show(l, e, e1, e2)
				}
				return out
			}
	}
	x10Run(t, "frequencies "+k.name, func(t *T) liveObj {
		x, op, look := mk(t)
		op(t)
		return liveObj{x, op, look}
	}, func(t *T) liveRecv {
		x, op, look := mk(t)
		return liveRecv{op: op, merge: func(t *T, o any) error { return x.merge(o.(*fqBox[C])) }, look: look}
	})
}

func x10Count(t *T) {
	h, w := cmShape(t)
	seed := cmSeedOK(t)
	pool := cmPool(t, 1+t.IntN(20))
	mk := func(t *T) (*cm.CountMinSketch, func(t *T), func(t *T) string) {
		s, err := cm.NewCountMinSketch(h, w, seed)
		t.NoErr(err, "new")
		return s, func(t *T) {
			for range t.IntN(20) {
				t.NoErr(pool[t.IntN(len(pool))].update(s, int64(t.IntN(100))), "update")
			}
		}, func(t *T) string { return string(cmImage(t, s)) }
	}
	x10Run(t, "count", func(t *T) liveObj {
		s, op, look := mk(t)
		op(t)
		return liveObj{s, op, look}
	}, func(t *T) liveRecv {
		s, op, look := mk(t)
		return liveRecv{op: op, merge: func(t *T, o any) error { return s.Merge(o.(*cm.CountMinSketch)) }, look: look}
	})
}

func x10Bloom(t *T) {
	nbits, k, seed := uint64(64*(1+t.IntN(8))), uint16(1+t.IntN(4)), t.Uint64()
	mk := func(t *T) (bf.BloomFilter, func(t *T), func(t *T) string) {
		f, err := bf.NewBloomFilterBySize(nbits, k, bf.WithSeed(seed))
		t.NoErr(err, "new")
		return f, func(t *T) {
			switch t.IntN(8) {
			case 0:
				f.Reset()
			case 1:
				f.Invert()
			default:
				for range t.IntN(12) {
					blMake(t).update(t, f)
				}
			}
		}, func(t *T) string { return show(f.BitsUsed(), f.IsEmpty(), blImage(t, f)) }
	}
	x10Run(t, "bloom", func(t *T) liveObj {
		f, op, look := mk(t)
		op(t)
		return liveObj{f, op, look}
	}, func(t *T) liveRecv {
		f, op, look := mk(t)
		return liveRecv{op: op, merge: func(t *T, o any) error {
			if t.IntN(3) == 0 {
				return f.Intersect(o.(bf.BloomFilter))
			}
			return f.Union(o.(bf.BloomFilter))
		}, look: look}
	})
}

func x10Res(t *T) { // large enough to keep every item, most of the time
	small := t.IntN(4) == 0
	k := func(t *T) int {
		if small {
			return 2 + t.IntN(20)
		}
		return 4000
	}
	look := func(n int64, sam []int64) string {
		if small {
			return show(n, len(sam))
		}
		slices.Sort(sam)
		return show(n, sam)
	}
	x10Run(t, "reservoir", func(t *T) liveObj {
		s, err := sp.NewReservoirItemsSketch[int64](k(t))
		t.NoErr(err, "new")
		op := func(t *T) {
			if t.IntN(8) == 0 {
				s.Reset()
			}
			for range t.IntN(30) {
				s.Update(int64(t.IntN(1000)))
			}
		}
		op(t)
		return liveObj{s, op, func(t *T) string { return look(s.N(), slices.Clone(s.Samples())) }}
	}, func(t *T) liveRecv {
		u, err := sp.NewReservoirItemsUnion[int64](k(t))
		t.NoErr(err, "union")
		return liveRecv{
			op:    func(t *T) { t.NoErr(u.Update(int64(t.IntN(1000))), "update") },
			merge: func(t *T, o any) error { return u.UpdateSketch(o.(*sp.ReservoirItemsSketch[int64])) },
			look: func(t *T) string {
				r, err := u.Result()
				t.NoErr(err, "result")
				if r == nil {
					return "none"
				}
				return look(r.N(), slices.Clone(r.Samples()))
			}}
	})
}

func x10Var(t *T) {
	small := t.IntN(4) == 0
	k := func(t *T) uint {
		if small {
			return uint(2 + t.IntN(20))
		}
		return 4000
	}
	look := func(s *sp.VarOptItemsSketch[int64]) string {
		all := voAll(s)
		sum := 0.0
		var rows []string
		for _, x := range all {
			sum += x.w
			rows = append(rows, fmt.Sprint(x.item, x.w))
		}
		if small {
			return fmt.Sprintf("%d %d %.6g", s.N(), len(all), sum)
		}
		slices.Sort(rows)
		return show(s.N(), rows)
	}
	x10Run(t, "varopt", func(t *T) liveObj {
		s, err := sp.NewVarOptItemsSketch[int64](k(t))
		t.NoErr(err, "new")
		op := func(t *T) {
			if t.IntN(8) == 0 {
				s.Reset()
			}
			for range t.IntN(30) {
				t.NoErr(s.Update(int64(t.IntN(1000)), float64(1+t.IntN(9))), "update")
			}
		}
		op(t)
		return liveObj{s, op, func(t *T) string { return look(s) }}
	}, func(t *T) liveRecv {
		u, err := sp.NewVarOptItemsUnion[int64](k(t))
		t.NoErr(err, "union")
		return liveRecv{
			op: func(t *T) {
				if t.IntN(3) == 0 {
					u.Reset()
				}
			},
			merge: func(t *T, o any) error { return u.Update(o.(*sp.VarOptItemsSketch[int64])) },
			look: func(t *T) string {
				r, err := u.Result()
				t.NoErr(err, "result")
				return look(r)
			}}
	})
}
