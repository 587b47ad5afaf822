package mon

import (
	"bytes"
	"fmt"
	"iter"
	"math"
	"slices"
	"strings"

	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

// X08: queries, iterations (also abandoned, nested or interleaved ones), string
// forms and uses as an input leave an object as it was: they answer the same
// again, in any order, and a twin that is never asked evolves identically.
// X07: refused operations change nothing either.

func init() {
	for _, k := range xbKinds {
		core.Register("X08", "non-trivial: an object was asked in random order while its state, the repetition of earlier answers and (where the library draws no random numbers) a twin that is never asked were compared; distinct by the history of changes and questions",
			core.Family{Name: k.name, Quick: 1200, Thorough: 50000, Run: func(t *T) { x8Run(t, k.make) }})
		core.Register("X07", "non-trivial: at least one operation was refused and the object, everything derived from it and (where the library draws no random numbers) a twin that never saw it were compared; distinct by the history of changes and refusals",
			core.Family{Name: k.name, Quick: 1500, Thorough: 60000, Run: func(t *T) { x7Run(t, k.make) }})
	}
	core.Assume("X08", "one goroutine at a time; concurrent reading is X03's")
}

// derived goes up to three steps from the equal objects a and b to something made of them.
func derived(t *T, a, b *box, ok func(*box) bool) (*box, *box) {
	for step := range []int{0, 0, 1, 1, 2, 3}[t.IntN(6)] {
		if a.more == nil {
			break
		}
		i := t.IntN(1 << 30)
		as, bs := a.more(t.Fork("derive", step)), b.more(t.Fork("derive", step))
		if len(as) == 0 || len(as) != len(bs) {
			break
		}
		x := i % len(as)
		if t.IntN(2) == 0 {
			x = 0 // the one that took it in
		}
		if !ok(as[x]) {
			break
		}
		a, b = as[x], bs[x]
	}
	return a, b
}

func shortName(s string) string {
	f := strings.Fields(s)
	return strings.Join(f[:min(2, len(f))], " ")
}

type asked struct {
	obj, round int
	ans        string
}

func (a asked) fork(t *T) *T { return t.Fork("ask", a.obj, a.round) }

func x8Run(t *T, mk func(t *T) *box) {
	a, b := mk(t.Fork("make")), mk(t.Fork("make"))
	a, b = derived(t, a, b, func(x *box) bool { return x.peek != nil })
	hist := a.name
	t.Desc("%s", hist)
	if a.peek == nil {
		return
	}
	t.Sig(a.name, a.look(t.Fork("look")))
	for step := range 2 + t.IntN(5) {
		state := a.look(t.Fork("look"))
		if a.lazy {
			b.look(t.Fork("look"))
		}
		var log []asked
		for q := range 1 + t.IntN(8) {
			if len(log) > 0 && t.IntN(3) == 0 { // ask an earlier question again
				o := log[t.IntN(len(log))]
				f := o.fork(t)
				ans := a.peek(f)
				t.Absorb(f)
				t.Check(ans == o.ans, "answer-changed", "%s: asked again after %d other questions it answers %s, before %s", a.name, len(log), trimString(ans), trimString(o.ans))
				t.Ev("questions repeated")
				continue
			}
			o := asked{step, q, ""}
			f := o.fork(t)
			o.ans = a.peek(f)
			t.Absorb(f)
			log = append(log, o)
			t.Sig(o.ans)
			t.Ev("questions to " + shortName(a.name))
			if t.IntN(3) == 0 {
				now := a.look(t.Fork("look"))
				t.Check(now == state, "state-changed", "%s: a question answered %s changed it: %s, was %s", a.name, trimString(o.ans), trimString(now), trimString(state))
			}
		}
		now := a.look(t.Fork("look"))
		t.Check(now == state, "state-changed", "%s: questions changed it: %s, was %s", a.name, trimString(now), trimString(state))
		if len(log) > 0 {
			t.NonTrivial()
		}
		if a.op == nil || a.imm {
			continue
		}
		fa, fb := t.Fork("op", step), t.Fork("op", step)
		a.op(fa)
		t.Absorb(fa)
		t.Ev("changes")
		if a.det && b.det {
			b.op(fb)
		}
	}
	if a.det && b.det {
		x, y := a.look(t.Fork("look")), b.look(t.Fork("look"))
		t.Check(x == y, "twin", "%s: having been asked it became %s, its twin that was not %s", a.name, trimString(x), trimString(y))
		t.Ev("twins compared")
	}
}

func x7Run(t *T, mk func(t *T) *box) {
	a, b := mk(t.Fork("make")), mk(t.Fork("make"))
	a, b = derived(t, a, b, func(x *box) bool { return x.bad != nil })
	if a.bad == nil {
		t.Desc("%s", a.name)
		return
	}
	var watched []*box
	var states []string
	hist := a.name
	for step := range 3 + t.IntN(6) {
		state := a.look(t.Fork("look"))
		if a.lazy && b != nil {
			b.look(t.Fork("look"))
		}
		for range 1 + t.IntN(4) {
			what, err, must := a.bad(t)
			hist += "; " + what
			t.Desc("%s", hist)
			if must {
				t.Check(err != nil, "accepted", "%s: %s was accepted", a.name, what)
			}
			if err == nil {
				if must {
					continue
				}
				state = a.look(t.Fork("look")) // an operation that may be accepted
				b = nil
				continue
			}
			t.Ev("refusals by " + shortName(a.name))
			t.NonTrivial()
			now := a.look(t.Fork("look"))
			t.Check(now == state, "changed", "%s: %s was refused (%v) but changed it: %s, was %s", a.name, what, err, trimString(now), trimString(state))
		}
		for i, w := range watched {
			now := w.look(t.Fork("look"))
			t.Check(now == states[i], "other-changed", "%s: refused operations changed %s: %s, was %s", a.name, w.name, trimString(now), trimString(states[i]))
		}
		if a.more != nil && t.IntN(3) == 0 && len(watched) < 6 {
			for _, w := range a.more(t.Fork("more", step)) {
				watched, states = append(watched, w), append(states, w.look(t.Fork("look")))
			}
		}
		if a.op != nil && !a.imm {
			a.op(t.Fork("op", step))
			hist += "; change"
			if b != nil && a.det && b.det {
				b.op(t.Fork("op", step))
			}
		}
	}
	t.Sig(hist)
	if b != nil && a.det && b.det {
		x, y := a.look(t.Fork("look")), b.look(t.Fork("look"))
		t.Check(x == y, "twin", "%s: after refusals it became %s, its twin without them %s", a.name, trimString(x), trimString(y))
		t.Ev("twins compared")
	}
}

// otherSeed gives a seed with another seed hash.
func otherSeed(seed uint64) uint64 {
	if seed != 77 {
		return 77
	}
	return 78
}

// pullTwo reads two iterations of a sequence in turn, and abandons one of them.
func pullTwo[A comparable](t *T, n int, seq iter.Seq[A]) []A {
	next1, stop1 := iter.Pull(seq)
	next2, stop2 := iter.Pull(seq)
	defer stop2()
	left := t.IntN(n + 2)
	var one, two []A
	for i := 0; ; i++ {
		if i == left {
			stop1()
		}
		x, ok1 := next1()
		if ok1 {
			one = append(one, x)
		}
		y, ok2 := next2()
		if !ok2 {
			break
		}
		two = append(two, y)
	}
	stop1()
	t.Check(len(two) == n && len(one) == min(left, n), "interleaved", "two iterations in turn saw %d and %d elements, expected %d and %d", len(one), len(two), min(left, n), n)
	t.Check(slices.Equal(one, two[:len(one)]), "interleaved", "two iterations in turn differ")
	return two
}

// nested iterates within an iteration and stops the outer one early.
func nested[A any](t *T, n int, seq iter.Seq[A]) {
	stop, outer := t.IntN(n+2), 0
	for range seq {
		if outer == stop {
			break
		}
		outer++
		if outer%7 == 1 {
			inner := 0
			for range seq {
				inner++
			}
			t.Check(inner == n, "nested", "an iteration within another saw %d of %d elements", inner, n)
		}
	}
	t.Check(outer == min(stop, n), "stopped", "an iteration stopped after %d elements saw %d of %d", stop, outer, n)
}

func pkTheta(s theta.Sketch, seed uint64) func(t *T) string {
	return func(t *T) string {
		n := int(s.NumRetained())
		switch t.IntN(9) {
		case 0:
			k := uint8(t.IntN(5))
			l, e1 := s.LowerBound(k)
			u, e2 := s.UpperBound(k)
			return show(k, l, u, e1, e2, s.Estimate(), s.Theta(), s.IsEstimationMode())
		case 1:
			return show(pullTwo(t, n, s.All()))
		case 2:
			nested(t, n, s.All())
			return "nested"
		case 3:
			return s.String(t.IntN(2) == 0)
		case 4:
			return xbThetaLook(theta.NewCompactSketch(s, t.IntN(2) == 0))
		case 5:
			c := theta.NewCompactSketch(s, true)
			x, err := c.MarshalBinary()
			return show(x, err, c.SerializedSizeBytes(true), c.SerializedSizeBytes(false))
		}
		o := theta.Sketch(buildTheta(t, uint8(5+t.IntN(4)), seed, 1+t.IntN(2000)))
		if t.IntN(2) == 0 {
			o = theta.NewCompactSketch(o, t.IntN(2) == 0)
		}
		x, y := s, o
		if t.IntN(2) == 0 {
			x, y = o, s
		}
		switch t.IntN(4) {
		case 0:
			r, err := theta.ANotB(x, y, seed, t.IntN(2) == 0)
			t.NoErr(err, "a-not-b")
			return xbThetaLook(r)
		case 1:
			j, e1 := theta.Jaccard(x, y, seed)
			eq, e2 := theta.IsExactlyEqual(x, y, seed)
			return show(fmt.Sprint(j), e1, eq, e2)
		case 2:
			u, err := theta.NewUnion(theta.WithUnionSeed(seed), theta.WithUnionLgK(uint8(5+t.IntN(4))))
			t.NoErr(err, "union")
			t.NoErr(u.Update(x), "union")
			t.NoErr(u.Update(y), "union")
			r, err := u.Result(true)
			t.NoErr(err, "union")
			return xbThetaLook(r)
		}
		i := theta.NewIntersection(theta.WithIntersectionSeed(seed))
		t.NoErr(i.Update(x), "intersection")
		t.NoErr(i.Update(y), "intersection")
		r, err := i.Result(true)
		t.NoErr(err, "intersection")
		return xbThetaLook(r)
	}
}

// tupleAsk is implemented by all tsk.
type tupleAsk interface{ ask(t *T) string }

func (g tskG[S]) ask(t *T) string {
	n := int(g.s.NumRetained())
	keys := func(yield func(uint64) bool) {
		for h := range g.s.All() {
			if !yield(h) {
				return
			}
		}
	}
	switch t.IntN(4) {
	case 0:
		k := uint8(t.IntN(5))
		l, e1 := g.s.LowerBound(k)
		u, e2 := g.s.UpperBound(k)
		return show(k, l, u, e1, e2, g.s.Estimate(), g.s.Theta(), g.s.IsEstimationMode())
	case 1:
		return show(pullTwo(t, n, keys))
	case 2:
		nested(t, n, keys)
		return "nested"
	}
	if _, ok := any(g.s).(tuple.Sketch[*tuple.ArrayOfNumbersSummary[float64]]); ok || t.IntN(2) == 0 {
		s := g.s.String(false)
		return s
	}
	return show(len(g.s.String(true)) > 0)
}

func pkTuple(k tkind, s tsk, seed uint64) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(6) {
		case 0, 1:
			return s.(tupleAsk).ask(t)
		case 2:
			a, b := s.subset(uint32(t.IntN(s.numRetained() + 1)))
			return show(a, b)
		case 3:
			c, err := k.compactOf(s, t.IntN(2) == 0)
			t.NoErr(err, "compact")
			return xbTupleLook(c)
		case 4:
			c, err := k.compactOf(s, t.IntN(2) == 0)
			t.NoErr(err, "compact")
			c, err = k.filterOf(c, func(v string) bool { return len(v)%2 == 0 })
			t.NoErr(err, "filter")
			if c == nil {
				return "no filter"
			}
			return xbTupleLook(c)
		}
		var o tsk = xbTupleFresh(t, k, seed).sk()
		var err error
		if t.IntN(2) == 0 {
			o, err = k.compactOf(o, t.IntN(2) == 0)
			t.NoErr(err, "compact")
		}
		x, y := s, o
		if t.IntN(2) == 0 {
			x, y = o, s
		}
		var r tsk
		switch t.IntN(4) {
		case 0:
			r, err = k.diff(x, y, seed, t.IntN(2) == 0)
		case 1:
			j, ok, err := k.jaccard(x, y, seed)
			return show(fmt.Sprint(j), ok, err)
		case 2:
			u, e := k.union(uint8(5+t.IntN(4)), theta.ResizeX2, 1, seed)
			t.NoErr(e, "union")
			t.NoErr(u.update(x), "union")
			t.NoErr(u.update(y), "union")
			r, err = u.result(true)
		default:
			u := k.inter(seed)
			t.NoErr(u.update(x), "intersection")
			t.NoErr(u.update(y), "intersection")
			r, err = u.result(true)
		}
		t.NoErr(err, "result")
		return xbTupleLook(r)
	}
}

type hllReader interface {
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	GetEstimate() (float64, error)
	GetCompositeEstimate() (float64, error)
	IsEmpty() bool
	GetUpdatableSerializationBytes() int
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
}

func pkHllNums(t *T, s hllReader) string {
	switch t.IntN(5) {
	case 0:
		k := t.IntN(5)
		l, e1 := s.GetLowerBound(k)
		u, e2 := s.GetUpperBound(k)
		return show(k, l, u, e1, e2)
	case 1:
		e, err := s.GetEstimate()
		return show(e, err)
	case 2:
		e, err := s.GetCompositeEstimate()
		return show(e, err)
	case 3:
		x, err := s.ToCompactSlice()
		return show(x, err)
	}
	x, err := s.ToUpdatableSlice()
	return show(x, err, s.IsEmpty(), s.GetUpdatableSerializationBytes())
}

func pkHll(s hll.HllSketch) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(4) {
		case 0:
			c, err := s.CopyAs(hll.TgtHllType(t.IntN(3)))
			t.NoErr(err, "copy")
			if t.IntN(2) == 0 { // use the copy
				xbHllOp(t, c, c.GetLgConfigK(), c.Reset)
			}
			return pkHllNums(t, c)
		case 1:
			u, err := hll.NewUnion(4 + t.IntN(7))
			t.NoErr(err, "union")
			t.NoErr(u.UpdateSketch(s), "union")
			t.NoErr(u.UpdateSketch(xbHllFresh(t, 4+t.IntN(7))), "union")
			return pkHllNums(t, u)
		}
		return pkHllNums(t, s)
	}
}

func pkHllUnion(u hll.Union) func(t *T) string {
	return func(t *T) string {
		if t.IntN(2) == 0 {
			r, err := u.GetResult(hll.TgtHllType(t.IntN(3)))
			t.NoErr(err, "result")
			return pkHll(r)(t)
		}
		return pkHllNums(t, u)
	}
}

func pkCpc(s *cpc.CpcSketch, seed uint64) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(6) {
		case 0:
			return s.String()
		case 1:
			x, err := s.ToCompactSlice()
			return show(x, err)
		case 2:
			c, err := s.Copy()
			t.NoErr(err, "copy")
			for range 30 {
				t.NoErr(c.UpdateUint64(t.Uint64()), "update")
			}
			return show(c.GetEstimate())
		case 3:
			u, err := cpc.NewCpcUnionSketch(4+t.IntN(5), seed)
			t.NoErr(err, "union")
			t.NoErr(u.Update(xbCpcFresh(t, seed)), "union")
			t.NoErr(u.Update(s), "union")
			r, err := u.GetResult()
			t.NoErr(err, "result")
			x, err := r.ToCompactSlice()
			return show(x, err)
		}
		k := 1 + t.IntN(3)
		return show(s.GetEstimate(), s.GetLowerBound(k), s.GetUpperBound(k), s.GetLgK())
	}
}

func pkKll[C comparable](kd *kllKind[C], s *kll.ItemsSketch[C]) func(t *T) string {
	return func(t *T) string {
		inc := t.IntN(2) == 0
		x := kd.of(int64(t.IntN(1000)))
		switch t.IntN(12) {
		case 0:
			r, err := s.GetRank(x, inc)
			return show(r, err)
		case 1:
			q, err := s.GetQuantile(t.Float64()*1.2-0.1, inc)
			return show(q, err)
		case 2:
			q, err := s.GetPartitionBoundaries(t.IntN(6), inc)
			if err != nil {
				return show(err)
			}
			return show(fmt.Sprint(q.GetBoundaries()))
		case 3:
			a, b := kd.of(int64(t.IntN(1000))), x
			q, err := s.GetCDF([]C{a, b}, inc) // often refused
			return show(fmt.Sprint(q), err)
		case 4:
			q, err := s.GetPMF([]C{x}, inc)
			return show(fmt.Sprint(q), err)
		case 5:
			lo, e1 := s.GetMinItem()
			hi, e2 := s.GetMaxItem()
			return show(lo, hi, e1, e2, s.GetN(), s.GetNumRetained(), s.IsEstimationMode(), s.GetNormalizedRankError(inc))
		case 6: // two iterations in turn, one abandoned
			a, b := s.GetIterator(), s.GetIterator()
			left := t.IntN(int(s.GetNumRetained()) + 2)
			var sb strings.Builder
			for i := 0; b.Next(); i++ {
				if i < left {
					t.Check(a.Next() && a.GetQuantile() == b.GetQuantile() && a.GetWeight() == b.GetWeight(), "interleaved", "two iterations in turn differ")
				}
				fmt.Fprint(&sb, b.GetQuantile(), b.GetWeight(), " ")
			}
			return sb.String()
		case 7:
			if s.IsEmpty() {
				_, err := s.GetSortedView()
				return show(err)
			}
			sv, err := s.GetSortedView()
			t.NoErr(err, "view")
			r, e1 := sv.GetRank(x, inc)
			q, e2 := sv.GetQuantile(t.Float64(), inc)
			n := 0
			for it := sv.Iterator(); it.Next() && n < 5; n++ {
				_, _, _ = it.GetNaturalRank(inc), it.GetNormalizedRank(inc), it.GetQuantile()
			}
			return show(r, q, e1, e2)
		case 8:
			b, err := s.ToSlice()
			n, e2 := s.GetSerializedSizeBytes()
			return show(b, err, n, e2)
		case 9:
			items := s.GetTotalItemsArray()
			return show(len(items), fmt.Sprint(items))
		case 10:
			o, m := kllNew(t, kd, uint16(8+t.IntN(30)), 8)
			kllFeed(t, o, m, t.IntN(100))
			o.Merge(s)
			return show(o.GetN())
		}
		r, err := s.GetRanks([]C{x, x}, inc)
		return show(fmt.Sprint(r), err)
	}
}

func pkReq(s *req.Sketch, hra bool) func(t *T) string {
	return func(t *T) string {
		var o []req.SearchCriteriaOptionFunc
		if t.IntN(2) == 0 {
			o = append(o, req.WithExclusiveSearch())
		}
		x := float32(t.IntN(1000))
		p := t.Float64()*1.2 - 0.1
		switch t.IntN(12) {
		case 0:
			r, err := s.Rank(x, o...)
			return show(r, err)
		case 1:
			q, err := s.Quantile(p, o...)
			return show(q, err)
		case 2:
			q, err := s.CDF([]float32{x, float32(t.IntN(1000))}, len(o) > 0) // often refused
			return show(fmt.Sprint(q), err)
		case 3:
			q, err := s.PMF([]float32{x}, o...)
			return show(fmt.Sprint(q), err)
		case 4:
			l, e1 := s.RankLowerBound(p)
			u, e2 := s.RankUpperBound(p)
			return show(l, u, e1, e2)
		case 5:
			l, e1 := s.QuantileLowerBound(p)
			u, e2 := s.QuantileUpperBound(p)
			return show(l, u, e1, e2)
		case 6:
			return s.String()
		case 7:
			return s.CompactorDetailString(t.IntN(2) == 0)
		case 8:
			if s.IsEmpty() {
				return "empty"
			}
			sv, err := s.SortedView()
			t.NoErr(err, "view")
			n := 0
			for it := sv.Iterator(); it.Next() && n < 5; n++ {
			}
			return show(n)
		case 9:
			d, m := reqNew(t, s.K(), hra)
			reqFeed(t, d, m, t.IntN(100))
			t.NoErr(d.Merge(s), "merge")
			return show(d.N())
		case 10:
			lo, e1 := s.MinItem()
			hi, e2 := s.MaxItem()
			return show(lo, hi, e1, e2, s.N(), s.NumRetained(), s.IsEstimationMode(), fmt.Sprint(s.All()))
		}
		r, err := s.Ranks([]float32{x, 5}, o...)
		q, e2 := s.Quantiles([]float64{0, p}, o...)
		return show(fmt.Sprint(r), err, fmt.Sprint(q), e2)
	}
}

func pkTd(d *tdigest.Double) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(9) {
		case 0:
			r, err := d.Rank(float64(t.IntN(10000)) / 8)
			return show(r, err)
		case 1:
			q, err := d.Quantile(t.Float64()*1.2 - 0.1)
			return show(q, err)
		case 2:
			q, err := d.CDF([]float64{float64(t.IntN(1000)), float64(t.IntN(1000))}) // often refused
			return show(fmt.Sprint(q), err)
		case 3:
			q, err := d.PMF([]float64{float64(t.IntN(1000))})
			return show(fmt.Sprint(q), err)
		case 4:
			return show(d.K(), d.TotalWeight(), d.IsEmpty())
		case 5:
			x, err := tdigest.EncodeDouble(d, false)
			return show(x, err)
		case 6:
			return show(len(d.String(false)) > 0, len(d.String(true)) > 0)
		case 7:
			if d.IsEmpty() {
				return "empty"
			}
			o, _ := tdGrow(t, uint16(10+t.IntN(60)), t.IntN(100), 0)
			t.NoErr(o.Merge(d), "merge")
			x, err := tdigest.EncodeDouble(o, false)
			return show(x, err)
		}
		lo, e1 := d.MinValue()
		hi, e2 := d.MaxValue()
		return show(lo, hi, e1, e2)
	}
}

func pkFq[C comparable](k *fqKind[C], x *fqBox[C]) func(t *T) string {
	return func(t *T) string {
		c := k.key(t.IntN(300))
		switch t.IntN(7) {
		case 0:
			e, e1 := x.GetEstimate(c)
			l, e2 := x.GetLowerBound(c)
			u, e3 := x.GetUpperBound(c)
			return show(e, l, u, e1, e2, e3)
		case 1:
			r, err := x.rows(int64(t.IntN(30)), t.IntN(2) == 0, t.IntN(2) == 0)
			return show(fmt.Sprint(r), err)
		case 2:
			return show(len(x.String()) > 0)
		case 3:
			s, err := x.ToString()
			return show(s, err)
		case 4:
			if !k.serde {
				return ""
			}
			b, err := x.image()
			return show(b, err)
		case 5:
			o := fqNew(t, k, 3+t.IntN(4))
			fqFeed(t, k, t.IntN(100), o)
			t.NoErr(o.merge(x), "merge")
			return show(o.GetStreamLength())
		}
		return show(x.GetMaximumError(), x.GetStreamLength(), x.GetNumActiveItems(), x.GetCurrentMapCapacity(), x.GetMaximumMapCapacity(), x.IsEmpty())
	}
}

func pkCm(s *cm.CountMinSketch, seed int64) func(t *T) string {
	return func(t *T) string {
		b := []byte(fmt.Sprint("item-", t.IntN(50)))
		switch t.IntN(5) {
		case 0:
			return show(s.GetEstimate(b), s.GetLowerBound(b), s.GetUpperBound(b))
		case 1:
			u := t.Uint64N(50)
			return show(s.GetEstimateUint64(u), s.GetLowerBoundUint64(u), s.GetUpperBoundUint64(u))
		case 2:
			return show(s.GetEstimateString(string(b)), s.GetRelativeError(), s.GetTotalWeight())
		case 3:
			o, err := cm.NewCountMinSketch(s.GetNumHashes(), s.GetNumBuckets(), seed)
			t.NoErr(err, "new")
			t.NoErr(o.Merge(s), "merge")
			return show(cmImage(t, o))
		}
		d, err := s.Deserialize(cmImage(t, s), seed)
		t.NoErr(err, "deserialize")
		return show(cmImage(t, d))
	}
}

func pkBf(f bf.BloomFilter) func(t *T) string {
	return func(t *T) string {
		it := blMake(t)
		switch t.IntN(4) {
		case 0:
			return show(it.query(t, f))
		case 1:
			return show(f.BitsUsed(), f.IsEmpty(), f.Capacity(), f.NumHashes(), f.Seed())
		case 2:
			o := blNewOf(t, f.Capacity(), f.NumHashes(), f.Seed())
			it.update(t, o)
			r := f.IsCompatible(o)
			if t.IntN(2) == 0 {
				t.NoErr(o.Union(f), "union")
			} else {
				t.NoErr(o.Intersect(f), "intersect")
			}
			return show(r, blImage(t, o))
		}
		return show(blImage(t, f))
	}
}

func pkSum[I comparable](t *T, kd *spKind[I], f func(func(I) bool) (sp.SampleSubsetSummary, error)) string {
	in := map[I]bool{}
	for range 30 {
		in[kd.key(t.IntN(1000))] = true
	}
	s, err := f(func(x I) bool { return in[x] })
	return show(fmt.Sprint(s), err)
}

func pkRes[I comparable](kd *spKind[I], s *sp.ReservoirItemsSketch[I]) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(5) {
		case 0:
			return pkSum(t, kd, s.EstimateSubsetSum)
		case 1:
			return show(s.String())
		case 2:
			c := s.Copy()
			t.NoErr(c.Update(kd.key(1)), "update")
			return show(c.N())
		case 3:
			u, err := sp.NewReservoirItemsUnion[I](2 + t.IntN(20))
			t.NoErr(err, "union")
			t.NoErr(u.UpdateSketch(s), "union")
			t.NoErr(u.UpdateSketch(xbResFresh(t, kd)), "union")
			return "used"
		}
		x, err := s.ToSlice(kd.serde)
		return show(fmt.Sprint(s.Samples()), s.N(), s.K(), s.NumSamples(), x, err)
	}
}

func pkResUnion[I comparable](kd *spKind[I], u *sp.ReservoirItemsUnion[I]) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(3) {
		case 0:
			return u.String()
		case 1:
			x, err := u.ToSlice(kd.serde)
			return show(x, err)
		}
		r, err := u.Result()
		t.NoErr(err, "result")
		if r == nil {
			return "nothing"
		}
		a := pkRes(kd, r)(t)
		t.NoErr(r.Update(kd.key(3)), "update")
		return a
	}
}

func pkVar[I comparable](kd *spKind[I], s *sp.VarOptItemsSketch[I]) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(6) {
		case 0:
			return pkSum(t, kd, s.EstimateSubsetSum)
		case 1:
			return s.String()
		case 2:
			return show(fmt.Sprint(pullTwo(t, s.NumSamples(), s.All())))
		case 3:
			nested(t, s.NumSamples(), s.All())
			return "nested"
		case 4:
			u, err := sp.NewVarOptItemsUnion[I](uint(2 + t.IntN(20)))
			t.NoErr(err, "union")
			t.NoErr(u.Update(s), "union")
			t.NoErr(u.Update(xbVarFresh(t, kd)), "union")
			_, err = u.Result()
			t.NoErr(err, "result")
			return "used"
		}
		return show(s.N(), s.K(), s.H(), s.R(), s.SerializedSizeBytes(kd.serde), vwImage(t, s, kd.serde))
	}
}

func pkVarUnion[I comparable](kd *spKind[I], u *sp.VarOptItemsUnion[I]) func(t *T) string {
	return func(t *T) string {
		switch t.IntN(3) {
		case 0:
			return u.String()
		case 1:
			return show(vuImage(t, u, kd.serde))
		}
		r, err := u.Result()
		t.NoErr(err, "result")
		n := r.N()
		t.NoErr(r.Update(kd.key(3), 2), "update")
		return show(n)
	}
}

var _ = bytes.Equal
var _ = math.NaN
