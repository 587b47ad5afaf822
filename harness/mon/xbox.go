package mon

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"

	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	fq "github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
)

// box is anything with a state of its own: a sketch, or a slice handed to or
// returned by one. No two boxes share storage.
type box struct {
	name string
	det  bool       // op depends on the case's random stream only
	op   func(t *T) // change it (nil: immutable)
	raw  []byte
	lazy bool              // reading it may settle pending work, which its later evolution depends on
	imm  bool              // look and more may run concurrently
	look func(t *T) string // its whole observable state
	more func(t *T) []*box // copies, images, decoded images, results, merged sources
	read func(t *T)        // extra read-only use (immutable boxes)
	peek func(t *T) string // one of its queries, iterations or uses as an input, with its answer
	bad  func(t *T) (what string, err error, must bool)
	as   any // the object, for use as an input
}

func sliceBox[E any](name string, s []E, change func(t *T, e *E)) *box {
	return &box{name: name, det: true,
		op: func(t *T) {
			for i := range s {
				change(t, &s[i])
			}
		},
		look: func(*T) string { return fmt.Sprintf("%v", s) }}
}

func byteBox(name string, b []byte) *box {
	x := sliceBox(name, b, func(t *T, e *byte) { *e = byte(t.Uint32()) })
	x.raw = b
	return x
}

func numBox[E int64 | uint64 | float32 | float64](name string, s []E) *box {
	return sliceBox(name, s, func(t *T, e *E) { *e = E(t.IntN(1000)) })
}

// keyBox is a box of items of any kind; change overwrites them with one of them.
func keyBox[E any](name string, s []E, other E) *box {
	return sliceBox(name, s, func(t *T, e *E) { *e = other })
}

// imageOf is what decodes an image.
type imageOf struct {
	decode []func(b []byte) (*box, error)
}

// viaImage boxes an image and what decodes from it; wraps keep using the bytes.
func viaImage(t *T, name string, img []byte, err error, decode ...func(b []byte) (*box, error)) (out []*box) {
	t.NoErr(err, "encode")
	ib := byteBox(name+" image", img)
	ib.as = imageOf{decode}
	out = append(out, ib)
	for _, d := range decode {
		in := slices.Clone(img)
		b, err := d(in)
		t.NoErr(err, "decode")
		b.name += " (decoded)"
		out = append(out, byteBox(name+" decoded bytes", in), b)
	}
	return
}

func show(parts ...any) string {
	var sb strings.Builder
	for _, p := range parts {
		switch v := p.(type) {
		case float64:
			fmt.Fprintf(&sb, "%x|", math.Float64bits(v))
		case []byte:
			fmt.Fprintf(&sb, "%x|", v)
		default:
			fmt.Fprintf(&sb, "%v|", v)
		}
	}
	return sb.String()
}

// ---- theta

func xbThetaLook(s theta.Sketch) string {
	sn := snapOf(s)
	l, e1 := s.LowerBound(2)
	u, e2 := s.UpperBound(2)
	return show(sn.theta, sn.order, sn.empty, sn.ordered, sn.seed, s.Estimate(), l, u, e1, e2, s.NumRetained(), s.String(false))
}

func xbThetaUpdate(t *T) *box {
	seed := seedsPool[t.IntN(len(seedsPool))]
	return xbTheta(buildTheta(t, uint8(5+t.IntN(4)), seed, 1+t.IntN(2000)), seed)
}

func xbTheta(s *theta.QuickSelectUpdateSketch, seed uint64) *box {
	b := &box{name: "theta update", det: true, as: s}
	b.peek, b.bad = pkTheta(s, seed), bdTheta(s, seed)
	b.op = func(t *T) {
		switch t.IntN(12) {
		case 0:
			s.Trim()
		case 1:
			if t.IntN(4) == 0 {
				s.Reset()
			}
		default:
			for range 1 + t.IntN(40) {
				it := randItem(t, 3000)
				_ = it.feed(s)
				for i := range it.b {
					it.b[i] = 0x77
				}
			}
		}
	}
	b.look = func(*T) string { return xbThetaLook(s) }
	b.more = func(t *T) []*box {
		if t.IntN(3) == 0 {
			return []*box{xbThetaCompact(theta.NewCompactSketch(s, t.IntN(2) == 0), seed)}
		}
		return []*box{xbThetaCompact(s.Compact(t.IntN(2) == 0), seed)}
	}
	return b
}

func xbThetaCompact(s *theta.CompactSketch, seed uint64) *box {
	b := &box{name: "theta compact", det: true, imm: true, as: theta.Sketch(s)}
	b.peek, b.bad = pkTheta(s, seed), bdTheta(s, seed)
	b.look = func(t *T) string {
		x, e1 := s.MarshalBinary()
		var buf bytes.Buffer
		enc := theta.NewEncoder(&buf, true)
		e2 := enc.Encode(s)
		return show(xbThetaLook(s), x, e1, buf.Bytes(), e2)
	}
	b.more = func(t *T) (out []*box) {
		switch t.IntN(6) {
		case 0:
			return []*box{xbThetaCompact(theta.NewCompactSketch(s, t.IntN(2) == 0), seed)}
		case 1, 2:
			return xbThetaSet(t, s, seed)
		case 3:
			img, err := s.MarshalBinary()
			t.NoErr(err, "encode")
			w, err := theta.WrapCompactSketch(img, seed)
			t.NoErr(err, "wrap")
			return []*box{xbThetaWrapped(w, seed)}
		}
		img, err := s.MarshalBinary()
		if t.IntN(2) == 0 {
			img = encodeTheta(t, s, t.IntN(2) == 0)
		}
		return viaImage(t, b.name, img, err, func(x []byte) (*box, error) {
			c, err := theta.Decode(x, seed)
			return xbThetaCompact(c, seed), err
		}, func(x []byte) (*box, error) {
			d := theta.NewDecoder(seed)
			c, err := d.Decode(bytes.NewReader(x))
			return xbThetaCompact(c, seed), err
		})
	}
	return b
}

// xbThetaWrapped reads straight from its image, which nobody else holds.
func xbThetaWrapped(w *theta.WrappedCompactSketch, seed uint64) *box {
	return &box{name: "theta wrapped", det: true, imm: true, as: theta.Sketch(w), look: func(*T) string { return xbThetaLook(w) },
		peek: pkTheta(w, seed), bad: bdTheta(w, seed),
		more: func(t *T) []*box {
			if t.IntN(3) == 0 {
				return xbThetaSet(t, w, seed)
			}
			return []*box{xbThetaCompact(theta.NewCompactSketch(w, t.IntN(2) == 0), seed)}
		}}
}

// xbThetaSet feeds s to set operations and returns them and their results.
func xbThetaSet(t *T, s theta.Sketch, seed uint64) []*box {
	other := buildTheta(t, uint8(5+t.IntN(4)), seed, 1+t.IntN(2000))
	switch t.IntN(4) {
	case 0:
		u, err := theta.NewUnion(theta.WithUnionSeed(seed), theta.WithUnionLgK(uint8(5+t.IntN(4))))
		t.NoErr(err, "union")
		b := &box{name: "theta union", det: true,
			bad: bdThetaUnion(u, seed),
			peek: func(t *T) string {
				r, err := u.Result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return pkTheta(r, seed)(t)
			},
			op: func(t *T) {
				if t.IntN(8) == 0 {
					u.Reset()
				}
				t.NoErr(u.Update(buildTheta(t, 6, seed, 500)), "union")
			},
			look: func(t *T) string { r, err := u.Result(true); t.NoErr(err, "result"); return xbThetaLook(r) },
			more: func(t *T) []*box {
				r, err := u.Result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return []*box{xbThetaCompact(r, seed)}
			}}
		if t.IntN(4) > 0 {
			t.NoErr(u.Update(s), "union")
		}
		if t.IntN(2) == 0 {
			t.NoErr(u.Update(other), "union")
		}
		return []*box{b, xbTheta(other, seed)}
	case 1:
		x := theta.NewIntersection(theta.WithIntersectionSeed(seed))
		t.NoErr(x.Update(s), "intersection")
		if t.IntN(2) == 0 {
			t.NoErr(x.Update(other), "intersection")
		}
		return []*box{{name: "theta intersection", det: true,
			bad: bdThetaInter(x, seed),
			peek: func(t *T) string {
				r, err := x.Result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return pkTheta(r, seed)(t)
			},
			op:   func(t *T) { t.NoErr(x.Update(buildTheta(t, 6, seed, 500)), "intersection") },
			look: func(t *T) string { r, err := x.Result(true); t.NoErr(err, "result"); return xbThetaLook(r) },
			more: func(t *T) []*box {
				r, err := x.Result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return []*box{xbThetaCompact(r, seed)}
			}}, xbTheta(other, seed)}
	case 2:
		j, err := theta.Jaccard(s, other, seed)
		_, _ = j, err
	}
	a, c := s, theta.Sketch(other)
	if t.IntN(2) == 0 {
		a, c = c, a
	}
	r, err := theta.ANotB(a, c, seed, t.IntN(2) == 0)
	t.NoErr(err, "a-not-b")
	return []*box{xbThetaCompact(r, seed), xbTheta(other, seed)}
}

// ---- tuple

func xbTupleLook(s tsk) string {
	sn := s.snap()
	e, lb, ub, errs := s.est()
	return show(sn.theta, sn.order, sn.empty, sn.ordered, sn.seed, sn.sum, e, lb, ub, errs)
}

func xbTupleFresh(t *T, k tkind, seed uint64) tupd {
	s, err := k.newUpdate(uint8(5+t.IntN(4)), theta.ResizeFactor(t.IntN(4)), []float32{1, 1, 0.5}[t.IntN(3)], seed)
	t.NoErr(err, "new")
	for range t.IntN(4) * t.IntN(120) {
		_ = s.feed(randItem(t, 2000), int64(t.IntN(50)))
	}
	return s
}

func xbTupleUpdate(t *T) *box {
	k := tupleKinds(t)
	seed := seedsPool[t.IntN(len(seedsPool))]
	return xbTuple(k, xbTupleFresh(t, k, seed), seed)
}

func xbTuple(k tkind, s tupd, seed uint64) *box {
	b := &box{name: "tuple update " + k.name(), det: true}
	b.peek, b.bad = pkTuple(k, s.sk(), seed), bdTuple(k, s.sk(), seed)
	b.op = func(t *T) {
		switch t.IntN(12) {
		case 0:
			s.trim()
		case 1:
			if t.IntN(4) == 0 {
				s.reset()
			}
		case 2:
			s.sk().poke()
		default:
			for range 1 + t.IntN(40) {
				_ = s.feed(randItem(t, 2000), int64(t.IntN(50)))
			}
		}
	}
	b.look = func(*T) string { return xbTupleLook(s.sk()) }
	b.more = func(t *T) []*box {
		var c tsk
		var err error
		switch t.IntN(4) {
		case 0:
			c, err = k.compactOf(s.sk(), t.IntN(2) == 0)
		case 1:
			return xbTupleSet(t, k, s.sk(), seed)
		case 2:
			c, err = s.filter(func(string) bool { return true })
			if c == nil && err == nil {
				return nil
			}
		default:
			c, err = s.compact(t.IntN(2) == 0)
		}
		t.NoErr(err, "compact")
		return []*box{xbTupleCompact(k, c, seed)}
	}
	return b
}

func xbTupleCompact(k tkind, s tsk, seed uint64) *box {
	b := &box{name: "tuple compact " + k.name(), det: true, imm: true, as: s}
	b.peek, b.bad = pkTuple(k, s, seed), bdTuple(k, s, seed)
	b.op = func(t *T) { s.poke() }
	b.look = func(t *T) string {
		x, err := k.encode(s)
		return show(xbTupleLook(s), x, err)
	}
	b.more = func(t *T) []*box {
		switch t.IntN(5) {
		case 0:
			c, err := k.compactOf(s, t.IntN(2) == 0)
			t.NoErr(err, "compact")
			return []*box{xbTupleCompact(k, c, seed)}
		case 1:
			c, err := k.filterOf(s, func(string) bool { return true })
			t.NoErr(err, "filter")
			if c == nil {
				return nil
			}
			return []*box{xbTupleCompact(k, c, seed)}
		case 2:
			return xbTupleSet(t, k, s, seed)
		}
		img, err := k.encode(s)
		return viaImage(t, b.name, img, err, func(x []byte) (*box, error) {
			c, err := k.decode(x, seed)
			if err != nil {
				return nil, err
			}
			return xbTupleCompact(k, c, seed), nil
		})
	}
	return b
}

func xbTupleSet(t *T, k tkind, s tsk, seed uint64) []*box {
	other := xbTupleFresh(t, k, seed)
	setBox := func(name string, x tset) *box {
		return &box{name: name + k.name(), det: true,
			bad: func(t *T) (string, error, bool) {
				o := xbTupleFresh(t, k, seed^1)
				_ = o.feed(item{kind: itInt64, i: 1}, 1)
				for range 300 { // enough for one to pass any sampling
					_ = o.feed(randItem(t, 2000), 1)
				}
				must := strings.Contains(name, "union")
				if !must { // an intersection that is empty stays so whatever it is given
					r, err := x.result(true)
					t.NoErr(err, "result")
					must = r.numRetained() > 0
				}
				return name + "update with another seed", x.update(o.sk()), must
			},
			peek: func(t *T) string {
				r, err := x.result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return pkTuple(k, r, seed)(t)
			},
			op:   func(t *T) { t.NoErr(x.update(xbTupleFresh(t, k, seed).sk()), "set-update") },
			look: func(t *T) string { r, err := x.result(true); t.NoErr(err, "result"); return xbTupleLook(r) },
			more: func(t *T) []*box {
				r, err := x.result(t.IntN(2) == 0)
				t.NoErr(err, "result")
				return []*box{xbTupleCompact(k, r, seed)}
			}}
	}
	switch t.IntN(3) {
	case 0:
		u, err := k.union(uint8(5+t.IntN(4)), theta.ResizeX2, 1, seed)
		t.NoErr(err, "union")
		if t.IntN(4) > 0 {
			t.NoErr(u.update(s), "union")
		}
		if t.IntN(2) == 0 {
			t.NoErr(u.update(other.sk()), "union")
		}
		return []*box{setBox("tuple union ", u), xbTuple(k, other, seed)}
	case 1:
		x := k.inter(seed)
		t.NoErr(x.update(s), "intersection")
		if t.IntN(2) == 0 {
			t.NoErr(x.update(other.sk()), "intersection")
		}
		return []*box{setBox("tuple intersection ", x), xbTuple(k, other, seed)}
	}
	a, c := s, other.sk()
	if t.IntN(2) == 0 {
		a, c = c, a
	}
	r, err := k.diff(a, c, seed, t.IntN(2) == 0)
	t.NoErr(err, "a-not-b")
	return []*box{xbTupleCompact(k, r, seed), xbTuple(k, other, seed)}
}

// ---- hll

func xbHllFresh(t *T, lgK int) hll.HllSketch {
	s := hllNew(t, lgK, hll.TgtHllType(t.IntN(3)))
	for _, it := range hllStream(t, lgK, t.IntN(4)*t.IntN(300), 0.05, 1<<40) {
		t.NoErr(it.feed(s), "update")
	}
	return s
}

func xbHllSketch(t *T) *box { return xbHll(xbHllFresh(t, 4+t.IntN(7))) }

func xbHllOp(t *T, s hllUpdater, lgK int, reset func() error) {
	if t.IntN(25) == 0 {
		t.NoErr(reset(), "reset")
		return
	}
	for _, it := range hllStream(t, lgK, 1+t.IntN(40), 0.05, 1<<40) {
		it.b = slices.Clone(it.b)
		t.NoErr(it.feed(s), "update")
		for i := range it.b {
			it.b[i] = 0x77
		}
	}
}

func xbHll(s hll.HllSketch) *box {
	b := &box{name: "hll", det: true, as: s}
	b.peek, b.bad = pkHll(s), bdHll(s)
	b.op = func(t *T) { xbHllOp(t, s, s.GetLgConfigK(), s.Reset) }
	b.look = func(t *T) string {
		x, e1 := s.ToCompactSlice()
		y, e2 := s.ToUpdatableSlice()
		e, e3 := s.GetEstimate()
		c, e4 := s.GetCompositeEstimate()
		return show(x, y, e, c, e1, e2, e3, e4, s.GetCurMode(), s.GetTgtHllType())
	}
	dec := func(x []byte) (*box, error) {
		d, err := hll.NewHllSketchFromSlice(x, true)
		if err != nil {
			return nil, err
		}
		return xbHll(d), nil
	}
	b.more = func(t *T) []*box {
		var c hll.HllSketch
		var err error
		switch t.IntN(5) {
		case 0:
			c, err = s.Copy()
		case 1:
			c, err = s.CopyAs(hll.TgtHllType(t.IntN(3)))
		case 2:
			x, err := s.ToUpdatableSlice()
			return viaImage(t, b.name, x, err, dec)
		case 3:
			x, err := s.ToCompactSlice()
			return viaImage(t, b.name, x, err, dec)
		default:
			u, err := hll.NewUnion(4 + t.IntN(7))
			t.NoErr(err, "union")
			if t.IntN(2) == 0 {
				t.NoErr(u.UpdateSketch(xbHllFresh(t, 4+t.IntN(7))), "union")
			}
			t.NoErr(u.UpdateSketch(s), "union")
			return []*box{xbHllUnion(u)}
		}
		t.NoErr(err, "copy")
		return []*box{xbHll(c)}
	}
	return b
}

// hllPlain clears the fields of an HLL-mode image that have no meaning: the
// accumulator of a sketch marked out of order and, in HLL_6 and HLL_8, the
// current minimum and its count.
func hllPlain(x []byte) []byte {
	if len(x) < 40 || x[7]&3 != 2 {
		return x
	}
	x = slices.Clone(x)
	if x[5]&16 != 0 {
		clear(x[8:16])
	}
	if x[7]>>2&3 != 0 {
		x[6] = 0
		clear(x[32:36])
	}
	return x
}

func xbHllUnion(u hll.Union) *box {
	b := &box{name: "hll union", det: true}
	b.peek, b.bad = pkHllUnion(u), bdHll(u)
	b.op = func(t *T) {
		if t.IntN(3) == 0 {
			t.NoErr(u.UpdateSketch(xbHllFresh(t, 4+t.IntN(7))), "union")
			return
		}
		xbHllOp(t, u, u.GetLgConfigK(), u.Reset)
	}
	b.look = func(t *T) string {
		x, e1 := u.ToCompactSlice()
		y, e2 := u.ToUpdatableSlice()
		e, e3 := u.GetEstimate()
		c, e4 := u.GetCompositeEstimate()
		return show(hllPlain(x), hllPlain(y), e, c, e1, e2, e3, e4)
	}
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			x, err := u.ToCompactSlice()
			if t.IntN(2) == 0 {
				x, err = u.ToUpdatableSlice()
			}
			return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
				d, err := hll.NewUnionFromSlice(x)
				if err != nil {
					return nil, err
				}
				return xbHllUnion(d), nil
			})
		}
		r, err := u.GetResult(hll.TgtHllType(t.IntN(3)))
		t.NoErr(err, "result")
		return []*box{xbHll(r)}
	}
	return b
}

// ---- cpc

func xbCpcFresh(t *T, seed uint64) *cpc.CpcSketch {
	lgK := 4 + t.IntN(5)
	s := cpcNew(t, lgK, seed)
	for _, it := range cpcStream(t, lgK, cpcSize(t, lgK)%(60<<lgK), seed, 0.02) {
		t.NoErr(it.feed(s), "update")
	}
	return s
}

func xbCpcSketch(t *T) *box {
	seed := cpcSeed(t)
	return xbCpc(xbCpcFresh(t, seed), seed)
}

func xbCpc(s *cpc.CpcSketch, seed uint64) *box {
	b := &box{name: "cpc", det: true, as: s}
	b.peek, b.bad = pkCpc(s, seed), bdCpc(s, seed)
	b.op = func(t *T) {
		for _, it := range cpcStream(t, s.GetLgK(), 1+t.IntN(40), seed, 0.05) {
			it.b = slices.Clone(it.b)
			t.NoErr(it.feed(s), "update")
			for i := range it.b {
				it.b[i] = 0x77
			}
		}
	}
	b.look = func(t *T) string {
		x, err := s.ToCompactSlice()
		return show(x, err, s.GetEstimate(), s.GetLowerBound(2), s.GetUpperBound(2))
	}
	b.more = func(t *T) []*box {
		switch t.IntN(4) {
		case 0:
			c, err := s.Copy()
			t.NoErr(err, "copy")
			return []*box{xbCpc(c, seed)}
		case 1:
			u, err := cpc.NewCpcUnionSketch(4+t.IntN(5), seed)
			t.NoErr(err, "union")
			if t.IntN(2) == 0 {
				t.NoErr(u.Update(xbCpcFresh(t, seed)), "union")
			}
			t.NoErr(u.Update(s), "union")
			return []*box{xbCpcUnion(&u, seed)}
		}
		x, err := s.ToCompactSlice()
		return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
			d, err := cpc.NewCpcSketchFromSlice(x, seed)
			if err != nil {
				return nil, err
			}
			return xbCpc(d, seed), nil
		})
	}
	return b
}

func xbCpcUnion(u *cpc.CpcUnion, seed uint64) *box {
	return &box{name: "cpc union", det: true,
		bad: func(t *T) (string, error, bool) {
			o := xbCpcFresh(t, seed^2)
			_ = o.UpdateInt64(5)
			return "union with another seed", u.Update(o), true
		},
		peek: func(t *T) string {
			r, err := u.GetResult()
			t.NoErr(err, "result")
			return pkCpc(r, seed)(t)
		},
		op: func(t *T) { t.NoErr(u.Update(xbCpcFresh(t, seed)), "union") },
		look: func(t *T) string {
			r, err := u.GetResult()
			t.NoErr(err, "result")
			x, err := r.ToCompactSlice()
			m, e2 := u.GetBitMatrix()
			return show(x, err, m, e2)
		},
		more: func(t *T) []*box {
			m, err := u.GetBitMatrix()
			t.NoErr(err, "matrix")
			r, err := u.GetResult()
			t.NoErr(err, "result")
			return []*box{xbCpc(r, seed), numBox("cpc union matrix", m)}
		}}
}

// ---- kll, req, t-digest

func xbKllSketch(t *T) *box {
	switch t.IntN(3) {
	case 0:
		return xbKllOf[int64](t)
	case 1:
		return xbKllOf[float64](t)
	}
	return xbKllOf[string](t)
}

func xbKllOf[C comparable](t *T) *box {
	kd := kllKindOf[C](t)
	k := uint16(8 + t.IntN(30))
	s, m := kllNew(t, kd, k, 8)
	if t.IntN(8) > 0 {
		kllFeed(t, s, m, t.IntN(20*int(k)))
	}
	return xbKll(kd, s)
}

func xbKll[C comparable](kd *kllKind[C], s *kll.ItemsSketch[C]) *box {
	b := &box{name: "kll " + kd.name, as: s}
	b.peek, b.bad = pkKll(kd, s), bdKll(kd, s)
	b.op = func(t *T) {
		switch {
		case t.IntN(25) == 0:
			s.Reset()
		case t.IntN(4) == 0:
			o, m := kllNew(t, kd, uint16(8+t.IntN(30)), 8)
			kllFeed(t, o, m, 1+t.IntN(300))
			s.Merge(o)
		default:
			for range 1 + t.IntN(60) {
				s.Update(kd.of(int64(t.IntN(1000))))
			}
		}
	}
	b.look = func(t *T) string {
		x, err := s.ToSlice()
		var its strings.Builder
		for it := s.GetIterator(); it.Next(); {
			fmt.Fprintf(&its, "%v*%d ", it.GetQuantile(), it.GetWeight())
		}
		if s.IsEmpty() {
			return show(x, err, its.String())
		}
		q, e2 := s.GetQuantiles([]float64{0, 0.1, 0.5, 0.9, 1}, true)
		return show(x, err, its.String(), q, e2)
	}
	b.more = func(t *T) []*box {
		switch t.IntN(4) {
		case 0:
			x, err := s.ToSlice()
			return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
				d, err := kll.NewKllItemsSketchFromSlice(x, kd.less, kd.serde)
				if err != nil {
					return nil, err
				}
				return xbKll(kd, d), nil
			})
		case 1:
			o, m := kllNew(t, kd, uint16(8+t.IntN(30)), 8)
			if t.IntN(2) == 0 {
				kllFeed(t, o, m, 1+t.IntN(300))
			}
			o.Merge(s)
			return []*box{xbKll(kd, o)}
		}
		if s.IsEmpty() {
			return nil
		}
		z := kd.of(123)
		switch t.IntN(5) {
		case 0:
			q, err := s.GetQuantiles([]float64{0, 0.3, 0.7, 1}, t.IntN(2) == 0)
			t.NoErr(err, "quantiles")
			return []*box{keyBox("kll quantiles", q, z)}
		case 1:
			q, err := s.GetPartitionBoundaries(2+t.IntN(4), t.IntN(2) == 0)
			if err != nil {
				return nil
			}
			return []*box{keyBox("kll boundaries", q.GetBoundaries(), z)}
		case 2:
			sv, err := s.GetSortedView()
			t.NoErr(err, "view")
			return []*box{{name: "kll sorted view", det: true, look: func(*T) string {
				var o strings.Builder
				for it := sv.Iterator(); it.Next(); {
					fmt.Fprintf(&o, "%v*%d ", it.GetQuantile(), it.GetWeight())
				}
				return o.String()
			}}}
		case 3:
			lo, err := s.GetMinItem()
			t.NoErr(err, "min")
			sps := []C{lo}
			q, err := s.GetCDF(sps, t.IntN(2) == 0)
			t.NoErr(err, "cdf")
			p, err := s.GetPMF(sps, t.IntN(2) == 0)
			t.NoErr(err, "pmf")
			return []*box{numBox("kll cdf", q), numBox("kll pmf", p), keyBox("kll split points", sps, z)}
		}
		r, err := s.GetRanks([]C{z, kd.of(5)}, true)
		t.NoErr(err, "ranks")
		return []*box{numBox("kll ranks", r)}
	}
	return b
}

func xbReqSketch(t *T) *box {
	hra := t.IntN(2) == 0
	s, m := reqNew(t, 4+2*t.IntN(8), hra)
	if t.IntN(8) > 0 {
		reqFeed(t, s, m, t.IntN(600))
	}
	return xbReq(s, hra)
}

func xbReq(s *req.Sketch, hra bool) *box {
	b := &box{name: "req", as: s}
	b.peek, b.bad = pkReq(s, hra), bdReq(s, hra)
	b.op = func(t *T) {
		switch {
		case t.IntN(25) == 0:
			s.Reset()
		case t.IntN(4) == 0:
			o, m := reqNew(t, s.K(), hra)
			reqFeed(t, o, m, 1+t.IntN(300))
			t.NoErr(s.Merge(o), "merge")
		default:
			for range 1 + t.IntN(60) {
				t.NoErr(s.Update(float32(t.IntN(1000))), "update")
			}
		}
	}
	b.look = func(t *T) string {
		if s.IsEmpty() {
			return show(s.N(), s.All())
		}
		lo, _ := s.MinItem()
		hi, _ := s.MaxItem()
		q, err := s.Quantiles([]float64{0, 0.1, 0.5, 0.9, 1})
		its := s.All()
		return show(s.N(), its, lo, hi, q, err)
	}
	b.more = func(t *T) []*box {
		if t.IntN(4) == 0 {
			o, m := reqNew(t, s.K(), hra)
			if t.IntN(2) == 0 {
				reqFeed(t, o, m, 1+t.IntN(300))
			}
			t.NoErr(o.Merge(s), "merge")
			return []*box{xbReq(o, hra)}
		}
		if t.IntN(2) == 0 {
			return []*box{sliceBox("req items", s.All(), func(t *T, e *req.Item) { *e = req.Item{} })}
		}
		if s.IsEmpty() {
			return nil
		}
		switch t.IntN(4) {
		case 0:
			q, err := s.Quantiles([]float64{0, 0.3, 0.7, 1})
			t.NoErr(err, "quantiles")
			return []*box{numBox("req quantiles", q)}
		case 1:
			sps := []float32{3, 70, 500}
			q, err := s.CDF(sps, t.IntN(2) == 0)
			t.NoErr(err, "cdf")
			p, err := s.PMF(sps)
			t.NoErr(err, "pmf")
			return []*box{numBox("req cdf", q), numBox("req pmf", p), numBox("req split points", sps)}
		case 2:
			in := []float32{1, 5, 80}
			r, err := s.Ranks(in)
			t.NoErr(err, "ranks")
			return []*box{numBox("req ranks", r), numBox("req rank items", in)}
		}
		sv, err := s.SortedView()
		t.NoErr(err, "view")
		return []*box{{name: "req sorted view", det: true, look: func(t *T) string {
			var o strings.Builder
			for it := sv.Iterator(); it.Next(); {
				q, e1 := it.Quantile()
				w, e2 := it.Weight()
				fmt.Fprint(&o, q, w, e1, e2)
			}
			return o.String()
		}}}
	}
	return b
}

func xbTdSketch(t *T) *box {
	d, _ := tdGrow(t, uint16(10+t.IntN(60)), t.IntN(600), 1)
	return xbTd(d)
}

func xbTd(d *tdigest.Double) *box {
	b := &box{name: "tdigest", det: true, lazy: true, as: d}
	b.peek, b.bad = pkTd(d), bdTd(d)
	b.op = func(t *T) {
		if t.IntN(4) == 0 {
			o, _ := tdGrow(t, uint16(10+t.IntN(60)), 1+t.IntN(200), 0)
			t.NoErr(d.Merge(o), "merge")
			return
		}
		for range 1 + t.IntN(100) {
			t.NoErr(d.Update(float64(t.IntN(10000))/8), "update")
		}
	}
	b.look = func(t *T) string {
		var q, r float64
		if !d.IsEmpty() {
			q, _ = d.Quantile(0.3)
			r, _ = d.Rank(17)
		}
		lo, _ := d.MinValue()
		hi, _ := d.MaxValue()
		x, err := tdigest.EncodeDouble(d, true)
		return show(q, r, lo, hi, d.TotalWeight(), x, err)
	}
	b.more = func(t *T) []*box {
		switch t.IntN(4) {
		case 0:
			o, _ := tdGrow(t, uint16(10+t.IntN(60)), t.IntN(2)*t.IntN(200), 0)
			if d.IsEmpty() {
				return nil
			}
			t.NoErr(o.Merge(d), "merge")
			return []*box{xbTd(o)}
		case 1:
			if d.IsEmpty() {
				return nil
			}
			sps := []float64{3, 70, 500}
			q, err := d.CDF(sps)
			t.NoErr(err, "cdf")
			p, err := d.PMF(sps)
			t.NoErr(err, "pmf")
			return []*box{numBox("tdigest cdf", q), numBox("tdigest pmf", p), numBox("tdigest split points", sps)}
		}
		x, err := tdigest.EncodeDouble(d, t.IntN(2) == 0)
		return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
			c, err := tdigest.DecodeDouble(x)
			if err != nil {
				return nil, err
			}
			return xbTd(c), nil
		}, func(x []byte) (*box, error) {
			dec := tdigest.NewDoubleDecoder()
			c, err := dec.Decode(bytes.NewReader(x))
			if err != nil {
				return nil, err
			}
			return xbTd(c), nil
		})
	}
	return b
}

// ---- frequencies, count, bloom

func xbFqSketch(t *T) *box {
	switch t.IntN(4) {
	case 0:
		return xbFqOf(t, fqLongs())
	case 1:
		return xbFqOf(t, fqStrings())
	case 2:
		return xbFqOf(t, fqDoubles())
	}
	return xbFqOf(t, fqLongItems())
}

func xbFqOf[C comparable](t *T, k *fqKind[C]) *box {
	x := fqNew(t, k, 3+t.IntN(4))
	fqFeed(t, k, t.IntN(5*x.size), x)
	return xbFq(k, x)
}

func xbFq[C comparable](k *fqKind[C], x *fqBox[C]) *box {
	b := &box{name: "frequencies " + k.name, as: x.fqCommon}
	b.peek, b.bad = pkFq(k, x), bdFq(k, x)
	b.op = func(t *T) {
		switch {
		case t.IntN(25) == 0:
			t.NoErr(x.reset(), "reset")
		case t.IntN(4) == 0:
			o := fqNew(t, k, 3+t.IntN(4))
			fqFeed(t, k, 1+t.IntN(100), o)
			t.NoErr(x.merge(o), "merge")
		default:
			for range 1 + t.IntN(60) {
				t.NoErr(x.UpdateMany(k.key(t.IntN(300)), int64(1+t.IntN(5))), "update")
			}
		}
	}
	b.look = func(t *T) string {
		var rows []fqRow[C]
		var err error
		if !x.IsEmpty() {
			rows, err = x.rows(0, false, true)
		}
		var ests []int64
		for i := range 40 {
			e, _ := x.GetEstimate(k.key(i))
			ests = append(ests, e)
		}
		var img []byte
		if k.serde {
			img, _ = x.image()
		}
		return show(x.GetStreamLength(), x.GetMaximumError(), x.GetNumActiveItems(), x.GetCurrentMapCapacity(), fmt.Sprint(rows), err, ests, img)
	}
	b.more = func(t *T) []*box {
		switch t.IntN(4) {
		case 0:
			o := fqNew(t, k, 3+t.IntN(4))
			fqFeed(t, k, t.IntN(2)*t.IntN(100), o)
			t.NoErr(o.merge(x), "merge")
			return []*box{xbFq(k, o)}
		case 1:
			return xbFqRows(t, k, x)
		}
		if !k.serde {
			return nil
		}
		img, err := x.image()
		return viaImage(t, b.name, img, err, func(v []byte) (*box, error) {
			d, err := k.decode(v)
			if err != nil {
				return nil, err
			}
			y := k.wrap(d)
			y.size = x.size
			return xbFq(k, y), nil
		})
	}
	return b
}

func xbFqRows[C comparable](t *T, k *fqKind[C], x *fqBox[C]) []*box {
	switch s := any(x.fqCommon).(type) {
	case *fq.LongsSketch:
		r, err := s.GetFrequentItems(fq.ErrorTypeEnum.NoFalseNegatives)
		t.NoErr(err, "rows")
		return []*box{sliceBox("frequencies rows", r, func(t *T, e **fq.Row) { *e = nil })}
	case *fq.ItemsSketch[C]:
		r, err := s.GetFrequentItems(fq.ErrorTypeEnum.NoFalseNegatives)
		t.NoErr(err, "rows")
		look := func() (o string) {
			for _, e := range r {
				if e != nil {
					o += fmt.Sprintf("%v %d %d %d;", e.GetItem(), e.GetEstimate(), e.GetLowerBound(), e.GetUpperBound())
				}
			}
			return
		}
		return []*box{{name: "frequencies rows", det: true, op: func(t *T) {
			for i := range r {
				if r[i] != nil {
					*r[i] = fq.RowItem[C]{}
				}
			}
		}, look: func(*T) string { return look() }}}
	}
	return nil
}

func xbCount(t *T) *box {
	h, w := int8(1+t.IntN(5)), int32(3+t.IntN(60))
	seed := cmSeedOK(t)
	s, err := cm.NewCountMinSketch(h, w, seed)
	t.NoErr(err, "new")
	return xbCm(s, seed)
}

func xbCm(s *cm.CountMinSketch, seed int64) *box {
	b := &box{name: "count-min", det: true, as: s}
	b.peek, b.bad = pkCm(s, seed), bdCm(s, seed)
	fill := func(t *T, s *cm.CountMinSketch) {
		for range 1 + t.IntN(20) {
			it := cmMake(t)
			it.b = slices.Clone(it.b)
			t.NoErr(it.update(s, int64(t.IntN(9))), "update")
			for i := range it.b {
				it.b[i] = 0x77
			}
		}
	}
	fresh := func(t *T) *cm.CountMinSketch {
		o, err := cm.NewCountMinSketch(s.GetNumHashes(), s.GetNumBuckets(), seed)
		t.NoErr(err, "new")
		if t.IntN(2) == 0 {
			fill(t, o)
		}
		return o
	}
	b.op = func(t *T) {
		if t.IntN(4) == 0 {
			t.NoErr(s.Merge(fresh(t)), "merge")
			return
		}
		fill(t, s)
	}
	b.look = func(t *T) string { return show(cmImage(t, s), s.GetTotalWeight()) }
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			o := fresh(t)
			t.NoErr(o.Merge(s), "merge")
			return []*box{xbCm(o, seed)}
		}
		return viaImage(t, b.name, cmImage(t, s), nil, func(x []byte) (*box, error) {
			// the receiver is part of the interface
			d, err := s.Deserialize(x, seed)
			if err != nil {
				return nil, err
			}
			return xbCm(d, seed), nil
		})
	}
	return b
}

func xbBloom(t *T) *box {
	f := blNewOf(t, 64*uint64(1+t.IntN(20)), uint16(1+t.IntN(6)), blSeed(t))
	if t.IntN(2) == 0 {
		blFill(t, f)
	}
	return xbBf(f)
}

func xbBf(f bf.BloomFilter) *box {
	b := &box{name: "bloom", det: true, as: f}
	b.peek, b.bad = pkBf(f), bdBf(f)
	fresh := func(t *T) bf.BloomFilter {
		o := blNewOf(t, f.Capacity(), f.NumHashes(), f.Seed())
		if t.IntN(2) == 0 {
			for range 10 {
				blMake(t).update(t, o)
			}
		}
		return o
	}
	b.op = func(t *T) {
		switch t.IntN(8) {
		case 0:
			t.NoErr(f.Union(fresh(t)), "union")
		case 1:
			t.NoErr(f.Intersect(fresh(t)), "intersect")
		case 2:
			t.NoErr(f.Invert(), "invert")
		case 3:
			t.NoErr(f.Reset(), "reset")
		default:
			for range 1 + t.IntN(10) {
				it := blMake(t)
				it.b = slices.Clone(it.b)
				if t.IntN(2) == 0 {
					it.update(t, f)
				} else {
					it.testAndUpdate(t, f)
				}
				for i := range it.b {
					it.b[i] = 0x77
				}
				for i := range it.l {
					it.l[i] = 7
				}
				for i := range it.d {
					it.d[i] = 7
				}
			}
		}
	}
	b.look = func(t *T) string { return show(blImage(t, f), f.BitsUsed(), f.IsEmpty()) }
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			o := fresh(t)
			if t.IntN(2) == 0 {
				t.NoErr(o.Union(f), "union")
			} else {
				t.NoErr(o.Intersect(f), "intersect")
			}
			return []*box{xbBf(o)}
		}
		return viaImage(t, b.name, blImage(t, f), nil, func(x []byte) (*box, error) {
			d, err := bf.NewBloomFilterFromSlice(x)
			if err != nil {
				return nil, err
			}
			return xbBf(d), nil
		})
	}
	return b
}

// ---- sampling

func xbSampling(t *T) *box {
	u := t.IntN(2) == 0
	if t.IntN(2) == 0 {
		if u {
			return xbSampOf(t, &spString)
		}
		return xbSampOf(t, &spLong)
	}
	if u {
		return xbVarOf(t, &spString)
	}
	return xbVarOf(t, &spDouble)
}

func xbResFresh[I comparable](t *T, kd *spKind[I]) *sp.ReservoirItemsSketch[I] {
	s, _ := s01New[I](t, 2+t.IntN(20))
	for range t.IntN(60) {
		t.NoErr(s.Update(kd.key(t.IntN(1000))), "update")
	}
	return s
}

func xbSampOf[I comparable](t *T, kd *spKind[I]) *box {
	return xbRes(kd, xbResFresh(t, kd))
}

func xbRes[I comparable](kd *spKind[I], s *sp.ReservoirItemsSketch[I]) *box {
	b := &box{name: "reservoir " + kd.name, as: s}
	b.peek, b.bad = pkRes(kd, s), bdRes(kd, s)
	b.op = func(t *T) {
		if t.IntN(25) == 0 {
			s.Reset()
			return
		}
		for range 1 + t.IntN(30) {
			resRoom(t, s.N(), s.Update(kd.key(t.IntN(1000))))
		}
	}
	b.look = func(t *T) string {
		x, err := s.ToSlice(kd.serde)
		return show(s.N(), s.K(), fmt.Sprintf("%v", s.Samples()), x, err)
	}
	b.more = func(t *T) []*box {
		switch t.IntN(5) {
		case 0:
			return []*box{xbRes(kd, s.Copy())}
		case 1:
			return []*box{keyBox("reservoir samples", s.Samples(), kd.key(2000))}
		case 2:
			u, err := sp.NewReservoirItemsUnion[I](2 + t.IntN(20))
			t.NoErr(err, "union")
			if t.IntN(2) == 0 {
				t.NoErr(u.UpdateSketch(xbResFresh(t, kd)), "union")
			}
			t.NoErr(u.UpdateSketch(s), "union")
			return []*box{xbResUnion(kd, u)}
		case 3:
			if s.N() == 0 {
				return nil
			}
			u, err := sp.NewVarOptItemsUnion[I](uint(2 + t.IntN(20)))
			t.NoErr(err, "union")
			t.NoErr(u.UpdateReservoirItemsSketch(s), "union")
			return []*box{xbVarUnion(kd, u)}
		}
		x, err := s.ToSlice(kd.serde)
		return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
			d, err := sp.NewReservoirItemsSketchFromSlice(x, kd.serde)
			if err != nil {
				return nil, err
			}
			return xbRes(kd, d), nil
		})
	}
	return b
}

// resRoom accepts a refusal only of a reservoir that has seen nearly all it may.
func resRoom(t *T, n int64, err error) {
	if n < 1<<47 {
		t.NoErr(err, "update")
	}
}

func xbResUnion[I comparable](kd *spKind[I], u *sp.ReservoirItemsUnion[I]) *box {
	b := &box{name: "reservoir union " + kd.name}
	b.peek, b.bad = pkResUnion(kd, u), bdResUnion(kd, u)
	b.op = func(t *T) {
		if t.IntN(25) == 0 {
			u.Reset()
			return
		}
		n := int64(0)
		if r, err := u.Result(); err == nil && r != nil {
			n = r.N()
		}
		switch t.IntN(4) {
		case 0:
			resRoom(t, n, u.UpdateSketch(xbResFresh(t, kd)))
		case 1:
			k := 2 + t.IntN(10) // the slice is documented to be kept
			raw := make([]I, k)
			for i := range raw {
				raw[i] = kd.key(t.IntN(1000))
			}
			resRoom(t, n, u.UpdateFromRaw(int64(k+t.IntN(2)*t.IntN(50)), k, raw))
		default:
			resRoom(t, n, u.Update(kd.key(t.IntN(1000))))
		}
	}
	b.look = func(t *T) string {
		x, err := u.ToSlice(kd.serde)
		return show(x, err, u.MaxK())
	}
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			r, err := u.Result()
			if err != nil || r == nil {
				return nil
			}
			return []*box{xbRes(kd, r)}
		}
		x, err := u.ToSlice(kd.serde)
		return viaImage(t, b.name, x, err, func(x []byte) (*box, error) {
			d, err := sp.NewReservoirItemsUnionFromSlice(x, kd.serde)
			if err != nil {
				return nil, err
			}
			return xbResUnion(kd, d), nil
		})
	}
	return b
}

func xbVarFresh[I comparable](t *T, kd *spKind[I]) *sp.VarOptItemsSketch[I] {
	s, _ := s03New[I](t, 2+t.IntN(20))
	for range t.IntN(60) {
		t.NoErr(s.Update(kd.key(t.IntN(1000)), 0.5+t.Float64()*8), "update")
	}
	return s
}

func xbVarOf[I comparable](t *T, kd *spKind[I]) *box { return xbVar(kd, xbVarFresh(t, kd)) }

func xbVar[I comparable](kd *spKind[I], s *sp.VarOptItemsSketch[I]) *box {
	b := &box{name: "varopt " + kd.name, as: s}
	b.peek, b.bad = pkVar(kd, s), bdVar(kd, s)
	b.op = func(t *T) {
		if t.IntN(25) == 0 {
			s.Reset()
			return
		}
		for range 1 + t.IntN(30) {
			t.NoErr(s.Update(kd.key(t.IntN(1000)), 0.5+t.Float64()*8), "update")
		}
	}
	b.look = func(t *T) string {
		return show(s.N(), s.K(), s.H(), s.R(), fmt.Sprintf("%v", voAll(s)), vwImage(t, s, kd.serde))
	}
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			u, err := sp.NewVarOptItemsUnion[I](uint(2 + t.IntN(20)))
			t.NoErr(err, "union")
			if t.IntN(2) == 0 {
				t.NoErr(u.Update(xbVarFresh(t, kd)), "union")
			}
			t.NoErr(u.Update(s), "union")
			return []*box{xbVarUnion(kd, u)}
		}
		return viaImage(t, b.name, vwImage(t, s, kd.serde), nil, func(x []byte) (*box, error) {
			d, err := sp.DecodeVarOptItemsSketch(x, kd.serde)
			if err != nil {
				return nil, err
			}
			return xbVar(kd, d), nil
		})
	}
	return b
}

func xbVarUnion[I comparable](kd *spKind[I], u *sp.VarOptItemsUnion[I]) *box {
	b := &box{name: "varopt union " + kd.name}
	b.peek, b.bad = pkVarUnion(kd, u), bdVarUnion(kd, u)
	b.op = func(t *T) {
		switch t.IntN(10) {
		case 0:
			u.Reset()
		case 1, 2, 3:
			t.NoErr(u.UpdateReservoirItemsSketch(xbResFresh(t, kd)), "union")
		default:
			t.NoErr(u.Update(xbVarFresh(t, kd)), "union")
		}
	}
	b.look = func(t *T) string { return show(vuImage(t, u, kd.serde)) }
	b.more = func(t *T) []*box {
		if t.IntN(2) == 0 {
			r, err := u.Result()
			t.NoErr(err, "result")
			return []*box{xbVar(kd, r)}
		}
		return viaImage(t, b.name, vuImage(t, u, kd.serde), nil, func(x []byte) (*box, error) {
			d, err := sp.DecodeVarOptItemsUnion(x, kd.serde)
			if err != nil {
				return nil, err
			}
			return xbVarUnion(kd, d), nil
		})
	}
	return b
}

// det: the library draws no random numbers of its own for the kind.
var xbKinds = []struct {
	name string
	det  bool
	make func(t *T) *box
}{
	{"theta", true, xbThetaUpdate}, {"tuple", true, xbTupleUpdate}, {"hll", true, xbHllSketch}, {"cpc", true, xbCpcSketch}, {"kll", false, xbKllSketch},
	{"req", false, xbReqSketch}, {"tdigest", true, xbTdSketch}, {"frequencies", false, xbFqSketch}, {"count", true, xbCount}, {"bloom", true, xbBloom}, {"sampling", false, xbSampling},
	{"theta-sets", true, func(t *T) *box {
		seed := seedsPool[t.IntN(len(seedsPool))]
		return xbThetaSet(t, buildTheta(t, uint8(5+t.IntN(4)), seed, 1+t.IntN(2000)), seed)[0]
	}}, {"tuple-sets", true, func(t *T) *box {
		k := tupleKinds(t)
		seed := seedsPool[t.IntN(len(seedsPool))]
		return xbTupleSet(t, k, xbTupleFresh(t, k, seed).sk(), seed)[0]
	}},
}
