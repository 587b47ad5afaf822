package mon

import (
	"bytes"
	"math"
	"slices"

	"github.com/apache/datasketches-go/cpc"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("C01", "a case counts when at least one coupon was collected (unions: two non-empty inputs)",
		core.Family{Name: "content", Quick: 2600, Thorough: 60000, Run: c01Content},
		core.Family{Name: "union", Quick: 4500, Thorough: 100000, Run: func(t *T) { c01Union(t, false) }},
		core.Family{Name: "union-fold", Quick: 4500, Thorough: 100000, Run: func(t *T) { c01Union(t, true) }},
		core.Family{Name: "live", Quick: 1500, Thorough: 30000, Run: c01Live},
		core.Family{Name: "large", Quick: 6, Thorough: 60, Run: c01Large},
	)
	core.Register("C02", "a case counts when a non-empty image was decoded and used further",
		core.Family{Name: "roundtrip", Quick: 6000, Thorough: 150000, Run: c02RoundTrip},
		core.Family{Name: "phases", Quick: 30, Thorough: 300, Run: c02Phases},
		core.Family{Name: "crafted", Quick: 5000, Thorough: 150000, Run: c02Crafted},
		core.Family{Name: "large", Quick: 8, Thorough: 80, Run: c02Large},
		core.Family{Name: "seeds", Quick: 300, Thorough: 3000, Run: c02Seeds},
	)
	core.Register("C03", "a case counts when the sketch was non-empty",
		core.Family{Name: "bracket", Quick: 1500, Thorough: 40000, Run: c03Bracket},
		core.Family{Name: "error", Quick: 72, Thorough: 900, Run: c03Error},
		core.Family{Name: "reduced", Quick: 1500, Thorough: 30000, Run: c03Reduced},
		core.Family{Name: "icon", Quick: 690, Thorough: 690, Run: c03Icon},
	)
	core.Assume("C01", "coupons are computed with an independent MurmurHash3 x64 128", "streams of more than 2^50 distinct items (columns above 50 nearly full) are out of scope")
}

type cpcItem struct {
	kind byte // 0 u64 1 i64 2 f64 3 bytes 4 string 5 int64 slice
	u    uint64
	f    float64
	b    []byte
	l    []int64
}

func (it cpcItem) feed(s *cpc.CpcSketch) error {
	switch it.kind {
	case 0:
		return s.UpdateUint64(it.u)
	case 1:
		return s.UpdateInt64(int64(it.u))
	case 2:
		return s.UpdateFloat64(it.f)
	case 3:
		return s.UpdateByteSlice(it.b)
	case 4:
		return s.UpdateString(string(it.b))
	}
	return s.UpdateInt64Slice(it.l)
}

func (it cpcItem) bytes() []byte {
	switch it.kind {
	case 0, 1:
		return ref.U64Bytes(it.u)
	case 2:
		return ref.U64Bytes(ref.CanonDouble(it.f))
	case 3, 4:
		return it.b
	}
	var o []byte
	for _, v := range it.l {
		o = append(o, ref.U64Bytes(uint64(v))...)
	}
	return o
}

// cpcModel is the exact coupon matrix of a stream.
type cpcModel struct {
	lgK  int
	seed uint64
	m    []uint64
	n    int // coupons
}

func newCpcModel(lgK int, seed uint64) *cpcModel {
	return &cpcModel{lgK, seed, make([]uint64, 1<<lgK), 0}
}

// add applies an item; fresh says it made a new coupon, in column col.
func (m *cpcModel) add(it cpcItem) (fresh bool, col int) {
	b := it.bytes()
	if len(b) == 0 {
		return false, 0
	}
	r, c := ref.CpcCell(b, m.seed, m.lgK)
	if m.m[r]>>c&1 == 1 {
		return false, c
	}
	m.m[r] |= 1 << c
	m.n++
	return true, c
}

func (m *cpcModel) clone() *cpcModel {
	return &cpcModel{m.lgK, m.seed, slices.Clone(m.m), m.n}
}

func cpcCrafted(t *T, row uint64, lgK, col int, seed uint64) cpcItem {
	h1 := t.Uint64()&^(1<<lgK-1) | row&(1<<lgK-1)
	h2 := uint64(0)
	if col < 63 {
		h2 = (t.Uint64() | 1<<63) >> col
	} else {
		h2 = t.Uint64N(2)
	}
	b := ref.Invert128(h1, h2, seed)
	return cpcItem{kind: byte(3 + t.IntN(2)), b: b[:]}
}

func cpcStream(t *T, lgK, n int, seed uint64, hot float64) []cpcItem {
	out := make([]cpcItem, 0, n)
	base := t.Uint64()
	uni := uint64(n)*4 + 1
	for i := 0; i < n; i++ {
		r := t.Float64()
		switch {
		case r < hot:
			col := t.IntN(20)
			if t.IntN(3) == 0 {
				col = t.IntN(51)
			}
			row := t.Uint64()
			if t.IntN(2) == 0 {
				row = uint64(t.IntN(min(1<<lgK, 8)))
				if t.IntN(2) == 0 {
					row = ^row
				}
			}
			out = append(out, cpcCrafted(t, row, lgK, col, seed))
		case r < hot+0.08 && i > 0:
			out = append(out, out[t.IntN(i)])
		case r < hot+0.10:
			b := make([]byte, t.IntN(24))
			for j := range b {
				b[j] = byte(t.Uint32())
			}
			out = append(out, cpcItem{kind: byte(3 + t.IntN(2)), b: b})
		case r < hot+0.12:
			f := []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(0xfff8000000000001), math.Inf(1), 1.5, t.NormFloat64()}[t.IntN(7)]
			out = append(out, cpcItem{kind: 2, f: f})
		case r < hot+0.13:
			l := make([]int64, t.IntN(4))
			for j := range l {
				l[j] = int64(t.Uint64())
			}
			out = append(out, cpcItem{kind: 5, l: l})
		default:
			out = append(out, cpcItem{kind: byte(t.IntN(2)), u: base + t.Uint64N(uni)})
		}
	}
	return out
}

func cpcMatrix(t *T, s *cpc.CpcSketch, seed uint64) []uint64 {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	t.NoErr(err, "new-union")
	t.NoErr(u.Update(s), "observe")
	m, err := u.GetBitMatrix()
	t.NoErr(err, "observe-matrix")
	t.Ev("matrices compared")
	return slices.Clone(m)
}

func cpcSame(t *T, got, want []uint64, key string) {
	t.Check(len(got) == len(want), key+"-rows", "%d rows, expected %d", len(got), len(want))
	for i := range want {
		if got[i] != want[i] {
			t.Check(false, key, "row %d of %d holds columns %#x, stream has %#x", i, len(want), got[i], want[i])
		}
	}
}

func cpcNew(t *T, lgK int, seed uint64) *cpc.CpcSketch {
	s, err := cpc.NewCpcSketch(lgK, seed)
	t.NoErr(err, "new")
	return s
}

func cpcBytes(t *T, s *cpc.CpcSketch, key string) []byte {
	b, err := s.ToCompactSlice()
	t.NoErr(err, key)
	return b
}

func cpcSize(t *T, lgK int) int {
	k := 1 << lgK
	switch t.IntN(9) {
	case 0:
		return t.IntN(4)
	case 1:
		return k*3/32 + t.IntN(5) - 2 + 2
	case 2:
		return t.IntN(k/2 + 2)
	case 3:
		return k/2 + t.IntN(k/2+1)
	case 4, 5:
		return k + t.IntN(3*k)
	case 6:
		return 3*k + t.IntN(8*k)
	default:
		return min(t.IntN(60*k), 60000)
	}
}

func cpcLgK(t *T) int {
	switch t.IntN(10) {
	case 0:
		return 12 + t.IntN(3)
	case 1, 2:
		return 10 + t.IntN(2)
	default:
		return 4 + t.IntN(6)
	}
}

func cpcSeed(t *T) uint64 {
	if t.IntN(3) == 0 {
		for {
			if s := 1 + t.Uint64N(1<<40); ref.SeedHash(s) != 0 {
				return s
			}
		}
	}
	return 9001
}

// cpcHipStep checks one streaming update online.
func cpcHipStep(t *T, s *cpc.CpcSketch, m *cpcModel, kxp *float64, it cpcItem, strict bool) {
	before := s.GetEstimate()
	t.NoErr(it.feed(s), "update")
	fresh, col := m.add(it)
	after := s.GetEstimate()
	if !fresh {
		t.Check(before == after, "hip-idle", "an item without a new coupon moved the estimate %v -> %v", before, after)
		return
	}
	want := before + float64(int(1)<<m.lgK) / *kxp
	*kxp -= math.Ldexp(1, -col-1)
	if strict {
		t.Check(relEq(after, want, 1e-7), "hip-step", "coupon %d moved the estimate %v -> %v, HIP says %v", m.n, before, after, want)
	}
	t.Ev("coupons collected")
}

func c01Content(t *T) {
	lgK := cpcLgK(t)
	seed := cpcSeed(t)
	n := min(cpcSize(t, lgK), 30000)
	hot := []float64{0, 0, 0.05, 0.5}[t.IntN(4)]
	its := cpcStream(t, lgK, n, seed, hot)
	s := cpcNew(t, lgK, seed)
	m := newCpcModel(lgK, seed)
	kxp := float64(int(1) << lgK)
	t.Desc("lgK=%d n=%d hot=%v seed=%d", lgK, n, hot, seed)
	step := n/3 + 1
	for i, it := range its {
		cpcHipStep(t, s, m, &kxp, it, hot == 0)
		if i%step == step-1 {
			cpcSame(t, cpcMatrix(t, s, seed), m.m, "matrix")
		}
	}
	cpcSame(t, cpcMatrix(t, s, seed), m.m, "matrix")
	// order and repetition do not matter
	o := cpcNew(t, lgK, seed)
	for _, i := range t.Perm(len(its)) {
		t.NoErr(its[i].feed(o), "update")
		if t.IntN(5) == 0 {
			t.NoErr(its[t.IntN(len(its))].feed(o), "update")
		}
	}
	cpcSame(t, cpcMatrix(t, o, seed), m.m, "permuted")
	// copies are independent
	img := cpcBytes(t, s, "serialize")
	c, err := s.Copy()
	t.NoErr(err, "copy")
	t.Check(bytes.Equal(cpcBytes(t, c, "serialize"), img), "copy", "copy serializes differently")
	cm := m.clone()
	for _, it := range cpcStream(t, lgK, 50+t.IntN(1<<lgK), seed, 0.1) {
		t.NoErr(it.feed(c), "copy-update")
		cm.add(it)
	}
	cpcSame(t, cpcMatrix(t, c, seed), cm.m, "copy-evolved")
	t.Check(bytes.Equal(cpcBytes(t, s, "serialize"), img), "copy-alias", "updating a copy changed the original")
	t.Sig(lgK, m.n)
	if m.n > 0 {
		t.NonTrivial()
	}
}

type cpcInput struct {
	s *cpc.CpcSketch
	m *cpcModel
}

func cpcInputs(t *T, lgMax int, seed uint64, fold bool) []cpcInput {
	k := 1 + t.IntN(5)
	var ins []cpcInput
	for i := 0; i < k; i++ {
		lgK := lgMax
		if fold {
			lgK = min(max(4, lgMax-3+t.IntN(7)), 13)
		}
		s := cpcNew(t, lgK, seed)
		m := newCpcModel(lgK, seed)
		for _, it := range cpcStream(t, lgK, min(cpcSize(t, lgK), 15000), seed, []float64{0, 0.02, 0.4}[t.IntN(3)]) {
			t.NoErr(it.feed(s), "update")
			m.add(it)
		}
		switch t.IntN(6) {
		case 0:
			d, err := cpc.NewCpcSketchFromSlice(cpcBytes(t, s, "serialize"), seed)
			t.NoErr(err, "decode")
			s = d
		case 1:
			u, err := cpc.NewCpcUnionSketch(lgK, seed)
			t.NoErr(err, "new-union")
			t.NoErr(u.Update(s), "merge")
			r, err := u.GetResult()
			t.NoErr(err, "result")
			s = r
		}
		ins = append(ins, cpcInput{s, m})
	}
	return ins
}

// union adds what a non-empty sketch holds.
func (m *cpcModel) union(o *cpcModel) {
	if o.lgK < m.lgK {
		m.m, m.lgK = ref.FoldMatrix(m.m, o.lgK), o.lgK
	}
	for i, w := range ref.FoldMatrix(o.m, m.lgK) {
		m.m[i] |= w
	}
	m.n = ref.CountMatrix(m.m)
}

// c01Live merges sketches that are updated between the merges.
func c01Live(t *T) {
	lgMax, seed := 4+t.IntN(6), cpcSeed(t)
	u, err := cpc.NewCpcUnionSketch(lgMax, seed)
	t.NoErr(err, "new-union")
	m := newCpcModel(lgMax, seed)
	ins := make([]cpcInput, 1+t.IntN(3))
	for i := range ins {
		lg := min(max(4, lgMax-2+t.IntN(5)), 10)
		ins[i] = cpcInput{cpcNew(t, lg, seed), newCpcModel(lg, seed)}
	}
	t.Desc("lgK=%d inputs=%d", lgMax, len(ins))
	merges := 0
	for range 3 + t.IntN(9) {
		in := ins[t.IntN(len(ins))]
		for _, it := range cpcStream(t, in.m.lgK, t.IntN(3)*t.IntN(1+2<<in.m.lgK), seed, 0.05) {
			t.NoErr(it.feed(in.s), "update")
			in.m.add(it)
		}
		if t.IntN(4) == 0 {
			continue
		}
		t.NoErr(u.Update(in.s), "merge")
		if in.m.n > 0 {
			m.union(in.m)
			merges++
		}
		if t.IntN(3) == 0 {
			c01CheckUnion(t, &u, m)
		} else {
			bm, err := u.GetBitMatrix()
			t.NoErr(err, "matrix")
			cpcSame(t, bm, m.m, "union-matrix")
		}
		t.Ev("live sketches merged")
	}
	t.Sig(lgMax, m.n, merges)
	if merges > 1 {
		t.NonTrivial()
	}
}

func c01Union(t *T, fold bool) {
	lgMax := 4 + t.IntN(8)
	seed := cpcSeed(t)
	ins := cpcInputs(t, lgMax, seed, fold)
	t.Desc("lgK=%d inputs=%d fold=%v", lgMax, len(ins), fold)
	u, err := cpc.NewCpcUnionSketch(lgMax, seed)
	t.NoErr(err, "new-union")
	m := newCpcModel(lgMax, seed)
	nonEmpty := 0
	for _, in := range ins {
		img := cpcBytes(t, in.s, "serialize")
		t.NoErr(u.Update(in.s), "merge")
		t.Check(bytes.Equal(img, cpcBytes(t, in.s, "serialize")), "input-modified", "merging changed the source")
		if in.m.n > 0 {
			nonEmpty++
			m.union(in.m)
		}
		t.Logf("input lgK %d coupons %d; union lgK %d coupons %d", in.m.lgK, in.m.n, m.lgK, m.n)
		if t.IntN(2) == 0 {
			c01CheckUnion(t, &u, m)
		}
		t.Ev("sketches merged")
	}
	r := c01CheckUnion(t, &u, m)
	// merge order: reversed, same matrix
	u2, _ := cpc.NewCpcUnionSketch(lgMax, seed)
	for i := len(ins) - 1; i >= 0; i-- {
		t.NoErr(u2.Update(ins[i].s), "merge")
	}
	bm, err := u2.GetBitMatrix()
	t.NoErr(err, "matrix")
	cpcSame(t, bm, m.m, "reversed")
	// the result merged again gives the same matrix
	u3, _ := cpc.NewCpcUnionSketch(lgMax, seed)
	t.NoErr(u3.Update(r), "merge-result")
	bm, err = u3.GetBitMatrix()
	t.NoErr(err, "matrix")
	if m.n > 0 {
		cpcSame(t, ref.FoldMatrix(bm, m.lgK), m.m, "result-again")
	}
	// the result is a full citizen: it can be updated further
	rm := m.clone()
	ub := slices.Clone(bm)
	for _, it := range cpcStream(t, m.lgK, 20+t.IntN(2<<m.lgK), seed, 0.1) {
		t.NoErr(it.feed(r), "result-update")
		rm.add(it)
	}
	cpcSame(t, cpcMatrix(t, r, seed), rm.m, "result-evolved")
	bm2, _ := u3.GetBitMatrix()
	t.Check(slices.Equal(ub, bm2), "result-alias", "updating a result changed the union it was merged into")
	bm2, _ = u.GetBitMatrix()
	cpcSame(t, bm2, m.m, "result-alias")
	// another seed is refused and leaves the union alone
	o := cpcNew(t, lgMax, seed+1)
	t.NoErr(o.UpdateUint64(1), "update")
	t.Check(u.Update(o) != nil, "seed", "union with seed %d accepted a sketch with seed %d", seed, seed+1)
	bm2, _ = u.GetBitMatrix()
	cpcSame(t, bm2, m.m, "seed-refused")
	t.Sig(lgMax, m.lgK, m.n, len(ins))
	if nonEmpty >= 2 {
		t.NonTrivial()
	}
}

func c01CheckUnion(t *T, u *cpc.CpcUnion, m *cpcModel) *cpc.CpcSketch {
	bm, err := u.GetBitMatrix()
	t.NoErr(err, "matrix")
	cpcSame(t, bm, m.m, "union-matrix")
	r, err := u.GetResult()
	t.NoErr(err, "result")
	t.Check(r.GetLgK() == m.lgK, "result-lgk", "result lgK %d, inputs imply %d", r.GetLgK(), m.lgK)
	cpcSame(t, cpcMatrix(t, r, m.seed), m.m, "result-matrix")
	c03Order(t, r, m.n, "result")
	b := cpcBytes(t, r, "serialize-result")
	if m.n > 0 {
		t.Check(int(leU32(b, 8)) == m.n, "result-coupons", "result's image counts %d coupons, matrix has %d", leU32(b, 8), m.n)
	}
	d, err := cpc.NewCpcSketchFromSlice(b, m.seed)
	t.NoErr(err, "decode-result")
	cpcSame(t, cpcMatrix(t, d, m.seed), m.m, "decoded-result")
	return r
}

func c01Large(t *T) {
	lgK := 14 + t.IntN(5)
	s, m := cpcNew(t, lgK, 9001), newCpcModel(lgK, 9001)
	n := (1 << lgK) * []int{1, 4, 10}[t.IntN(3)]
	base := t.Uint64()
	for i := 0; i < n; i++ {
		it := cpcItem{u: base + uint64(i)}
		t.NoErr(it.feed(s), "update")
		m.add(it)
	}
	cpcSame(t, cpcMatrix(t, s, 9001), m.m, "matrix")
	u, _ := cpc.NewCpcUnionSketch(lgK-1-t.IntN(4), 9001)
	t.NoErr(u.Update(s), "merge")
	bm, err := u.GetBitMatrix()
	t.NoErr(err, "matrix")
	cpcSame(t, bm, ref.FoldMatrix(m.m, len64(bm)), "folded")
	t.Desc("lgK=%d n=%d", lgK, n)
	t.Sig(lgK, n)
	t.NonTrivial()
}

func len64(m []uint64) int {
	l := 0
	for 1<<l < len(m) {
		l++
	}
	return l
}

// c02Check decodes s's image and compares everything observable.
func c02Check(t *T, s *cpc.CpcSketch, m *cpcModel, evolve int) {
	img := cpcBytes(t, s, "serialize")
	if m.n > 0 {
		t.Check(int(leU32(img, 8)) == m.n, "coupons", "image counts %d coupons, stream made %d", leU32(img, 8), m.n)
	}
	im, err := ref.ParseCpc(img)
	t.NoErr(err, "layout")
	um, err := ref.CpcUnpack(im)
	t.NoErr(err, "streams")
	cpcSame(t, um, m.m, "streams")
	buf := slices.Clone(img)
	d, err := cpc.NewCpcSketchFromSlice(buf, m.seed)
	t.NoErr(err, "decode")
	t.Check(bytes.Equal(buf, img), "input", "decoding modified the bytes")
	for i := range buf {
		buf[i] ^= 0xff
	}
	t.Check(d.GetLgK() == m.lgK, "lgk", "decoded lgK %d", d.GetLgK())
	cpcSame(t, cpcMatrix(t, d, m.seed), m.m, "decoded-matrix")
	w, err := cpc.NewCpcWrapperFromBytes(slices.Clone(img))
	t.NoErr(err, "wrap")
	t.Check(w.GetLgK() == m.lgK, "wrapper-lgk", "wrapper lgK %d", w.GetLgK())
	same := func(name string, a, b, c float64) {
		t.Check(a == b && a == c, "numbers", "%s: original %v, decoded %v, wrapper %v (coupons %d, lgK %d)", name, a, b, c, m.n, m.lgK)
	}
	same("estimate", s.GetEstimate(), d.GetEstimate(), w.GetEstimate())
	for k := 1; k <= 3; k++ {
		same("lower bound", s.GetLowerBound(k), d.GetLowerBound(k), w.GetLowerBound(k))
		same("upper bound", s.GetUpperBound(k), d.GetUpperBound(k), w.GetUpperBound(k))
	}
	again := cpcBytes(t, d, "reserialize")
	t.Check(bytes.Equal(again, img), "identical", "serializing the decoded sketch gives %d bytes that differ from the original %d", len(again), len(img))
	t.Ev("round trips")
	if evolve > 0 {
		em := m.clone()
		for _, it := range cpcStream(t, m.lgK, evolve, m.seed, 0.05) {
			t.NoErr(it.feed(s), "evolve")
			t.NoErr(it.feed(d), "evolve")
			em.add(it)
			t.Check(s.GetEstimate() == d.GetEstimate(), "evolve-estimate", "further updates: original %v decoded %v", s.GetEstimate(), d.GetEstimate())
		}
		cpcSame(t, cpcMatrix(t, d, m.seed), em.m, "evolved-matrix")
		t.Check(bytes.Equal(cpcBytes(t, d, "reserialize"), cpcBytes(t, s, "serialize")), "evolve-identical", "after the same further updates the images differ")
	}
}

func c02RoundTrip(t *T) {
	lgK := cpcLgK(t)
	seed := cpcSeed(t)
	n := min(cpcSize(t, lgK), 30000)
	hot := []float64{0, 0, 0.05, 0.5}[t.IntN(4)]
	s, m := cpcNew(t, lgK, seed), newCpcModel(lgK, seed)
	for _, it := range cpcStream(t, lgK, n, seed, hot) {
		t.NoErr(it.feed(s), "update")
		m.add(it)
	}
	if t.IntN(3) == 0 {
		u, _ := cpc.NewCpcUnionSketch(lgK, seed)
		t.NoErr(u.Update(s), "merge")
		r, err := u.GetResult()
		t.NoErr(err, "result")
		s = r
	}
	t.Desc("lgK=%d n=%d coupons=%d hot=%v", lgK, n, m.n, hot)
	c02Check(t, s, m, []int{0, 10, 400}[t.IntN(3)])
	t.Sig(lgK, m.n)
	if m.n > 0 {
		t.NonTrivial()
	}
}

// c02Phases walks one sketch through every window position and encoding phase.
func c02Phases(t *T) {
	lgK := 4 + t.Idx%8
	s, m := cpcNew(t, lgK, 9001), newCpcModel(lgK, 9001)
	k := 1 << lgK
	n := uint64(1)
	base := t.Uint64()
	next := 0
	limit := k * 30
	if t.Thorough() {
		limit = k * 42
	}
	t.Desc("lgK=%d up to %d coupons", lgK, limit)
	for m.n < limit {
		// jump ahead: craft items column-wise as a geometric stream would give
		if n < 1<<16 {
			it := cpcItem{u: base + n}
			n++
			t.NoErr(it.feed(s), "update")
			m.add(it)
		} else {
			lvl := float64(m.n)/float64(k) + 1
			col := int(lvl + t.NormFloat64()*2.5)
			if e := t.ExpFloat64(); t.IntN(4) == 0 {
				col = int(lvl + e*3)
			}
			if t.IntN(3) == 0 {
				col = t.IntN(int(lvl) + 1)
			}
			it := cpcCrafted(t, t.Uint64(), lgK, min(max(col, 0), 50), 9001)
			t.NoErr(it.feed(s), "update")
			m.add(it)
		}
		if m.n >= next {
			c, err := s.Copy()
			t.NoErr(err, "copy")
			c02Check(t, c, m, 0)
			next = m.n + max(1, k/32)
			if m.n > 8*k {
				next = m.n + max(1, k/8)
			}
		}
	}
	t.EvN("coupons at the end", m.n)
	t.Sig(lgK, m.n)
	t.NonTrivial()
}

// c02Crafted builds hostile coupon patterns: clustered rows, wrapped hash
// tables, single columns, dense rows, far-apart pairs.
func c02Crafted(t *T) {
	lgK := 4 + t.IntN(9)
	k := 1 << lgK
	seed := uint64(9001)
	s, m := cpcNew(t, lgK, seed), newCpcModel(lgK, seed)
	pat := t.IntN(8)
	n := 1 + t.IntN(k*4)
	if t.IntN(2) == 0 {
		n = 1 + t.IntN(k/4+4)
	}
	n = min(n, 6000)
	lastRows := 1 + t.IntN(8)
	col0 := t.IntN(40)
	t.Desc("lgK=%d pattern=%d n=%d", lgK, pat, n)
	for i := 0; i < n; i++ {
		var row uint64
		var col int
		switch pat {
		case 0: // rows at the very end of the table
			row, col = uint64(k-1-t.IntN(min(k, lastRows))), t.IntN(40)
		case 1: // rows at the start
			row, col = uint64(t.IntN(min(k, lastRows))), t.IntN(40)
		case 2: // both ends
			row, col = uint64(t.IntN(lastRows)), t.IntN(30)
			if i%2 == 0 {
				row = ^row
			}
		case 3: // one column
			row, col = t.Uint64(), col0
		case 4: // descending insertion order
			row, col = uint64(k-1-i%k), 8+i%5
		case 5: // geometric, but only even rows
			row, col = t.Uint64()&^1, int(t.ExpFloat64()/math.Ln2)
		case 6: // full low columns then scattered high ones
			if i < k*2 {
				row, col = uint64(i), i/k
			} else {
				row, col = t.Uint64(), t.IntN(45)
			}
		default: // dense block of rows
			row, col = uint64(k/2+t.IntN(min(k/2, 16))), t.IntN(48)
		}
		it := cpcCrafted(t, row, lgK, min(col, 50), seed)
		t.NoErr(it.feed(s), "update")
		m.add(it)
	}
	cpcSame(t, cpcMatrix(t, s, seed), m.m, "matrix")
	if t.IntN(3) == 0 {
		u, _ := cpc.NewCpcUnionSketch(max(4, lgK-t.IntN(4)), seed)
		t.NoErr(u.Update(s), "merge")
		r, err := u.GetResult()
		t.NoErr(err, "result")
		s = r
		m = &cpcModel{r.GetLgK(), seed, ref.FoldMatrix(m.m, r.GetLgK()), 0}
		m.n = ref.CountMatrix(m.m)
	}
	c02Check(t, s, m, []int{0, 60}[t.IntN(2)])
	t.EvN("hostile coupons", m.n)
	t.Sig(lgK, pat, m.n)
	t.NonTrivial()
}

func c02Large(t *T) {
	lgK := []int{20, 16, 18, 14, 17, 15, 19, 13}[t.Idx%8]
	s, m := cpcNew(t, lgK, 9001), newCpcModel(lgK, 9001)
	k := 1 << lgK
	base := t.Uint64()
	i := uint64(0)
	crowd := func(n, from int) { // surprises: more than 16 bits can count
		for range n {
			it := cpcCrafted(t, t.Uint64(), lgK, from+t.IntN(16), 9001)
			t.NoErr(it.feed(s), "update")
			m.add(it)
		}
	}
	for x, stop := range []int{k / 20, k * 9 / 100, k / 4, k, 3 * k} {
		if x == 3 && lgK >= 15 {
			crowd(40000, 9)
			crowd(70000, 12)
		}
		if stop > 1500000 {
			break
		}
		for ; int(i) < stop; i++ {
			it := cpcItem{u: base + i}
			t.NoErr(it.feed(s), "update")
			m.add(it)
		}
		c, err := s.Copy()
		t.NoErr(err, "copy")
		c02Check(t, c, m, 0)
	}
	t.Desc("lgK=%d", lgK)
	t.Sig(lgK)
	t.NonTrivial()
}

func c02Seeds(t *T) {
	seed := cpcSeed(t)
	lgK := 4 + t.IntN(6)
	s := cpcNew(t, lgK, seed)
	n := t.IntN(1 << lgK * 4)
	for i := 0; i < n; i++ {
		t.NoErr(s.UpdateUint64(t.Uint64()), "update")
	}
	img := cpcBytes(t, s, "serialize")
	other := seed + 1 + t.Uint64N(1000)
	if ref.SeedHash(other) == ref.SeedHash(seed) || ref.SeedHash(other) == 0 {
		return
	}
	sh := uint16(img[6]) | uint16(img[7])<<8
	t.Check(sh == ref.SeedHash(seed), "seed-hash", "image carries seed hash %#x, seed %d hashes to %#x", sh, seed, ref.SeedHash(seed))
	_, err := cpc.NewCpcSketchFromSlice(img, other)
	t.Check(err != nil, "other-seed", "an image with seed %d was accepted for seed %d", seed, other)
	if seed != 9001 {
		_, err = cpc.NewCpcSketchFromSliceWithDefault(img)
		t.Check(err != nil, "other-seed", "an image with seed %d was accepted for the default seed", seed)
	}
	t.Ev("foreign seeds offered")
	t.Desc("lgK=%d n=%d", lgK, n)
	t.Sig(lgK, n > 0)
	t.NonTrivial()
}

func c03Order(t *T, s *cpc.CpcSketch, coupons int, key string) {
	est := s.GetEstimate()
	lo, hi := est, est
	for k := 1; k <= 3; k++ {
		l, h := s.GetLowerBound(k), s.GetUpperBound(k)
		t.Check(!math.IsNaN(l) && !math.IsNaN(h) && !math.IsInf(h, 0) && l <= lo && h >= hi, key+"-bracket", "kappa %d: [%v,%v] around estimate %v, inner [%v,%v], %d coupons", k, l, h, est, lo, hi, coupons)
		t.Check(l >= float64(coupons), key+"-lower", "lower bound %v below the %d coupons held", l, coupons)
		lo, hi = l, h
	}
	if coupons == 0 {
		t.Check(est == 0 && lo == 0 && hi == 0, key+"-empty", "empty sketch reports %v [%v,%v]", est, lo, hi)
	}
	t.Ev("brackets checked")
}

// c03Numbers are the estimate and all six bounds.
func c03Numbers(s *cpc.CpcSketch) (out [7]float64) {
	out[0] = s.GetEstimate()
	for k := 1; k <= 3; k++ {
		out[k], out[3+k] = s.GetLowerBound(k), s.GetUpperBound(k)
	}
	return out
}

// c03Same: a copy and a decoded image estimate what the sketch estimates.
func c03Same(t *T, s *cpc.CpcSketch, key string) {
	want := c03Numbers(s)
	c, err := s.Copy()
	t.NoErr(err, "copy")
	t.Check(c03Numbers(c) == want, key+"-copy", "a copy estimates %v, the original %v", c03Numbers(c), want)
	d, err := cpc.NewCpcSketchFromSlice(cpcBytes(t, s, key), 9001)
	t.NoErr(err, "decode")
	t.Check(c03Numbers(d) == want, key+"-decoded", "a decoded sketch estimates %v, the original %v", c03Numbers(d), want)
	t.EvN("estimates of copies compared", 2)
}

// c03Reduced merges sketches of several lgK: the answers are those of the
// coupons that remain at the smallest lgK, however they arrived.
func c03Reduced(t *T) {
	lg := 4 + t.IntN(9)
	mk := func(lgK, lo, hi int, base uint64) *cpc.CpcSketch {
		s := cpcNew(t, lgK, 9001)
		for i := lo; i < hi; i++ {
			t.NoErr(s.UpdateUint64(base+uint64(i)), "update")
		}
		return s
	}
	base := t.Uint64()
	n := 1 + int(float64(int(40)<<lg)*math.Pow(t.Float64(), 3))
	n = min(n, 40000)
	parts := 2 + t.IntN(4)
	lgs := make([]int, parts)
	for i := range lgs {
		lgs[i] = lg + t.IntN(3)
	}
	lgs[t.IntN(parts)] = lg
	least := lg + t.IntN(3) // what the result ends up with: empty sketches do not reduce it
	u, err := cpc.NewCpcUnionSketch(least, 9001)
	t.NoErr(err, "new union")
	for _, i := range t.Perm(parts) {
		lo, hi := i*n/(parts+1), (i+2)*n/(parts+1) // overlapping
		s := mk(lgs[i], lo, hi, base)
		if hi > lo {
			least = min(least, lgs[i])
		}
		if t.IntN(3) == 0 {
			s, err = s.Copy()
			t.NoErr(err, "copy")
		}
		t.NoErr(u.Update(s), "merge")
		if t.IntN(3) == 0 { // a result in between, merged again
			r, err := u.GetResult()
			t.NoErr(err, "result")
			c03Order(t, r, -1, "between")
			t.NoErr(u.Update(r), "merge result")
		}
	}
	got, err := u.GetResult()
	t.NoErr(err, "result")
	// the same items in one sketch of the smallest lgK, passed through a union
	// so that it is answered by content and not by its own history
	v, _ := cpc.NewCpcUnionSketch(least, 9001)
	t.NoErr(v.Update(mk(least, 0, n, base)), "merge")
	want, err := v.GetResult()
	t.NoErr(err, "result")
	t.Desc("lg=%d of parts %v n=%d", lg, lgs, n)
	t.Check(c03Numbers(got) == c03Numbers(want), "content-decides", "merged parts of lgK %v estimate %v, the same items at lgK %d estimate %v", lgs, c03Numbers(got), least, c03Numbers(want))
	c03Order(t, got, -1, "reduced")
	c03Same(t, got, "reduced")
	t.Ev("merges compared with one stream")
	t.Sig(lg, lgs, n)
	t.NonTrivial()
}

func c03Bracket(t *T) {
	lgK := cpcLgK(t)
	n := min(cpcSize(t, lgK), 30000)
	s, m := cpcNew(t, lgK, 9001), newCpcModel(lgK, 9001)
	u, _ := cpc.NewCpcUnionSketch(lgK, 9001)
	t.Desc("lgK=%d n=%d", lgK, n)
	prev := 0.0
	step := max(1, n/60)
	hot := []float64{0, 0, 0.05}[t.IntN(3)]
	for i, it := range cpcStream(t, lgK, n, 9001, hot) {
		t.NoErr(it.feed(s), "update")
		m.add(it)
		e := s.GetEstimate()
		t.Check(e >= prev, "monotone", "estimate fell from %v to %v as an item was added", prev, e)
		prev = e
		if i%step == 0 || i < 20 {
			c03Order(t, s, m.n, "sketch")
			if t.IntN(8) == 0 {
				c03Same(t, s, "sketch")
			}
			if i%(step*6) == 0 {
				t.NoErr(u.Update(s), "merge")
				r, err := u.GetResult()
				t.NoErr(err, "result")
				c03Order(t, r, m.n, "union")
				c03Widths(t, r, lgK, m.n, true, "union")
				c03Same(t, r, "union")
			}
		}
	}
	c03Order(t, s, m.n, "sketch")
	c03Widths(t, s, lgK, m.n, false, "sketch")
	t.Sig(lgK, m.n)
	if m.n > 0 {
		t.NonTrivial()
	}
}

func c03Error(t *T) {
	lgK := 4 + t.Idx%8
	k := float64(int(1) << lgK)
	n := int(k*[]float64{0.1, 0.5, 1, 3, 10, 40}[t.Idx/8%6]) + 1
	trials := max(30, min(400, 250000/n))
	var sh, su, bh, bu float64
	in3 := 0
	t.Desc("lgK=%d n=%d trials=%d", lgK, n, trials)
	for r := 0; r < trials; r++ {
		a, b, all := cpcNew(t, lgK, 9001), cpcNew(t, lgK, 9001), cpcNew(t, lgK, 9001)
		base := t.Uint64()
		for i := 0; i < n; i++ {
			v := base + uint64(i)
			_ = all.UpdateUint64(v)
			if i < 2*n/3 {
				_ = a.UpdateUint64(v)
			}
			if i >= n/3 {
				_ = b.UpdateUint64(v)
			}
		}
		u, _ := cpc.NewCpcUnionSketch(lgK, 9001)
		t.NoErr(u.Update(a), "merge")
		t.NoErr(u.Update(b), "merge")
		res, err := u.GetResult()
		t.NoErr(err, "result")
		if res.GetLowerBound(3) <= float64(n) && float64(n) <= res.GetUpperBound(3) {
			in3++
		}
		eh, eu := all.GetEstimate()/float64(n)-1, res.GetEstimate()/float64(n)-1
		sh += eh * eh
		su += eu * eu
		bh += eh
		bu += eu
		t.EvN("estimates against truth", 2)
	}
	tr := float64(trials)
	rse := 0.7 / math.Sqrt(k) // ICON; HIP is 0.59/sqrt(k)
	t.Check(math.Sqrt(sh/tr) < 2.2*rse, "rms-hip", "rms error %v over %d streams, advertised %v", math.Sqrt(sh/tr), trials, rse*0.85)
	t.Check(math.Sqrt(su/tr) < 2.5*rse, "rms-union", "rms error of merged sketches %v, advertised %v", math.Sqrt(su/tr), rse)
	t.Check(math.Abs(bh/tr) < 8*rse/math.Sqrt(tr)+0.2*rse, "bias-hip", "mean error %v over %d streams", bh/tr, trials)
	t.Check(math.Abs(bu/tr) < 8*rse/math.Sqrt(tr)+0.3*rse, "bias-union", "mean error %v over %d merged streams", bu/tr, trials)
	t.Check(float64(in3) >= 0.85*tr, "coverage", "3-sigma interval covered the truth in %d of %d", in3, trials)
	t.Sig(lgK, n)
	t.NonTrivial()
}

// iconInverse is the number of items n for which C distinct coupons are expected at K rows: every item takes row uniformly
// and column j with probability 2^-(j+1) (63: the rest).
func iconInverse(lgK int, c float64) float64 {
	k := math.Ldexp(1, lgK)
	expect := func(n float64) float64 {
		e := 0.0
		for j := 0; j < 64; j++ {
			p := math.Ldexp(1, -j-1)
			if j == 63 {
				p = math.Ldexp(1, -63)
			}
			e -= math.Expm1(n * math.Log1p(-p/k))
		}
		return e * k
	}
	lo, hi := c*0.999, c*1.001+1
	for expect(hi) < c {
		hi *= 2
	}
	for i := 0; i < 80; i++ {
		if m := (lo + hi) / 2; expect(m) < c {
			lo = m
		} else {
			hi = m
		}
	}
	return (lo + hi) / 2
}

// Constants of the confidence intervals published with the algorithm (10000 times, per lgK 4..14 and kappa 1..3): the high
// side, used below the estimate, and the low side, which suffices above it. Above lgK 14 the asymptotic constants hold.
var cpcHigh = [2][11][3]float64{
	{{5855, 6688, 7391}, {5886, 6444, 6923}, {5885, 6254, 6594}, {5889, 6134, 6326}, {5900, 6072, 6203}, {5875, 6005, 6089}, {5871, 5980, 6040}, {5889, 5941, 6015}, {5871, 5926, 5973}, {5866, 5901, 5915}, {5880, 5914, 5953}},
	{{8031, 8559, 9309}, {7084, 7959, 8660}, {7141, 7514, 7876}, {7458, 7430, 7572}, {6892, 7141, 7497}, {6889, 7132, 7290}, {7075, 7118, 7185}, {7040, 7047, 7085}, {6993, 7019, 7053}, {6953, 7001, 6983}, {6944, 6966, 7004}},
}
var cpcLow = [2][11][3]float64{
	{{5871, 5247, 4826}, {5877, 5403, 5070}, {5873, 5533, 5304}, {5878, 5632, 5464}, {5874, 5690, 5564}, {5880, 5745, 5619}, {5875, 5784, 5701}, {5866, 5789, 5742}, {5869, 5827, 5784}, {5876, 5860, 5827}, {5881, 5853, 5842}},
	{{6037, 5720, 5328}, {6411, 6262, 5682}, {6724, 6403, 6127}, {6665, 6411, 6208}, {6959, 6525, 6427}, {6892, 6665, 6619}, {6792, 6752, 6690}, {6899, 6818, 6708}, {6871, 6845, 6812}, {6909, 6861, 6828}, {6919, 6897, 6842}},
}

// c03Widths: the bounds keep the published distance from the estimate, within 2 percent; the upper one may use either side.
func c03Widths(t *T, s *cpc.CpcSketch, lgK, coupons int, merged bool, key string) {
	e := s.GetEstimate()
	o, asym := 0, math.Sqrt(math.Ln2/2)
	if merged {
		o, asym = 1, math.Ln2
	}
	for kappa := 1; kappa <= 3; kappa++ {
		hi, lo := asym, asym
		if lgK <= 14 {
			hi, lo = cpcHigh[o][lgK-4][kappa-1]/1e4, cpcLow[o][lgK-4][kappa-1]/1e4
		}
		f := float64(kappa) / math.Sqrt(math.Ldexp(1, lgK))
		l, u := s.GetLowerBound(kappa), s.GetUpperBound(kappa)
		w := math.Max(float64(coupons), e/(1+0.98*hi*f))
		n := math.Max(float64(coupons), e/(1+1.02*hi*f))
		t.Check(l >= n*(1-1e-9) && l <= w*(1+1e-9), key+"-lower-width", "lgK %d, merged %v, %d coupons, estimate %v: lower bound(%d) %v outside [%v,%v]", lgK, merged, coupons, e, kappa, l, n, w)
		n, w = e/(1-0.98*math.Min(lo, hi)*f), e/(1-1.02*math.Max(lo, hi)*f)
		t.Check(u >= n*(1-1e-9) && u <= w*(1+1e-9)+1, key+"-upper-width", "lgK %d, merged %v, %d coupons, estimate %v: upper bound(%d) %v outside [%v,%v]", lgK, merged, coupons, e, kappa, u, n, w)
	}
	t.Ev("bound widths checked")
}

// c03Icon: a merged sketch answers with the number of items that makes its number of coupons expected, computed here by
// inverting the expectation; and its bounds keep their distance.
func c03Icon(t *T) {
	lgK := 4 + t.Idx%23
	k := 1 << lgK
	top := 6.5 * t.Float64()
	if t.IntN(4) == 0 {
		top = 14 * t.Float64()
	}
	limit := 160000
	if lgK > 18 {
		limit = 300000
	}
	if t.Thorough() {
		limit *= 20
	}
	c := max(1, min(int(top*float64(k)), limit))
	points := 1 + t.IntN(6)
	s := cpcNew(t, lgK, 9001)
	t.Desc("lgK=%d coupons=%d points=%d", lgK, c, points)
	t.Sig(lgK, c, points)
	odd := t.Uint64() | 1
	for i := 0; i < c; i++ { // column by column, rows in a scrambled order
		if err := cpcCrafted(t, uint64(i)*odd, lgK, i>>lgK, 9001).feed(s); err != nil {
			t.NoErr(err, "update")
		}
		if (i+1)%((c+points-1)/points) != 0 && i+1 != c {
			continue
		}
		n := i + 1
		u, err := cpc.NewCpcUnionSketch(lgK, 9001)
		t.NoErr(err, "new union")
		t.NoErr(u.Update(s), "merge")
		r, err := u.GetResult()
		t.NoErr(err, "result")
		want := iconInverse(lgK, float64(n))
		got := r.GetEstimate()
		t.Check(math.Abs(got-want) <= 0.8+5e-6*want, "icon", "lgK %d: %d coupons are expected from %v items, the merged sketch answers %v", lgK, n, want, got)
		c03Widths(t, r, lgK, n, true, "merged")
		c03Widths(t, s, lgK, n, false, "stream")
		t.Ev("estimates against the exact inverse")
	}
	t.NonTrivial()
}
