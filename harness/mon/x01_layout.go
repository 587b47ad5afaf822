package mon

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"fmt"
	"maps"
	"math"
	"os"
	"slices"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	gold := x1Golden(x1golden)
	core.Register("X01", "",
		core.Family{Name: "cpc-golden", Quick: len(gold), Thorough: len(gold), Run: func(t *T) { x1CpcGold(t, gold[t.Idx%len(gold)]) }},
		core.Family{Name: "kll-layout", Quick: 2000, Thorough: 40000, Run: kllRun(x1KllLayout[int64], x1KllLayout[float64], x1KllLayout[string], x1KllLayout[float32])},
		core.Family{Name: "sampling-layout", Quick: 2000, Thorough: 40000, Run: spRun(x1ResLayout[int64], x1ResLayout[float64], x1ResLayout[float32], x1ResLayout[string])},
		core.Family{Name: "cpc-layout", Quick: 1500, Thorough: 20000, Run: x1CpcLayout},
		core.Family{Name: "numbers-layout", Quick: 2000, Thorough: 40000, Run: func(t *T) {
			switch t.Idx % 5 {
			case 0:
				x1AodLayout[float64](t, 8, func(x float64) []byte { return ref.U64Bytes(math.Float64bits(x)) })
			case 1:
				x1AodLayout[int64](t, 8, func(x int64) []byte { return ref.U64Bytes(uint64(x)) })
			case 2:
				x1AodLayout[int32](t, 4, func(x int32) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(x)) })
			case 3:
				x1AodLayout[float32](t, 4, func(x float32) []byte { return binary.LittleEndian.AppendUint32(nil, math.Float32bits(x)) })
			case 4:
				x1AodLayout[int16](t, 2, func(x int16) []byte { return binary.LittleEndian.AppendUint16(nil, uint16(x)) })
			}
		}},
		core.Family{Name: "tuple-layout", Quick: 2000, Thorough: 40000, Run: x1TupleLayout})
	core.Register("X01", "",
		core.Family{Name: "cpc-phases", Quick: 6000, Thorough: 40000, Run: x1CpcPhases},
		core.Family{Name: "hll-layout", Quick: 1500, Thorough: 20000, Run: x1HllLayout})
	core.Mode("x1golden", func(a []string) { _ = os.WriteFile(a[0], x1MakeGolden(), 0o644) })
}

// ---- CPC: images written when the library was pinned, against their recipes

//go:embed cpc_golden.bin
var x1golden []byte

type x1gold struct {
	mode, lgK int
	seed      uint64
	n         int
	img       []byte
}

func x1mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// x1item is item i of a recipe: an integer, or 16 bytes that hash to a chosen cell.
func (g *x1gold) item(i int) []byte {
	r := x1mix(uint64(g.lgK)<<56 ^ uint64(g.mode)<<48 ^ uint64(i))
	if g.mode != 2 || i%3 != 0 {
		return ref.U64Bytes(r)
	}
	col := int(r>>32) % 40
	b := ref.Invert128(x1mix(r), 1<<(63-col)|x1mix(r+1)>>1>>col, g.seed)
	return b[:]
}

func (g *x1gold) build(fail func(error)) *cpc.CpcSketch {
	mk := func() *cpc.CpcSketch {
		s, err := cpc.NewCpcSketch(g.lgK, g.seed)
		fail(err)
		return s
	}
	a, b := mk(), mk()
	for i := range g.n {
		s := a
		if g.mode == 1 && i%2 == 1 {
			s = b
		}
		it := g.item(i)
		if len(it) == 8 {
			fail(s.UpdateUint64(binary.LittleEndian.Uint64(it)))
		} else {
			fail(s.UpdateByteSlice(it))
		}
	}
	if g.mode != 1 {
		return a
	}
	u, err := cpc.NewCpcUnionSketch(g.lgK, g.seed)
	fail(err)
	fail(u.Update(a))
	fail(u.Update(b))
	r, err := u.GetResult()
	fail(err)
	return r
}

func x1MakeGolden() (out []byte) {
	le := binary.LittleEndian
	for lgK := 4; lgK <= 13; lgK++ {
		k := 1 << lgK
		for mode := range 3 {
			for _, c := range []float64{0, 0.02, 0.06, 0.12, 0.4, 0.7, 1.5, 3, 4, 5, 7, 10, 20, 60, 300} {
				n := int(c * float64(k))
				if lgK > 11 && (c > 25 || mode > 0) {
					continue
				}
				g := &x1gold{mode: mode, lgK: lgK, seed: []uint64{9001, 123, math.MaxUint64}[(lgK+mode)%3], n: n}
				s := g.build(func(err error) {
					if err != nil {
						panic(err)
					}
				})
				img, err := s.ToCompactSlice()
				if err != nil {
					panic(err)
				}
				out = append(out, byte(mode), byte(lgK))
				out = le.AppendUint64(out, g.seed)
				out = le.AppendUint32(out, uint32(n))
				out = le.AppendUint32(out, uint32(len(img)))
				out = append(out, img...)
			}
		}
	}
	return
}

func x1Golden(b []byte) (out []*x1gold) {
	le := binary.LittleEndian
	for len(b) > 0 {
		l := int(le.Uint32(b[14:]))
		out = append(out, &x1gold{int(b[0]), int(b[1]), le.Uint64(b[2:]), int(le.Uint32(b[10:])), b[18 : 18+l]})
		b = b[18+l:]
	}
	return
}

func (g *x1gold) matrix() []uint64 {
	m := make([]uint64, 1<<g.lgK)
	for i := range g.n {
		r, c := ref.CpcCell(g.item(i), g.seed, g.lgK)
		m[r] |= 1 << c
	}
	return m
}

func x1near(a, b float64) bool { return math.Abs(a-b) <= 1e-12*max(math.Abs(a), math.Abs(b)) }

// x1cpcSame compares two images, the floating-point registers loosely.
func x1cpcSame(t *T, got, want []byte, key, what string) {
	a, err := ref.ParseCpc(got)
	t.NoErr(err, key+"-layout")
	b, err := ref.ParseCpc(want)
	t.NoErr(err, "harness")
	t.Check(a.LgK == b.LgK && a.FirstCol == b.FirstCol && a.Flags == b.Flags && a.SeedHash == b.SeedHash && a.Coupons == b.Coupons && a.TableEntries == b.TableEntries, key,
		"%s: lgK %d first column %d flags %#x coupons %d, the stored image has %d %d %#x %d", what, a.LgK, a.FirstCol, a.Flags, a.Coupons, b.LgK, b.FirstCol, b.Flags, b.Coupons)
	t.Check(x1near(a.Kxp, b.Kxp) && x1near(a.Hip, b.Hip), key+"-registers", "%s: KxP %v HIP %v, the stored image has %v %v", what, a.Kxp, a.Hip, b.Kxp, b.Hip)
	t.Check(bytes.Equal(a.Window, b.Window) && bytes.Equal(a.Table, b.Table), key, "%s: compressed streams differ from the stored image's", what)
}

func x1CpcGold(t *T, g *x1gold) {
	t.Desc("mode %d lgK %d seed %d n %d, %d bytes", g.mode, g.lgK, g.seed, g.n, len(g.img))
	m := g.matrix()
	s, err := cpc.NewCpcSketchFromSlice(slices.Clone(g.img), g.seed)
	t.NoErr(err, "decode")
	cpcSame(t, cpcMatrix(t, s, g.seed), m, "decode")
	x1cpcSame(t, cpcBytes(t, s, "encode"), g.img, "again", "encoded again")
	u := g.build(func(err error) { t.NoErr(err, "rebuild") })
	cpcSame(t, cpcMatrix(t, u, g.seed), m, "rebuild")
	x1cpcSame(t, cpcBytes(t, u, "encode"), g.img, "rebuild", "rebuilt and encoded")
	x1cpcSheet(t, g.img, m, g.seed, "stored")
	t.Sig(g.mode, g.lgK, g.n)
	t.NonTrivial()
	t.Ev("stored images")
}

// x1cpcSheet checks what the preamble of an image says about its content.
func x1cpcSheet(t *T, b []byte, m []uint64, seed uint64, key string) {
	im, err := ref.ParseCpc(b)
	t.NoErr(err, key+"-layout")
	c := ref.CountMatrix(m)
	lgK, k := im.LgK, len(m)
	t.Check(1<<lgK == k && int(im.Coupons) == c && im.SeedHash == ref.SeedHash(seed), key+"-preamble", "lgK %d coupons %d seed hash %#x, the stream has %d in %d rows", lgK, im.Coupons, im.SeedHash, c, k)
	dm, err := ref.CpcUnpack(im)
	t.NoErr(err, key+"-streams")
	cpcSame(t, dm, m, key+"-streams")
	t.Ev("streams decoded independently")
	// flavors of the publication: empty, sparse, hybrid, pinned, sliding
	table, window := im.Flags&8 != 0, im.Flags&16 != 0
	switch {
	case c == 0:
		t.Check(!table && !window && len(b) == 8, key+"-flavor", "empty sketch with streams, %d bytes", len(b))
		return
	case 2*c < k: // sparse and hybrid keep all coupons in the table
		t.Check(table && !window && int(im.TableEntries) == c, key+"-flavor", "%d coupons in %d rows: table %v of %d, window %v", c, k, table, im.TableEntries, window)
	default:
		off := max(0, (8*c-19*k)/(8*k))
		if 8*c < 27*k {
			off = 0
		}
		want := 0
		for _, w := range m { // coupons the window and the assumed ones do not explain
			for col := range 64 {
				in := w>>col&1 != 0
				if col >= off && col < off+8 {
					continue
				}
				if in != (col < off) {
					want++
				}
			}
		}
		t.Check(window && table == (want > 0) && int(im.TableEntries) == want, key+"-flavor", "%d coupons in %d rows: table %v of %d entries, %d surprising at offset %d", c, k, table, im.TableEntries, want, off)
	}
	if im.Flags&4 != 0 { // HIP registers follow the stream
		kxp := ref.Kxp(m)
		t.Check(x1near(im.Kxp, kxp) || math.Abs(im.Kxp-kxp) < 1e-9*float64(k), key+"-registers", "KxP %v, coupons give %v", im.Kxp, kxp)
		t.Check(im.Hip >= float64(c)*(1-1e-9), key+"-registers", "HIP %v for %d coupons", im.Hip, c)
	}
	t.Ev("preambles")
}

func x1CpcLayout(t *T) {
	lgK := cpcLgK(t)
	if lgK > 12 {
		lgK = 4 + t.IntN(6)
	}
	seed := cpcSeed(t)
	m := make([]uint64, 1<<lgK)
	s := cpcNew(t, lgK, seed)
	n := min(cpcSize(t, lgK), 60000)
	for _, it := range cpcStream(t, lgK, n, seed, []float64{0, 0, 0.02, 0.3}[t.IntN(4)]) {
		t.NoErr(it.feed(s), "update")
	}
	copy(m, cpcMatrix(t, s, seed))
	if t.IntN(3) == 0 {
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		t.NoErr(err, "union")
		t.NoErr(u.Update(s), "union")
		s, err = u.GetResult()
		t.NoErr(err, "union")
	}
	t.Desc("lgK %d seed %d n %d", lgK, seed, n)
	x1cpcSheet(t, cpcBytes(t, s, "encode"), m, seed, "written")
	t.Sig(lgK, seed, n)
	if n > 1 {
		t.NonTrivial()
	}
}

// x1CpcPhases writes images with a coupon count at or next to a count where
// the format changes its flavor, window offset or code tables.
func x1CpcPhases(t *T) {
	lgK := 4 + t.IntN(7)
	k := 1 << lgK
	x := []float64{3. / 32, 0.5, 0.75, 1.1, 1.32, 5. / 3, 1.965, 2.275, 2.375, 27. / 8, 27./8 + float64(t.IntN(8)), 19./8 + float64(t.IntN(200))/16}[t.IntN(12)]
	want := max(1, int(x*float64(k))+t.IntN(3)-1)
	if t.IntN(4) == 0 {
		want += t.IntN(k/32 + 1)
	}
	seed := cpcSeed(t)
	s := cpcNew(t, lgK, seed)
	m := make([]uint64, k)
	have := 0
	base := t.Uint64()
	for i := uint64(0); have < want && i < 1<<20; i++ {
		r, c := ref.CpcCell(ref.U64Bytes(base+i), seed, lgK)
		if m[r]>>c&1 == 0 {
			m[r] |= 1 << c
			have++
		}
		t.NoErr(s.UpdateUint64(base+i), "update")
	}
	t.Desc("lgK %d seed %d, %d coupons (%v per row)", lgK, seed, have, float64(have)/float64(k))
	if t.IntN(3) == 0 {
		u, err := cpc.NewCpcUnionSketch(lgK, seed)
		t.NoErr(err, "union")
		t.NoErr(u.Update(s), "union")
		s, err = u.GetResult()
		t.NoErr(err, "union")
	}
	x1cpcSheet(t, cpcBytes(t, s, "encode"), m, seed, "written")
	t.Sig(lgK, have)
	t.NonTrivial()
}

// ---- layouts of our own images

func x1KllLayout[C comparable](t *T) {
	kd := kllKindOf[C](t)
	s, m := kllBuild(t, kd)
	b := kllBytes(t, s)
	im, err := ref.ParseKll(b, x1reader(kd.serde))
	t.NoErr(err, "layout")
	x1kllMatch(t, s, im, "written")
	x1kllShape(t, im, "written")
	t.Check(im.MinK >= 1 && im.MinK <= im.K && (m.n > 0) == (im.NumLevels > 0), "written", "min k %d of k %d, %d levels", im.MinK, im.K, im.NumLevels)
	t.Check((im.Flags&4 != 0) == (m.n == 1) && (im.Flags&1 != 0) == (m.n == 0), "written-flags", "flags %#x for n %d", im.Flags, m.n)
	of := x1unraw[C]()
	for l, xs := range im.Levels {
		if l == 0 && !im.L0Sorted {
			continue
		}
		for i := 1; i < len(xs); i++ {
			if kd.less(of(xs[i]), of(xs[i-1])) {
				t.Check(false, "written-order", "level %d of %d is not sorted (%v before %v)", l, len(im.Levels), of(xs[i-1]), of(xs[i]))
			}
		}
	}
	t.Ev("images parsed")
}

func x1unraw[C comparable]() func(string) C {
	var f any
	var z C
	le := binary.LittleEndian
	switch any(z).(type) {
	case int64:
		f = func(s string) int64 { return int64(le.Uint64([]byte(s))) }
	case float64:
		f = func(s string) float64 { return math.Float64frombits(le.Uint64([]byte(s))) }
	case float32:
		f = func(s string) float32 { return math.Float32frombits(le.Uint32([]byte(s))) }
	case string:
		f = func(s string) string { return s[4:] }
	}
	return f.(func(string) C)
}

func x1ResLayout[I comparable](t *T, kd *spKind[I]) {
	k := s01K(t)
	n := min(s01N(t, k), 20000)
	rd := x1reader(kd.serde)
	t.Sig(kd.name, k, n, t.Idx%8)
	if n > 0 {
		t.NonTrivial()
	}
	t.Ev("images parsed")
	if t.IntN(2) == 0 {
		s, rf := s01New[I](t, k)
		t.Desc("%s reservoir k %d n %d", kd.name, k, n)
		for i := range n {
			t.NoErr(s.Update(kd.key(i)), "update")
		}
		b, err := s.ToSlice(kd.serde)
		t.NoErr(err, "encode")
		im, err := ref.ParseReservoir(b, rd)
		t.NoErr(err, "layout")
		x1resMatch(t, s, im, "written")
		t.Check(im.Empty == (n == 0), "written", "empty flag %v for n %d", im.Empty, n)
		_ = rf
		return
	}
	maxK := max(k, 2)
	u, _, _ := s02Run(t, kd, maxK, s02Steps(t, maxK, 1+t.IntN(4)), false)
	t.Desc("%s reservoir union max k %d", kd.name, maxK)
	b, err := u.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	un, err := ref.ParseReservoirUnion(b)
	t.NoErr(err, "layout")
	t.Check(un.K == maxK, "written", "max k %d in the image, %d asked", un.K, maxK)
	r, err := u.Result()
	t.NoErr(err, "result")
	if un.Empty {
		t.Check(r == nil || r.NumSamples() == 0, "written", "empty image of a union with samples")
		return
	}
	im, err := ref.ParseReservoir(un.Inner, rd)
	t.NoErr(err, "layout")
	x1resMatch(t, r, im, "written")
}

// x1stream feeds a random stream of keys into f and returns them.
func x1stream(t *T, f func(key int64) error) {
	n := []int{0, 1, 2, t.IntN(30), t.IntN(400), t.IntN(5000)}[t.IntN(6)]
	base := int64(t.Uint64())
	uni := 1 + t.IntN(2*n+2)
	for range n {
		t.NoErr(f(base+int64(t.IntN(uni))), "update")
	}
}

func x1AodLayout[V int16 | int32 | int64 | float32 | float64](t *T, width int, raw func(V) []byte) {
	nv := 1 + t.IntN(4)
	lg := uint8(5 + t.IntN(6))
	p := []float32{1, 1, 0.5, 0.01}[t.IntN(4)]
	seed := []uint64{9001, 9001, 42, math.MaxUint64}[t.IntN(4)]
	u, err := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(nv), tuple.WithUpdateSketchLgK(lg), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	sums := map[int64][]V{}
	x1stream(t, func(k int64) error {
		v := make([]V, nv)
		for i := range v {
			v[i] = V(t.IntN(100) - 50)
		}
		if sums[k] == nil {
			sums[k] = make([]V, nv)
		}
		for i := range v {
			sums[k][i] += v[i]
		}
		err := u.UpdateInt64(k, v)
		_ = err // refused when the key hashes above theta
		return nil
	})
	ord := t.IntN(2) == 0
	c, err := u.Compact(ord)
	t.NoErr(err, "compact")
	var w bytes.Buffer
	e := tuple.NewArrayOfNumbersSketchEncoder[V](&w)
	t.NoErr(e.Encode(c), "encode")
	im, err := ref.ParseAod(w.Bytes(), width)
	t.NoErr(err, "layout")
	t.Desc("%d values of %d bytes, lgK %d p %v, %d keys", nv, width, lg, p, len(sums))
	want := map[uint64]string{}
	for k, v := range sums {
		h, _ := ref.Murmur128(ref.U64Bytes(uint64(k)), seed)
		if h>>1 < im.Theta {
			var s []byte
			for _, x := range v {
				s = append(s, raw(x)...)
			}
			want[h>>1] = string(s)
		}
	}
	x1tupleImage(t, im, want, len(sums) == 0, c.Theta64(), c.IsOrdered(), seed)
	t.Check(im.NumValues == nv, "written", "%d values in the image, %d asked", im.NumValues, nv)
	t.Sig("aod", width, nv, lg, p, len(want), im.Theta)
	if len(want) > 0 {
		t.NonTrivial()
	}
}

func x1tupleImage(t *T, im ref.TupleImage, want map[uint64]string, empty bool, th uint64, ordered bool, seed uint64) {
	got := map[uint64]string{}
	for i, k := range im.Keys {
		got[k] = im.Sums[i]
	}
	t.Check(len(got) == len(im.Keys) && maps.Equal(got, want), "written", "the image holds %d entries (%d distinct keys), the stream has %d below theta", len(im.Keys), len(got), len(want))
	t.Check(im.Empty == empty && im.Theta == th && im.SeedHash == ref.SeedHash(seed), "written", "the image says empty %v theta %d seed hash %#x; the sketch %v %d", im.Empty, im.Theta, im.SeedHash, empty, th)
	t.Check(im.Ordered == ordered && (!ordered || slices.IsSorted(im.Keys)), "written-order", "ordered flag %v for a sketch ordered %v", im.Ordered, ordered)
	t.Ev("images parsed")
}

func x1TupleLayout(t *T) {
	lg := uint8(5 + t.IntN(6))
	p := []float32{1, 1, 0.5, 0.01}[t.IntN(4)]
	seed := []uint64{9001, 9001, 42, math.MaxUint64}[t.IntN(4)]
	u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(lg), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	last := map[int64][]string{}
	x1stream(t, func(k int64) error {
		v := make([]string, t.IntN(4))
		for i := range v {
			v[i] = []string{"", "é世", "a", fmt.Sprint(t.IntN(1000))}[t.IntN(4)]
		}
		last[k] = v
		_ = u.UpdateInt64(k, v)
		return nil
	})
	c, err := u.Compact(t.IntN(2) == 0)
	t.NoErr(err, "compact")
	var w bytes.Buffer
	e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&w, tuple.ArrayOfStringsSummaryWriter)
	t.NoErr(e.Encode(c), "encode")
	im, err := ref.ParseTuple(w.Bytes(), func(b []byte) int { return int(binary.LittleEndian.Uint32(b)) })
	t.NoErr(err, "layout")
	t.Desc("strings, lgK %d p %v, %d keys", lg, p, len(last))
	want := map[uint64]string{}
	for k, v := range last {
		h, _ := ref.Murmur128(ref.U64Bytes(uint64(k)), seed)
		if h>>1 < im.Theta {
			want[h>>1] = x1strings(v)
		}
	}
	x1tupleImage(t, im, want, len(last) == 0, c.Theta64(), c.IsOrdered(), seed)
	t.Sig("aos", lg, p, len(want), im.Theta)
	if len(want) > 0 {
		t.NonTrivial()
	}
	// keys of string arrays
	for range 4 {
		ks := make([]string, t.IntN(4))
		for i := range ks {
			ks[i] = []string{"", ",", "é世", "longer than one stripe of thirty-two bytes of input", fmt.Sprint(t.Uint64())}[t.IntN(5)]
		}
		f := &x1fix{cpp: true}
		t.Check(tuple.GenerateHashKeyFromStrings(ks) == x1aosKey(f, ks), "string-key", "key of %q is %#x", ks, tuple.GenerateHashKeyFromStrings(ks))
	}
}

// x1strings is the published encoding of an array of strings.
func x1strings(v []string) string {
	o := []byte{0, 0, 0, 0, byte(len(v))}
	for _, s := range v {
		o = append(binary.LittleEndian.AppendUint32(o, uint32(len(s))), s...)
	}
	binary.LittleEndian.PutUint32(o, uint32(len(o)))
	return string(o)
}

// ---- HLL: what a reader of either form concludes from the flags

func x1HllLayout(t *T) {
	lgK, tt := t.IntN(9)+4, hll.TgtHllType(t.IntN(3))
	set := hllSet{}
	nIn := t.IntN(3) // 0: a plain sketch, else a union of so many
	var s hll.HllSketch
	if nIn == 0 {
		s = hllNew(t, lgK, tt)
		for _, it := range hllStream(t, lgK, hllSize(t, lgK), 0.1, 1<<40) {
			t.NoErr(it.feed(s), "feed")
			set.add(it)
		}
	} else {
		u, err := hll.NewUnion(lgK)
		t.NoErr(err, "union")
		for range nIn + 1 {
			in := hllNew(t, lgK, hll.TgtHllType(t.IntN(3)))
			for _, it := range hllStream(t, lgK, hllSize(t, lgK), 0.1, 1<<40) {
				t.NoErr(it.feed(in), "feed")
				set.add(it)
			}
			t.NoErr(u.UpdateSketch(in), "union")
		}
		s, err = u.GetResult(tt)
		t.NoErr(err, "result")
	}
	im := hllContent(t, s, set, "image")
	if im.Mode < 2 {
		t.Check(!im.OOO, "coupons-flag", "a coupon image flagged out of order")
		return
	}
	t.Check(nIn > 0 || !im.OOO, "stream-flag", "a stream's image flagged out of order")
	comp, err := s.GetCompositeEstimate()
	t.NoErr(err, "composite")
	for form := range 2 {
		b, err := s.ToCompactSlice()
		if form == 1 {
			b, err = s.ToUpdatableSlice()
		}
		t.NoErr(err, "encode")
		for _, ooo := range []bool{false, true} {
			c := bytes.Clone(b)
			c[5] = c[5]&^16 | map[bool]byte{true: 16}[ooo]
			if !ooo { // some number of its own
				binary.LittleEndian.PutUint64(c[8:], math.Float64bits(comp*1.5))
			}
			d, err := hll.NewHllSketchFromSlice(c, true)
			t.NoErr(err, "decode")
			want := comp
			if !ooo {
				want = comp * 1.5
			}
			got, err := d.GetEstimate()
			t.NoErr(err, "estimate")
			t.Check(got == want, "order-flag", "lgK %d type %d form %d: with the out-of-order bit %v the image reads as %v, expected %v", lgK, tt, form, ooo, got, want)
			t.Ev("images read with the order bit set by hand")
		}
	}
}
