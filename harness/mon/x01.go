package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"maps"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/cpc"
	bf "github.com/apache/datasketches-go/filters"
	fq "github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
	"verif/harness/ref"
)

// x1fix is a reference image of another library.
type x1fix struct {
	name  string // without the extension
	cpp   bool
	n     int // from the name
	bytes []byte
}

var x1files = func() (out []string) {
	repo := os.Getenv("HARNESS_REPO")
	if repo == "" {
		repo = "/repo"
	}
	fs, _ := filepath.Glob(repo + "/serialization_test_data/[cj]*_generated_files/*.sk")
	slices.Sort(fs)
	for _, f := range fs {
		if x1Checker(filepath.Base(f)) != nil {
			out = append(out, f)
		}
	}
	return
}()

var x1num = regexp.MustCompile(`_n(\d+)`)

func init() {
	core.Register("X01", "non-trivial: an image of another library or of this one was read by an independent parser and by every decoder, and compared with what went in; distinct by image",
		core.Family{Name: "fixtures", Quick: len(x1files), Thorough: len(x1files), Run: x1Fixture})
	core.Assume("X01", "the t-digest images of C++ tdigest<float> are of a type this library does not offer", "varopt_union_double_sampling is read as the images of C++ and Java define it",
		"flag bits that the other libraries leave unset (ordered on images of at most one entry, compact on C++ HLL images) and the count of a dirty Java Bloom filter are not compared")
}

// x1Checker picks the oracle for a reference file.
func x1Checker(name string) func(t *T, f *x1fix) {
	for _, c := range []struct {
		prefix string
		run    func(t *T, f *x1fix)
	}{
		{"theta_", x1Theta}, {"tuple_int_", x1TupleInt}, {"aod_", x1Aod}, {"aos_", x1Aos}, {"hll", x1Hll}, {"cpc_", x1Cpc},
		{"bf_", x1Bloom}, {"frequent_long", x1FreqLong}, {"frequent_string", x1FreqString},
		{"kll_double", x1KllOf(common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, func(i int) float64 { return float64(i) })},
		{"kll_float", x1KllOf(ordLess[float32], common.ItemSketchFloatSerDe{}, func(i int) float32 { return float32(i) })},
		{"kll_long", x1KllOf(common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(i int) int64 { return int64(i) })},
		{"kll_string", x1KllOf(common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, func(i int) string { return strconv.Itoa(i) })},
		{"reservoir_items_union_double", x1ResUnion(spDouble.serde, func(i int) float64 { return float64(i) })},
		{"reservoir_items_union_long", x1ResUnion(spLong.serde, func(i int) int64 { return int64(i) })},
		{"reservoir_items_union_string", x1ResUnion(spString.serde, func(i int) string { return fmt.Sprintf("item%d", i) })},
		{"reservoir_items_double", x1Res(spDouble.serde, func(i int) float64 { return float64(i) })},
		{"reservoir_items_long", x1Res(spLong.serde, func(i int) int64 { return int64(i) })},
		{"reservoir_items_string", x1Res(spString.serde, func(i int) string { return fmt.Sprintf("item%d", i) })},
		{"reservoir_longs_union", x1ResUnion(spLong.serde, func(i int) int64 { return int64(i) })},
		{"reservoir_longs", x1Res(spLong.serde, func(i int) int64 { return int64(i) })},
		{"varopt_sketch_long", x1Varopt(&spLong)}, {"varopt_sketch_string", x1Varopt(&spString)}, {"varopt_union_double", x1VaroptUnion},
		{"tdigest_double", x1TDigest},
	} {
		if strings.HasPrefix(name, c.prefix) {
			return c.run
		}
	}
	return nil
}

func x1Fixture(t *T) {
	path := x1files[t.Idx%len(x1files)]
	b, err := os.ReadFile(path)
	t.NoErr(err, "harness-read")
	f := &x1fix{name: strings.TrimSuffix(filepath.Base(path), ".sk"), bytes: b, cpp: strings.Contains(path, "cpp_generated")}
	if m := x1num.FindStringSubmatch(f.name); m != nil {
		f.n, _ = strconv.Atoi(m[1])
	}
	t.Desc("%s, %d bytes", path, len(b))
	x1Checker(f.name)(t, f)
	t.Check(bytes.Equal(b, f.bytes), "input-changed", "decoding changed the image it was given")
	t.Sig(f.name)
	t.NonTrivial()
	t.Ev("reference images")
}

// x1same compares an image with its reference, leaving the masked bits alone.
func x1same(t *T, got, want []byte, mask map[int]byte, key, what string) {
	t.Check(len(got) == len(want), key, "%s: %d bytes, the reference has %d", what, len(got), len(want))
	for i := range got {
		if d := (got[i] ^ want[i]) &^ mask[i]; d != 0 {
			t.Check(false, key, "%s: byte %d is %#02x, the reference has %#02x", what, i, got[i], want[i])
		}
	}
	t.Ev("byte comparisons")
}

// ---- theta and tuple

func x1hashes(from, n int, theta uint64, put func(i int, h uint64)) {
	for i := from; i < n; i++ {
		a, _ := ref.Murmur128(ref.U64Bytes(uint64(i)), 9001)
		if h := a >> 1; h < theta {
			put(i, h)
		}
	}
}

// x1p is the threshold of sampling probability 0.01.
func x1p(theta uint64) bool {
	return math.Abs(float64(theta)/math.MaxInt64-0.01) < 1e-8
}

func x1Theta(t *T, f *x1fix) {
	im, err := ref.ParseTheta(f.bytes)
	t.NoErr(err, "layout")
	from, p := 0, float32(1)
	n := f.n
	if strings.Contains(f.name, "non_empty") {
		from, n, p = 1, 2, 0.01
		t.Check(x1p(im.Theta), "harness", "theta %d", im.Theta)
	}
	var want []uint64
	x1hashes(from, n, im.Theta, func(_ int, h uint64) { want = append(want, h) })
	slices.Sort(want)
	empty := n == 0
	have := slices.Sorted(slices.Values(im.Hashes))
	t.Check(slices.Equal(have, want) && im.Empty == empty, "harness", "the reference image holds %d hashes, expected %d", len(have), len(want))
	look := func(s theta.Sketch, err error, how string) {
		t.NoErr(err, how)
		x := snapOf(s)
		t.Check(slices.Equal(x.hashes, want) && x.theta == im.Theta && x.empty == empty && int(s.NumRetained()) == len(want), how,
			"%s: %d hashes (%d retained), theta %d, empty %v; the image holds %d, theta %d, empty %v", how, len(x.hashes), s.NumRetained(), x.theta, x.empty, len(want), im.Theta, empty)
		t.Check(x.seed == ref.SeedHash(9001) || empty && x.seed == im.SeedHash, how+"-seed", "%s: seed hash %#x", how, x.seed)
		t.Check(!im.Ordered || slices.Equal(x.order, im.Hashes) && x.ordered, how+"-order", "%s: order lost", how)
		t.Check(!x.ordered || slices.IsSorted(x.order), how+"-order", "%s: says ordered, is not", how)
	}
	c, err := theta.Decode(f.bytes, 9001)
	look(c, err, "decode")
	dec := theta.NewDecoder(9001)
	d, err := dec.Decode(bytes.NewReader(f.bytes))
	look(d, err, "stream")
	w, err := theta.WrapCompactSketch(slices.Clone(f.bytes), 9001)
	look(w, err, "wrap")
	// rebuild
	u, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchP(p))
	t.NoErr(err, "harness-new")
	for i := from; i < n; i++ {
		_ = u.UpdateInt64(int64(i))
	}
	look(u.Compact(true), nil, "rebuilt")
	mask := map[int]byte{}
	if !f.cpp && n <= 1 { // Java: unordered, or single-item flag, or no seed hash when empty
		mask = map[int]byte{5: 0x30}
		if n == 0 {
			mask[6], mask[7] = 0xff, 0xff
		}
	}
	for _, s := range []theta.Sketch{c, d, u} {
		cs := theta.NewCompactSketch(s, im.Ordered || n <= 1)
		for _, z := range []bool{false, true} {
			b := encodeTheta(t, cs, z)
			i2, err := ref.ParseTheta(b)
			t.NoErr(err, "written")
			slices.Sort(i2.Hashes)
			t.Check(slices.Equal(i2.Hashes, want) && i2.Theta == im.Theta && i2.Empty == empty && (i2.SeedHash == ref.SeedHash(9001) || empty && i2.SeedHash == im.SeedHash), "written", "image written: %d hashes, theta %d", len(i2.Hashes), i2.Theta)
			if i2.Version == im.Version && (im.Ordered || n <= 1) {
				x1same(t, b, f.bytes, mask, "bytes", fmt.Sprintf("%T encoded", s))
			}
		}
	}
}

// x1tuple checks a tuple image and what it decodes to.
func x1tuple(t *T, f *x1fix, parse func([]byte) (ref.TupleImage, error), want map[uint64]string, theta0 uint64, flagAt int, decode func(b []byte) (map[uint64]string, uint64, bool, bool, []byte)) ref.TupleImage {
	im, err := parse(f.bytes)
	t.NoErr(err, "layout")
	toMap := func(im ref.TupleImage) map[uint64]string {
		m := map[uint64]string{}
		for i, k := range im.Keys {
			m[k] = im.Sums[i]
		}
		return m
	}
	t.Check(maps.Equal(toMap(im), want) && len(im.Keys) == len(want) && im.Theta == theta0, "harness", "the reference image holds %d entries, expected %d", len(im.Keys), len(want))
	got, th, empty, ordered, again := decode(f.bytes)
	t.Check(maps.Equal(got, want) && th == im.Theta && empty == im.Empty, "decode", "%d entries, theta %d, empty %v; the image holds %d, %d, %v", len(got), th, empty, len(want), im.Theta, im.Empty)
	t.Check(!im.Ordered || ordered, "decode-order", "order lost")
	i2, err := parse(again)
	t.NoErr(err, "written")
	t.Check(maps.Equal(toMap(i2), want) && len(i2.Keys) == len(want) && i2.Theta == im.Theta && i2.Empty == im.Empty && i2.SeedHash == im.SeedHash && i2.NumValues == im.NumValues, "written", "image written: %d entries", len(i2.Keys))
	mask := map[int]byte{}
	if !f.cpp && len(want) <= 1 {
		mask[flagAt] = 0x10
	}
	x1same(t, again, f.bytes, mask, "bytes", "encoded again")
	return im
}

func x1mask(f *x1fix, at int) map[int]byte {
	if !f.cpp && f.n <= 1 {
		return map[int]byte{at: 0x10}
	}
	return nil
}

type x1i32 struct{ v int32 }

func (s *x1i32) Reset()               { s.v = 0 }
func (s *x1i32) Clone() tuple.Summary { return &x1i32{s.v} }
func (s *x1i32) Update(v int32)       { s.v += v }

func x1TupleInt(t *T, f *x1fix) {
	rd := func(r io.Reader) (*x1i32, error) {
		var x [4]byte
		_, err := io.ReadFull(r, x[:])
		return &x1i32{int32(binary.LittleEndian.Uint32(x[:]))}, err
	}
	wr := func(w io.Writer, s *x1i32) error {
		_, err := w.Write(binary.LittleEndian.AppendUint32(nil, uint32(s.v)))
		return err
	}
	raw := func(v int32) string { return string(binary.LittleEndian.AppendUint32(nil, uint32(v))) }
	enc := func(c *tuple.CompactSketch[*x1i32]) []byte {
		var w bytes.Buffer
		e := tuple.NewEncoder[*x1i32](&w, wr)
		t.NoErr(e.Encode(c), "encode")
		return w.Bytes()
	}
	u, err := tuple.NewUpdateSketch[*x1i32, int32](func() *x1i32 { return &x1i32{} })
	t.NoErr(err, "harness-new")
	for i := range f.n {
		_ = u.UpdateInt64(int64(i), int32(i))
	}
	want := map[uint64]string{}
	x1hashes(0, f.n, u.Theta64(), func(i int, h uint64) { want[h] = raw(int32(i)) })
	parse := func(b []byte) (ref.TupleImage, error) { return ref.ParseTuple(b, ref.Fixed(4)) }
	im := x1tuple(t, f, parse, want, u.Theta64(), 5, func(b []byte) (map[uint64]string, uint64, bool, bool, []byte) {
		d := tuple.NewDecoder[*x1i32](9001, rd)
		s, err := d.Decode(bytes.NewReader(b))
		t.NoErr(err, "decode")
		m := map[uint64]string{}
		for h, x := range s.All() {
			m[h] = raw(x.v)
		}
		return m, s.Theta64(), s.IsEmpty(), s.IsOrdered(), enc(s)
	})
	if c, err := u.Compact(true); im.Ordered || f.n <= 1 {
		t.NoErr(err, "rebuild")
		x1same(t, enc(c), f.bytes, x1mask(f, 5), "rebuild", "rebuilt and encoded")
	}
}

func x1Aod(t *T, f *x1fix) {
	k := int(f.name[4] - '0')
	p, from, n := float32(1), 0, f.n
	if strings.Contains(f.name, "non_empty") {
		p, from, n = 0.01, 1, 2
	}
	raw := func(v []float64) (s string) {
		for _, x := range v {
			s += string(ref.U64Bytes(math.Float64bits(x)))
		}
		return
	}
	enc := func(c *tuple.ArrayOfNumbersCompactSketch[float64]) []byte {
		var w bytes.Buffer
		e := tuple.NewArrayOfNumbersSketchEncoder[float64](&w)
		t.NoErr(e.Encode(c), "encode")
		return w.Bytes()
	}
	val := func(i int) []float64 { return slices.Repeat([]float64{float64(i)}, k) }
	u, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(k), tuple.WithUpdateSketchP(p))
	t.NoErr(err, "harness-new")
	for i := from; i < n; i++ {
		_ = u.UpdateInt64(int64(i), val(i))
	}
	want := map[uint64]string{}
	x1hashes(from, n, u.Theta64(), func(i int, h uint64) { want[h] = raw(val(i)) })
	parse := func(b []byte) (ref.TupleImage, error) { return ref.ParseAod(b, 8) }
	im := x1tuple(t, f, parse, want, u.Theta64(), 4, func(b []byte) (map[uint64]string, uint64, bool, bool, []byte) {
		s, err := tuple.DecodeArrayOfNumbersCompactSketch[float64](b, 9001)
		t.NoErr(err, "decode")
		m := map[uint64]string{}
		for h, x := range s.All() {
			m[h] = raw(x.Values())
		}
		t.Check(int(s.NumValuesInSummary()) == k, "decode", "%d values per summary, image has %d", s.NumValuesInSummary(), k)
		return m, s.Theta64(), s.IsEmpty(), s.IsOrdered(), enc(s)
	})
	if c, err := u.Compact(true); im.Ordered || len(want) <= 1 {
		t.NoErr(err, "rebuild")
		x1same(t, enc(c), f.bytes, x1mask(f, 4), "rebuild", "rebuilt and encoded")
	}
}

// x1aosKey is the published key of an array of strings: C++ and Go hash the
// bytes, Java hashes the UTF-16 units.
func x1aosKey(f *x1fix, key []string) uint64 {
	s := strings.Join(key, ",")
	b := []byte(s)
	if !f.cpp {
		b = nil
		for _, c := range utf16.Encode([]rune(s)) {
			b = binary.LittleEndian.AppendUint16(b, c)
		}
	}
	return ref.XXHash64(b, 0x7A3CCA71)
}

func x1Aos(t *T, f *x1fix) {
	type kv struct{ k, v []string }
	var in []kv
	p := float32(1)
	switch {
	case strings.Contains(f.name, "non_empty"):
		p, in = 0.01, []kv{{[]string{"key"}, []string{"value"}}}
	case strings.Contains(f.name, "unicode"):
		in = []kv{{[]string{"키", "열쇠"}, []string{"밸류", "값"}}, {[]string{"🔑", "🗝️"}, []string{"📦", "🎁"}}, {[]string{"ключ1", "ключ2"}, []string{"ценить1", "ценить2"}}}
	case strings.Contains(f.name, "empty_strings"):
		in = []kv{{[]string{""}, []string{"empty_key_value"}}, {[]string{"empty_value_key"}, []string{""}}, {[]string{"", ""}, []string{"", ""}}}
	default:
		for i := range f.n {
			x := strconv.Itoa(i)
			e := kv{[]string{x}, []string{"value" + x}}
			switch {
			case strings.HasPrefix(f.name, "aos_3"):
				e.v = []string{"a" + x, "b" + x, "c" + x}
			case strings.HasPrefix(f.name, "aos_multikey"):
				e.k = []string{"key" + x, "subkey" + strconv.Itoa(i%10)}
			}
			in = append(in, e)
		}
	}
	enc := func(c *tuple.CompactSketch[*tuple.ArrayOfStringsSummary]) []byte {
		var w bytes.Buffer
		e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&w, tuple.ArrayOfStringsSummaryWriter)
		t.NoErr(e.Encode(c), "encode")
		return w.Bytes()
	}
	u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchP(p))
	t.NoErr(err, "harness-new")
	for _, e := range in {
		k := x1aosKey(f, e.k)
		if f.cpp {
			k = tuple.GenerateHashKeyFromStrings(e.k)
		}
		_ = u.UpdateUint64(k, e.v)
	}
	want := map[uint64]string{}
	for _, e := range in {
		a, _ := ref.Murmur128(ref.U64Bytes(x1aosKey(f, e.k)), 9001)
		if a>>1 < u.Theta64() {
			want[a>>1] = x1strings(e.v)
		}
	}
	parse := func(b []byte) (ref.TupleImage, error) {
		return ref.ParseTuple(b, func(b []byte) int { return int(binary.LittleEndian.Uint32(b)) })
	}
	im := x1tuple(t, f, parse, want, u.Theta64(), 5, func(b []byte) (map[uint64]string, uint64, bool, bool, []byte) {
		d := tuple.NewDecoder[*tuple.ArrayOfStringsSummary](9001, tuple.ArrayOfStringsSummaryReader)
		s, err := d.Decode(bytes.NewReader(b))
		t.NoErr(err, "decode")
		d2 := tuple.NewDecoder[tuple.ArrayOfStringsInlineSummary](9001, tuple.ArrayOfStringsInlineSummaryReader)
		s2, err := d2.Decode(bytes.NewReader(b))
		t.NoErr(err, "decode-inline")
		m, m2 := map[uint64]string{}, map[uint64]string{}
		for h, x := range s.All() {
			var w bytes.Buffer
			t.NoErr(tuple.ArrayOfStringsSummaryWriter(&w, x), "write")
			m[h] = w.String()
		}
		for h, x := range s2.All() {
			var w bytes.Buffer
			t.NoErr(tuple.ArrayOfStringsInlineSummaryWriter(&w, x), "write")
			m2[h] = w.String()
		}
		t.Check(maps.Equal(m, m2), "decode-inline", "inline summaries differ")
		return m, s.Theta64(), s.IsEmpty(), s.IsOrdered(), enc(s)
	})
	if c, err := u.Compact(true); im.Ordered || len(in) <= 1 {
		t.NoErr(err, "rebuild")
		x1same(t, enc(c), f.bytes, x1mask(f, 5), "rebuild", "rebuilt and encoded")
	}
}

// ---- hll, cpc, bloom

func x1Hll(t *T, f *x1fix) {
	im, err := ref.ParseHll(f.bytes)
	t.NoErr(err, "layout")
	coupons := map[uint32]struct{}{}
	for i := range f.n {
		coupons[ref.HllCoupon(ref.U64Bytes(uint64(i)))] = struct{}{}
	}
	match := func(im ref.HllImage, key string) {
		if im.Mode < 2 {
			got := map[uint32]struct{}{}
			for _, c := range im.Coupons {
				got[c] = struct{}{}
			}
			t.Check(maps.Equal(got, coupons) && len(im.Coupons) == len(got), key, "%d coupons, expected %d", len(im.Coupons), len(coupons))
			return
		}
		t.Check(bytes.Equal(im.Buckets, ref.HllBuckets(coupons, im.LgK)), key, "buckets differ from the stream's")
	}
	match(im, "harness")
	t.Check(im.Empty == (f.n == 0), "harness", "empty flag %v", im.Empty)
	mask := map[int]byte{}
	if f.cpp && f.name[3] != '4' && im.Mode == 2 {
		mask[5] = 8
	}
	u, err := hll.NewHllSketch(im.LgK, hll.TgtHllType(im.Tgt))
	t.NoErr(err, "harness-new")
	for i := range f.n {
		_ = u.UpdateInt64(int64(i))
	}
	b, err := u.ToCompactSlice()
	t.NoErr(err, "encode")
	x1same(t, b, f.bytes, mask, "rebuild", "rebuilt and encoded")
	s, err := hll.NewHllSketchFromSlice(f.bytes, true)
	t.NoErr(err, "decode")
	t.Check(s.GetLgConfigK() == im.LgK && s.GetTgtHllType() == hll.TgtHllType(im.Tgt) && s.IsEmpty() == im.Empty, "decode", "lgK %d type %v empty %v", s.GetLgConfigK(), s.GetTgtHllType(), s.IsEmpty())
	e1, _ := s.GetEstimate()
	e2, _ := u.GetEstimate()
	t.Check(e1 == e2, "estimate", "estimate %v, rebuilt %v", e1, e2)
	b, err = s.ToCompactSlice()
	t.NoErr(err, "encode")
	i2, err := ref.ParseHll(b)
	t.NoErr(err, "written")
	match(i2, "written")
	if im.Mode != 1 { // set: the order of a hash table
		x1same(t, b, f.bytes, mask, "bytes", "encoded again")
	}
	b, err = s.ToUpdatableSlice()
	t.NoErr(err, "encode")
	i2, err = ref.ParseHll(b)
	t.NoErr(err, "written-updatable")
	match(i2, "written-updatable")
}

func x1Cpc(t *T, f *x1fix) {
	lgK := 11
	m := make([]uint64, 1<<lgK)
	s, err := cpc.NewCpcSketchFromSlice(f.bytes, 9001)
	t.NoErr(err, "decode")
	u, err := cpc.NewCpcSketch(lgK, 9001)
	t.NoErr(err, "harness-new")
	feed := func(v int64) {
		r, c := ref.CpcCell(ref.U64Bytes(uint64(v)), 9001, lgK)
		m[r] |= 1 << c
		_ = u.UpdateInt64(v)
	}
	if strings.Contains(f.name, "negative") {
		feed(-1)
	}
	if f.n > 20_000_000 && !t.Thorough() || f.n > 200_000_000 {
		t.Check(s.GetEstimate() > 0, "decode", "no estimate")
	} else {
		for i := range f.n {
			if f.cpp {
				i++ // the C++ images start at 1
			}
			feed(int64(i))
		}
		cpcSame(t, cpcMatrix(t, s, 9001), m, "decode")
		x1cpcSheet(t, f.bytes, m, 9001, "reference") // the independent decoder against the other libraries
		t.Check(s.GetEstimate() == u.GetEstimate(), "estimate", "estimate %v, rebuilt %v", s.GetEstimate(), u.GetEstimate())
		x1same(t, cpcBytes(t, u, "encode"), f.bytes, nil, "rebuild", "rebuilt and encoded")
	}
	x1same(t, cpcBytes(t, s, "encode"), f.bytes, nil, "bytes", "encoded again")
}

func x1Bloom(t *T, f *x1fix) {
	le := binary.LittleEndian
	dirty := len(f.bytes) >= 32 && le.Uint64(f.bytes[24:]) == math.MaxUint64
	im := blParse(t, f.bytes)
	s, err := bf.NewBloomFilterFromSlice(f.bytes)
	t.NoErr(err, "decode")
	mask := map[int]byte{}
	if dirty {
		for i := 24; i < 32; i++ {
			mask[i] = 0xff
		}
	}
	t.Check(s.BitsUsed() == im.ones() && s.IsEmpty() == (im.ones() == 0) && s.NumHashes() == im.k && s.Seed() == im.seed && s.Capacity() == 64*uint64(len(im.words)), "decode", "decoded as k=%d seed=%d bits %d of %d", s.NumHashes(), s.Seed(), s.BitsUsed(), s.Capacity())
	x1same(t, blImage(t, s), f.bytes, mask, "bytes", "encoded again")
	u, err := bf.NewBloomFilterBySize(uint64(max(f.n, 1000)), im.k, bf.WithSeed(im.seed))
	t.NoErr(err, "harness-new")
	bits := make([]uint64, len(im.words))
	set := func(b []byte) {
		h0 := ref.XXHash64(b, im.seed)
		h1 := ref.XXHash64(b, h0)
		for i := uint64(1); i <= uint64(im.k); i++ {
			j := ((h0 + i*h1) >> 1) % uint64(64*len(bits))
			bits[j>>6] |= 1 << (j & 63)
		}
	}
	for i := range f.n / 10 {
		t.NoErr(u.UpdateInt64(int64(i)), "update")
		set(ref.U64Bytes(uint64(i)))
	}
	if f.n > 0 {
		t.NoErr(u.UpdateFloat64(math.NaN()), "update")
		set(ref.U64Bytes(ref.CanonDouble(math.NaN())))
	}
	t.Check(slices.Equal(bits, im.words), "harness", "the reference image does not hold the stream")
	x1same(t, blImage(t, u), f.bytes, mask, "rebuild", "rebuilt and encoded")
	for i := range f.n / 10 {
		if !s.QueryInt64(int64(i)) {
			t.Check(false, "query", "item %d not found", i)
		}
	}
}

// ---- frequencies

func x1freq(t *T, f *x1fix, it ref.ItemReader, want map[string]int64, decode func(b []byte) (row func(key string) (est, lb, ub int64), weight int64, active int, again []byte)) {
	im, err := ref.ParseFreq(f.bytes, it)
	t.NoErr(err, "layout")
	total := int64(0)
	for _, w := range want {
		total += w
	}
	t.Check(im.Weight == total && im.Empty == (total == 0), "harness", "the reference image has weight %d, expected %d", im.Weight, total)
	for k, c := range im.Counts {
		if c < 1 || c > want[k] || c+im.Offset < want[k] {
			t.Check(false, "harness", "the reference image counts %q %d (offset %d), expected %d", k, c, im.Offset, want[k])
		}
	}
	row, weight, active, again := decode(f.bytes)
	t.Check(weight == total && active == len(im.Counts), "decode", "weight %d with %d items, image has %d with %d", weight, active, total, len(im.Counts))
	for k := range want {
		est, lb, ub := row(k)
		c, in := im.Counts[k]
		if lb != c || ub != c+im.Offset || est > ub || in && est != ub {
			t.Check(false, "decode", "item %q: estimate %d bounds %d..%d, image has %d offset %d", k, est, lb, ub, c, im.Offset)
		}
	}
	i2, err := ref.ParseFreq(again, it)
	t.NoErr(err, "written")
	t.Check(maps.Equal(i2.Counts, im.Counts) && i2.Weight == im.Weight && i2.Offset == im.Offset && i2.LgMax == im.LgMax && i2.LgCur == im.LgCur && i2.Empty == im.Empty, "written", "image written differs: weight %d offset %d maps %d/%d", i2.Weight, i2.Offset, i2.LgCur, i2.LgMax)
	t.Check(len(again) == len(f.bytes), "written", "%d bytes, the reference has %d", len(again), len(f.bytes))
}

func x1FreqLong(t *T, f *x1fix) {
	want := map[string]int64{}
	for i := 1; i <= f.n; i++ {
		want[string(ref.U64Bytes(uint64(i)))] = 1
	}
	x1freq(t, f, ref.Fixed(8), want, func(b []byte) (func(string) (int64, int64, int64), int64, int, []byte) {
		s, err := fq.NewLongsSketchFromSlice(b)
		t.NoErr(err, "decode")
		// the items sketch of longs shares the format
		return func(k string) (int64, int64, int64) {
			x := int64(binary.LittleEndian.Uint64([]byte(k)))
			e, e1 := s.GetEstimate(x)
			l, e2 := s.GetLowerBound(x)
			u, e3 := s.GetUpperBound(x)
			t.Check(e1 == nil && e2 == nil && e3 == nil, "decode", "query refused: %v %v %v", e1, e2, e3)
			return e, l, u
		}, s.GetStreamLength(), s.GetNumActiveItems(), s.ToSlice()
	})
}

func x1FreqString(t *T, f *x1fix) {
	lp := func(s string) string { return string(binary.LittleEndian.AppendUint32(nil, uint32(len(s)))) + s }
	want := map[string]int64{}
	switch {
	case strings.Contains(f.name, "utf8"):
		for i, s := range []string{"абвгд", "еёжзи", "йклмн", "опрст", "уфхцч", "шщъыь", "эюя"} {
			want[lp(s)] = int64(i + 1)
		}
	case strings.Contains(f.name, "ascii"):
		for i, s := range []string{"a", "b", "c", "d"} {
			want[lp(strings.Repeat(s, 29))] = int64(i + 1)
		}
	default:
		for i := 1; i <= f.n; i++ {
			want[lp(strconv.Itoa(i))] = 1
		}
	}
	x1freq(t, f, ref.LenString, want, func(b []byte) (func(string) (int64, int64, int64), int64, int, []byte) {
		s, err := fq.NewFrequencyItemsSketchFromSlice[string](b, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
		t.NoErr(err, "decode")
		again, err := s.ToSlice()
		t.NoErr(err, "encode")
		return func(k string) (int64, int64, int64) {
			x := k[4:]
			e, e1 := s.GetEstimate(x)
			l, e2 := s.GetLowerBound(x)
			u, e3 := s.GetUpperBound(x)
			t.Check(e1 == nil && e2 == nil && e3 == nil, "decode", "query refused: %v %v %v", e1, e2, e3)
			return e, l, u
		}, s.GetStreamLength(), s.GetNumActiveItems(), again
	})
}

// ---- kll

func x1reader[C any](serde common.ItemSketchSerde[C]) ref.ItemReader {
	var z C
	switch any(z).(type) {
	case float32:
		return ref.Fixed(4)
	case string:
		return ref.LenString
	}
	return ref.Fixed(8)
}

// x1raw is the published encoding of an item.
func x1raw(x any) string {
	le := binary.LittleEndian
	switch v := x.(type) {
	case int64:
		return string(ref.U64Bytes(uint64(v)))
	case float64:
		return string(ref.U64Bytes(math.Float64bits(v)))
	case float32:
		return string(le.AppendUint32(nil, math.Float32bits(v)))
	case string:
		return string(le.AppendUint32(nil, uint32(len(v)))) + v
	}
	panic("item type")
}

// x1kllMatch compares a decoded or live sketch with a parsed image of it.
func x1kllMatch[C comparable](t *T, s *kll.ItemsSketch[C], im ref.KllImage, key string) {
	t.Check(s.GetK() == im.K && s.GetN() == im.N && s.IsEmpty() == (im.N == 0), key, "k %d n %d, image has %d %d", s.GetK(), s.GetN(), im.K, im.N)
	var want, got []string
	for l, its := range im.Levels {
		for _, x := range its {
			want = append(want, fmt.Sprintf("%d %s", 1<<l, x))
		}
	}
	for it := s.GetIterator(); it.Next(); {
		got = append(got, fmt.Sprintf("%d %s", it.GetWeight(), x1raw(it.GetQuantile())))
	}
	slices.Sort(want)
	slices.Sort(got)
	t.Check(slices.Equal(got, want), key, "%d weighted items, the image has %d others", len(got), len(want))
	if im.N > 0 {
		mn, e1 := s.GetMinItem()
		mx, e2 := s.GetMaxItem()
		t.Check(e1 == nil && e2 == nil && x1raw(mn) == im.Min && x1raw(mx) == im.Max, key, "min %v max %v, image has %q %q", mn, mx, im.Min, im.Max)
	}
}

func x1kllShape(t *T, im ref.KllImage, key string) {
	sum := uint64(0)
	for l, x := range im.Levels {
		sum += uint64(len(x)) << l
	}
	t.Check(sum == im.N, key, "weights in the image sum to %d, N is %d", sum, im.N)
}

func x1KllOf[C comparable](less common.CompareFn[C], serde common.ItemSketchSerde[C], item func(i int) C) func(t *T, f *x1fix) {
	return func(t *T, f *x1fix) {
		im, err := ref.ParseKll(f.bytes, x1reader(serde))
		t.NoErr(err, "layout")
		in := map[string]bool{}
		digits := len(strconv.Itoa(f.n))
		pad := func(i int) string { return x1raw(item(i)) }
		if _, ok := any(item(1)).(string); ok && !f.cpp {
			pad = func(i int) string { s := strconv.Itoa(i); return x1raw(strings.Repeat(" ", digits-len(s)) + s) }
		}
		for i := 1; i <= f.n; i++ {
			in[pad(i)] = true
		}
		t.Check(im.N == uint64(f.n) && im.K == 200 && im.M == 8, "harness", "reference n %d k %d m %d", im.N, im.K, im.M)
		x1kllShape(t, im, "harness")
		if f.n > 0 {
			t.Check(im.Min == pad(1) && im.Max == pad(f.n), "harness", "reference min %q max %q", im.Min, im.Max)
		}
		for _, l := range im.Levels {
			for _, x := range l {
				if !in[x] {
					t.Check(false, "harness", "reference item %q", x)
				}
			}
		}
		s, err := kll.NewKllItemsSketchFromSlice[C](f.bytes, less, serde)
		t.NoErr(err, "decode")
		x1kllMatch(t, s, im, "decode")
		b, err := s.ToSlice()
		t.NoErr(err, "encode")
		x1same(t, b, f.bytes, nil, "bytes", "encoded again")
	}
}

// ---- sampling

func x1Res[I comparable](serde common.ItemSketchSerde[I], item func(i int) I) func(t *T, f *x1fix) {
	return func(t *T, f *x1fix) {
		im, err := ref.ParseReservoir(f.bytes, x1reader(serde))
		t.NoErr(err, "layout")
		x1resItems(t, f, im, item)
		s, err := sp.NewReservoirItemsSketchFromSlice[I](f.bytes, serde)
		t.NoErr(err, "decode")
		x1resMatch(t, s, im, "decode")
		b, err := s.ToSlice(serde)
		t.NoErr(err, "encode")
		x1same(t, b, f.bytes, nil, "bytes", "encoded again")
	}
}

func x1resItems[I comparable](t *T, f *x1fix, im ref.ReservoirImage, item func(i int) I) {
	t.Check(im.N == int64(f.n), "harness", "reference n %d", im.N)
	in := map[string]bool{}
	for i := range f.n {
		in[x1raw(item(i))] = true
	}
	for i, x := range im.Items {
		t.Check(in[x] && (f.n > im.K || x == x1raw(item(i))), "harness", "reference item %q", x)
	}
}

func x1resMatch[I comparable](t *T, s *sp.ReservoirItemsSketch[I], im ref.ReservoirImage, key string) {
	t.Check(s.K() == im.K && s.N() == im.N && s.NumSamples() == len(im.Items), key, "k %d n %d with %d samples, image has %d %d %d", s.K(), s.N(), s.NumSamples(), im.K, im.N, len(im.Items))
	for i, x := range s.Samples() {
		if x1raw(x) != im.Items[i] {
			t.Check(false, key, "sample %d is %v, image has %q", i, x, im.Items[i])
		}
	}
}

func x1ResUnion[I comparable](serde common.ItemSketchSerde[I], item func(i int) I) func(t *T, f *x1fix) {
	return func(t *T, f *x1fix) {
		un, err := ref.ParseReservoirUnion(f.bytes)
		t.NoErr(err, "layout")
		u, err := sp.NewReservoirItemsUnionFromSlice[I](f.bytes, serde)
		t.NoErr(err, "decode")
		if un.Empty {
			t.Check(f.n == 0, "harness", "empty reference for n %d", f.n)
			r, err := u.Result()
			t.Check(err == nil && r == nil, "decode", "empty union gave %v %v", r, err)
		} else {
			im, err := ref.ParseReservoir(un.Inner, x1reader(serde))
			t.NoErr(err, "layout")
			x1resItems(t, f, im, item)
			r, err := u.Result()
			t.NoErr(err, "result")
			x1resMatch(t, r, im, "decode")
		}
		b, err := u.ToSlice(serde)
		t.NoErr(err, "encode")
		x1same(t, b, f.bytes, nil, "bytes", "encoded again")
	}
}

func x1Varopt[I comparable](kd *spKind[I]) func(t *T, f *x1fix) {
	return func(t *T, f *x1fix) {
		d, err := sp.DecodeVarOptItemsSketch[I](f.bytes, kd.serde)
		t.NoErr(err, "decode")
		x1vo(t, f, d, kd)
		x1same(t, vwImage(t, d, kd.serde), f.bytes, nil, "bytes", "encoded again")
		voParse(t, f.bytes, d, kd, false)
	}
}

// x1vo checks the samples of a variance-optimal reference image.
func x1vo[I comparable](t *T, f *x1fix, s *sp.VarOptItemsSketch[I], kd *spKind[I]) {
	n, total := int64(f.n), float64(f.n)
	heavy := map[string]float64{}
	light := map[string]bool{}
	switch {
	case strings.Contains(f.name, "string_exact"):
		n, total = 200, 0
		for i := 1; i <= 200; i++ {
			heavy[x1raw(strconv.Itoa(i))] = 1000 / float64(i)
			total += 1000 / float64(i)
		}
	case strings.Contains(f.name, "long_sampling"):
		n, total = 2003, 2000+330000
		for i := range 2000 {
			light[x1raw(int64(i))] = true
		}
		heavy[x1raw(int64(-1))], heavy[x1raw(int64(-2))], heavy[x1raw(int64(-3))] = 100000, 110000, 120000
	default:
		for i := 1; i <= f.n; i++ {
			if f.n > s.K() {
				light[x1raw(int64(i))] = true
			} else {
				heavy[x1raw(int64(i))] = 1
			}
		}
	}
	t.Check(s.N() == n, "decode", "N %d, stream had %d", s.N(), n)
	sum, seen := 0.0, map[string]bool{}
	for _, x := range voAll(s) {
		k := x1raw(x.item)
		sum += x.w
		w, h := heavy[k]
		t.Check(!seen[k] && (h && w == x.w || !h && light[k]), "decode", "sample %v of weight %v", x.item, x.w)
		seen[k] = true
	}
	for k := range heavy {
		t.Check(seen[k], "decode", "heavy item %q lost", k)
	}
	t.Check(spClose(sum, total, 1e-12), "decode", "weights sum to %v, stream had %v", sum, total)
}

func x1VaroptUnion(t *T, f *x1fix) {
	u, err := sp.DecodeVarOptItemsUnion[float64](f.bytes, spDouble.serde)
	t.NoErr(err, "decode")
	x1same(t, vuImage(t, u, spDouble.serde), f.bytes, nil, "bytes", "encoded again")
	r, err := u.Result()
	t.NoErr(err, "result")
	voParse(t, vwImage(t, r, spDouble.serde), r, &spDouble, false)
	// as its generators build it: an over-full sketch of k 99 and one of heavy items
	t.Check(r.N() > 0 && r.NumSamples() <= r.K(), "result", "n %d with %d samples of %d", r.N(), r.NumSamples(), r.K())
}

// ---- t-digest

func x1TDigest(t *T, f *x1fix) {
	im := tdParse(t, f.bytes)
	s, err := tdigest.DecodeDouble(f.bytes)
	t.NoErr(err, "decode")
	total := uint64(len(im.buffer))
	for _, w := range im.weights {
		total += w
	}
	t.Check(total == uint64(f.n), "harness", "reference weight %d", total)
	t.Check(s.TotalWeight() == total && s.K() == im.k && s.IsEmpty() == (f.n == 0), "decode", "weight %d k %d", s.TotalWeight(), s.K())
	if f.n > 0 {
		mn, e1 := s.MinValue()
		mx, e2 := s.MaxValue()
		t.Check(e1 == nil && e2 == nil && mn == 1 && mx == float64(f.n) && im.min == 1 && im.max == mx, "decode", "min %v max %v", mn, mx)
	}
	b, err := tdigest.EncodeDouble(s, strings.Contains(f.name, "_buf_"))
	t.NoErr(err, "encode")
	x1same(t, b, f.bytes, nil, "bytes", "encoded again")
}
