package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"

	bf "github.com/apache/datasketches-go/filters"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("B01", "every item ever inserted (in any form, into any input of a union, before serialization) queried in every equal form; test-and-update compared with the query just before",
		core.Family{Name: "members", Quick: 40000, Thorough: 600000, Run: b01Members},
		core.Family{Name: "numeric-forms", Quick: 20000, Thorough: 300000, Run: b01Forms},
		core.Family{Name: "many-hashes", Quick: 400, Thorough: 8000, Run: b01Many})
	core.Register("B02", "bit arrays read from images by an independent parser: union, intersection and inversion compared bit by bit, bits used against the number of set bits, refusals and arguments unchanged",
		core.Family{Name: "algebra", Quick: 40000, Thorough: 600000, Run: b02Algebra})
	core.Register("B03", "images read by an independent parser and by the library and evolved; false positives counted against the target",
		core.Family{Name: "roundtrip", Quick: 30000, Thorough: 400000, Run: b03Round},
		core.Family{Name: "fpp", Quick: 300, Thorough: 6000, Run: b03Fpp})
	core.Assume("B03", "items are chosen independently of the hash seed")
}

// blItem is one item with the forms it can be fed and queried in.
type blItem struct {
	kind int // 0 uint64, 1 float64, 2 string, 3 bytes, 4 []int64, 5 []float64
	u    uint64
	b    []byte
	l    []int64
	d    []float64
}

func blMake(t *T) blItem {
	it := blItem{kind: t.IntN(6)}
	switch it.kind {
	case 0:
		it.u = t.Uint64() >> t.IntN(64)
		if t.IntN(3) == 0 {
			it.u = -it.u
		}
	case 1:
		switch t.IntN(8) {
		case 0:
			it.u = []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 1<<63 | 1}[t.IntN(6)]
		case 1:
			it.u = 0x7ff0000000000000 | 1 + t.Uint64()>>13 | t.Uint64()<<63
		case 2:
			it.u = math.Float64bits(float64(t.IntN(100)))
		default:
			it.u = t.Uint64()
		}
	case 2, 3:
		it.b = make([]byte, 1+t.IntN([]int{4, 40, 200}[t.IntN(3)]))
		for i := range it.b {
			it.b[i] = byte(t.Uint32())
		}
		if it.kind == 3 && t.IntN(20) == 0 {
			it.b = []byte{}
		}
	case 4:
		it.l = make([]int64, 1+t.IntN(6))
		for i := range it.l {
			it.l[i] = int64(t.Uint64() >> t.IntN(64))
		}
	case 5:
		it.d = make([]float64, 1+t.IntN(6))
		for i := range it.d {
			it.d[i] = t.NormFloat64()
			if t.IntN(5) == 0 { // arrays hold bit patterns
				it.d[i] = []float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), math.Float64frombits(0xfff8000000000001 + uint64(t.IntN(9))), 5e-324}[t.IntN(6)]
			}
		}
	}
	return it
}

// form returns an equal item, possibly in another representation.
func (it blItem) form(t *T) (kind int, o blItem) {
	o = it
	switch it.kind {
	case 0:
		return t.IntN(2) * 10, o // 0 uint64, 10 int64
	case 1:
		f := math.Float64frombits(it.u)
		if f == 0 {
			o.u = uint64(t.IntN(2)) << 63
		}
		if math.IsNaN(f) {
			o.u = 0x7ff0000000000000 | 1 + t.Uint64()>>13 | t.Uint64()<<63
		}
		return 1, o
	case 2, 3:
		if len(it.b) == 0 {
			return 3, o
		}
		return 2 + t.IntN(2), o
	}
	return it.kind, o
}

func (it blItem) update(t *T, f bf.BloomFilter) {
	kind, o := it.form(t)
	var err error
	switch kind {
	case 0:
		err = f.UpdateUInt64(o.u)
	case 10:
		err = f.UpdateInt64(int64(o.u))
	case 1:
		err = f.UpdateFloat64(math.Float64frombits(o.u))
	case 2:
		err = f.UpdateString(string(o.b))
	case 3:
		err = f.UpdateSlice(o.b)
	case 4:
		err = f.UpdateInt64Array(o.l)
	case 5:
		err = f.UpdateFloat64Array(o.d)
	}
	t.NoErr(err, "update")
	t.Ev("updates")
}

func (it blItem) query(t *T, f bf.BloomFilter) bool {
	kind, o := it.form(t)
	t.Ev("queries")
	switch kind {
	case 0:
		return f.QueryUInt64(o.u)
	case 10:
		return f.QueryInt64(int64(o.u))
	case 1:
		return f.QueryFloat64(math.Float64frombits(o.u))
	case 2:
		return f.QueryString(string(o.b))
	case 3:
		return f.QuerySlice(o.b)
	case 4:
		return f.QueryInt64Array(o.l)
	}
	return f.QueryFloat64Array(o.d)
}

func (it blItem) testAndUpdate(t *T, f bf.BloomFilter) bool {
	kind, o := it.form(t)
	t.Ev("test-and-updates")
	switch kind {
	case 0:
		return f.QueryAndUpdateUInt64(o.u)
	case 10:
		return f.QueryAndUpdateInt64(int64(o.u))
	case 1:
		return f.QueryAndUpdateFloat64(math.Float64frombits(o.u))
	case 2:
		return f.QueryAndUpdateString(string(o.b))
	case 3:
		return f.QueryAndUpdateSlice(o.b)
	case 4:
		return f.QueryAndUpdateInt64Array(o.l)
	}
	return f.QueryAndUpdateFloat64Array(o.d)
}

func (it blItem) String() string {
	return fmt.Sprintf("kind %d %x %x %v %v", it.kind, it.u, it.b, it.l, it.d)
}

func blSeed(t *T) uint64 {
	if t.IntN(3) == 0 {
		return 9001
	}
	return t.Uint64() >> t.IntN(64)
}

func blNew(t *T) (f bf.BloomFilter, nbits uint64, k uint16, seed uint64) {
	nbits = uint64(1 + t.IntN(4000))
	switch t.IntN(6) {
	case 0:
		nbits = uint64(1 + t.IntN(130))
	case 1:
		nbits = 64 * uint64(1+t.IntN(20))
	}
	k = uint16(1 + t.IntN(12))
	if t.IntN(15) == 0 {
		k = uint16(1 + t.IntN(300))
	}
	seed = blSeed(t)
	f = blNewOf(t, nbits, k, seed)
	return
}

func blNewOf(t *T, nbits uint64, k uint16, seed uint64) bf.BloomFilter {
	f, err := bf.NewBloomFilterBySize(nbits, k, bf.WithSeed(seed))
	t.NoErr(err, "new")
	t.Check(f.Capacity() == (nbits+63)/64*64 && f.NumHashes() == k && f.Seed() == seed, "shape", "capacity %d hashes %d seed %d for %d %d %d", f.Capacity(), f.NumHashes(), f.Seed(), nbits, k, seed)
	t.Check(f.IsEmpty() && f.BitsUsed() == 0, "new-empty", "a new filter is not empty")
	return f
}

func blImage(t *T, f bf.BloomFilter) []byte {
	b, err := f.ToCompactSlice()
	t.NoErr(err, "serialize")
	return b
}

type blParsed struct {
	k     uint16
	seed  uint64
	words []uint64
	empty bool
}

func (p *blParsed) ones() (n uint64) {
	for _, w := range p.words {
		n += uint64(bits.OnesCount64(w))
	}
	return
}

// blParse reads an image per the published layout.
func blParse(t *T, b []byte) *blParsed {
	le := binary.LittleEndian
	t.Check(len(b) >= 24, "image", "image of %d bytes", len(b))
	t.Check(b[1] == 1 && b[2] == 21, "image", "header % x", b[:24])
	p := &blParsed{k: le.Uint16(b[4:]), seed: le.Uint64(b[8:]), empty: b[3]&4 != 0}
	n := int(le.Uint32(b[16:]))
	p.words = make([]uint64, n)
	t.Check(b[3]&^4 == 0 && b[6] == 0 && b[7] == 0 && le.Uint32(b[20:]) == 0, "image", "unused bytes % x", b[:24])
	if p.empty {
		t.Check(b[0] == 3 && len(b) == 24, "image", "empty image: preamble %d, %d bytes", b[0], len(b))
		return p
	}
	t.Check(b[0] == 4 && len(b) == 32+8*n, "image", "image: preamble %d, %d bytes for %d longs", b[0], len(b), n)
	for i := range p.words {
		p.words[i] = le.Uint64(b[32+8*i:])
	}
	used := le.Uint64(b[24:])
	t.Check(used == p.ones() || used == math.MaxUint64, "image-count", "image counts %d bits of %d set", used, p.ones())
	return p
}

// blState checks the bookkeeping of f and returns its bits. The image is made of
// a decoded copy only when copied is set, otherwise of f itself.
func blState(t *T, f bf.BloomFilter, key string) *blParsed {
	if t.IntN(2) == 0 {
		used, empty := f.BitsUsed(), f.IsEmpty()
		p := blParse(t, blImage(t, f))
		t.Check(used == p.ones(), key+"/bits-used", "bits used %d, %d bits set", used, p.ones())
		t.Check(empty == (used == 0), key+"/empty", "empty %v with %d bits", empty, used)
	}
	p := blParse(t, blImage(t, f))
	t.Check(f.BitsUsed() == p.ones(), key+"/bits-used", "bits used %d, %d bits set", f.BitsUsed(), p.ones())
	t.Check(f.IsEmpty() == (p.ones() == 0), key+"/empty", "empty %v with %d bits", f.IsEmpty(), p.ones())
	t.Check(p.empty == (p.ones() == 0), key+"/empty-flag", "empty flag %v with %d bits", p.empty, p.ones())
	t.Check(p.k == f.NumHashes() && p.seed == f.Seed() && uint64(len(p.words))*64 == f.Capacity(), key+"/image-shape", "image shape %d %d %d", p.k, p.seed, len(p.words))
	t.Ev("states")
	return p
}

func blAll(t *T, f bf.BloomFilter, items []blItem, key string) {
	for _, it := range items {
		t.Check(it.query(t, f), key, "inserted item reported absent: %v", it)
	}
}

func b01Members(t *T) {
	f, nbits, k, seed := blNew(t)
	t.Desc("bloom %d bits %d hashes seed %d", nbits, k, seed)
	t.Sig(nbits, k, seed)
	var in []blItem
	other := blNewOf(t, nbits, k, seed)
	var inOther []blItem
	steps := 5 + t.IntN(60)
	for range steps {
		switch x := t.IntN(24); {
		case x < 9:
			it := blMake(t)
			it.update(t, f)
			in = append(in, it)
			t.Check(it.query(t, f), "just-inserted", "just inserted item reported absent: %v", it)
		case x < 15:
			it := blMake(t)
			if len(in) > 0 && t.IntN(3) == 0 {
				it = in[t.IntN(len(in))]
			}
			if t.IntN(2) == 0 {
				f.BitsUsed()
			}
			want := it.query(t, f)
			got := it.testAndUpdate(t, f)
			t.Check(want == got, "test-and-update", "test-and-update said %v after a query said %v: %v", got, want, it)
			t.Check(it.query(t, f), "test-and-update-lost", "item absent after test-and-update: %v", it)
			t.Check(it.testAndUpdate(t, f), "test-and-update-twice", "second test-and-update said absent: %v", it)
			in = append(in, it)
			if got {
				t.Ev("seen before")
			} else {
				t.NonTrivial()
			}
		case x < 18:
			it := blMake(t)
			it.update(t, other)
			inOther = append(inOther, it)
		case x < 20:
			if t.IntN(3) == 0 {
				other.BitsUsed()
			}
			t.NoErr(f.Union(other), "union")
			in = append(in, inOther...)
			t.Ev("unions")
			blAll(t, f, inOther, "union-lost")
			blAll(t, other, inOther, "union-input")
		case x < 22:
			d, err := bf.NewBloomFilterFromSlice(blImage(t, f))
			t.NoErr(err, "decode")
			f = d
			t.Ev("decodes")
		case x < 23 && t.IntN(3) == 0:
			t.NoErr(f.Reset(), "reset")
			t.Check(f.IsEmpty() && f.BitsUsed() == 0, "reset-empty", "not empty after reset")
			for _, it := range in {
				t.Check(!it.query(t, f), "reset-present", "item present after reset: %v", it)
			}
			blAll(t, other, inOther, "reset-other")
			in = nil
			t.Ev("resets")
		default:
			t.Check(!f.QueryString("") && !f.QueryAndUpdateString(""), "empty-string", "the empty string is present")
			before := f.BitsUsed()
			t.NoErr(f.UpdateString(""), "update")
			t.NoErr(f.UpdateInt64Array(nil), "update")
			t.NoErr(f.UpdateFloat64Array([]float64{}), "update")
			t.Check(f.BitsUsed() == before && !f.QueryString("") && !f.QueryInt64Array(nil) && !f.QueryFloat64Array(nil), "empty-ignored", "an ignored empty item changed the filter")
		}
		if len(in) > 0 {
			it := in[t.IntN(len(in))]
			t.Check(it.query(t, f), "lost", "inserted item reported absent: %v", it)
		}
	}
	blAll(t, f, in, "lost")
	blAll(t, other, inOther, "lost-other")
}

// b01Forms checks equal values in other forms, one item per fresh filter, where a
// false positive cannot stand in for the answer.
func b01Forms(t *T) {
	seed := blSeed(t)
	t.Sig(seed)
	f := blNewOf(t, 1<<16, 7, seed)
	it := blMake(t)
	t.Desc("forms of %v", it)
	if t.IntN(2) == 0 {
		it.update(t, f)
	} else {
		t.Check(!it.testAndUpdate(t, f), "fresh", "an empty filter contains %v", it)
	}
	used := f.BitsUsed()
	t.Check(used >= 1 && used <= 7, "bits", "%d bits for one item", used)
	for range 8 {
		t.Check(it.query(t, f), "form", "equal form absent: %v", it)
		t.Check(it.testAndUpdate(t, f), "form-test", "equal form absent: %v", it)
		it.update(t, f)
		t.Check(f.BitsUsed() == used, "form-bits", "an equal form set further bits: %v", it)
	}
	// different items are different
	present := 0
	for range 20 {
		o := blMake(t)
		if o.kind == it.kind && o.u == it.u || o.kind == 1 && it.kind == 1 || len(o.b) > 0 && bytes.Equal(o.b, it.b) {
			continue
		}
		if o.kind+it.kind == 1 || len(o.b) == 0 && o.kind == 3 {
			continue
		}
		if slices.Equal(o.l, it.l) && o.kind == 4 || o.kind == 5 && slices.Equal(o.d, it.d) {
			continue
		}
		if o.query(t, f) {
			present++
		}
	}
	t.Check(present <= 3, "others", "%d of 20 other items present beside one item", present)
	t.NonTrivial()
}

func b01Many(t *T) {
	k := uint16(200 + t.IntN(65336))
	if t.IntN(3) == 0 {
		k = uint16(65535 - t.IntN(2)*t.IntN(3))
	}
	nbits := uint64(64 + t.IntN(1<<20))
	seed := blSeed(t)
	t.Desc("bloom %d bits %d hashes seed %d", nbits, k, seed)
	t.Sig(nbits, k, seed)
	f := blNewOf(t, nbits, k, seed)
	var in []blItem
	for range 1 + t.IntN(4) {
		it := blMake(t)
		want := it.query(t, f)
		t.Check(it.testAndUpdate(t, f) == want, "test-and-update", "test-and-update differs from the query before")
		in = append(in, it)
		it = blMake(t)
		it.update(t, f)
		in = append(in, it)
	}
	blAll(t, f, in, "lost")
	d, err := bf.NewBloomFilterFromSlice(blImage(t, f))
	t.NoErr(err, "decode")
	blAll(t, d, in, "lost-decoded")
	blState(t, d, "many")
	t.NonTrivial()
}

func blFill(t *T, f bf.BloomFilter) (in []blItem) {
	n := t.IntN(40)
	switch t.IntN(6) {
	case 0:
		n = 0
	case 1:
		n = t.IntN(600)
	}
	for range n {
		it := blMake(t)
		if t.IntN(2) == 0 {
			it.update(t, f)
		} else {
			it.testAndUpdate(t, f)
		}
		in = append(in, it)
	}
	return
}

func b02Algebra(t *T) {
	a, nbits, k, seed := blNew(t)
	t.Desc("bloom algebra over %d bits %d hashes seed %d", nbits, k, seed)
	t.Sig(nbits, k, seed)
	fs := []bf.BloomFilter{a, blNewOf(t, nbits, k, seed), blNewOf(t, nbits, k, seed)}
	model := make([][]uint64, 3)
	for i, f := range fs {
		blFill(t, f)
		model[i] = blState(t, f, "filled").words
	}
	same := func(key string) {
		for i, f := range fs {
			p := blState(t, f, key)
			t.Check(slices.Equal(p.words, model[i]), key, "bits of filter %d are not the expected ones", i)
		}
	}
	for range 4 + t.IntN(10) {
		i, j := t.IntN(3), t.IntN(3)
		if t.IntN(2) == 0 {
			fs[j].BitsUsed() // settle or leave the count unsettled
		}
		switch t.IntN(9) {
		case 0, 1:
			t.NoErr(fs[i].Union(fs[j]), "union")
			for x := range model[i] {
				model[i][x] |= model[j][x]
			}
			same("union")
			t.Ev("unions")
			t.NonTrivial()
		case 2, 3:
			t.NoErr(fs[i].Intersect(fs[j]), "intersect")
			for x := range model[i] {
				model[i][x] &= model[j][x]
			}
			same("intersect")
			t.Ev("intersections")
			t.NonTrivial()
		case 4:
			t.NoErr(fs[i].Invert(), "invert")
			for x := range model[i] {
				model[i][x] = ^model[i][x]
			}
			same("invert")
			t.Ev("inversions")
		case 5:
			it := blMake(t)
			it.update(t, fs[i])
			p := blState(t, fs[i], "update")
			for x := range model[i] {
				t.Check(p.words[x]&model[i][x] == model[i][x], "update-cleared", "an update cleared bits")
			}
			t.Check(p.ones() <= bitsOf(model[i])+uint64(k), "update-many", "an update set %d bits with %d hashes", p.ones()-bitsOf(model[i]), k)
			model[i] = p.words
			same("update")
		case 6:
			if t.IntN(3) == 0 {
				t.NoErr(fs[i].Reset(), "reset")
				clear(model[i])
				same("reset")
			}
		case 7:
			d, err := bf.NewBloomFilterFromSlice(blImage(t, fs[i]))
			t.NoErr(err, "decode")
			fs[i] = d
			same("decode")
		case 8:
			nb, kk, ss := f2shape(fs[i])
			switch t.IntN(3) {
			case 0:
				nb += 64 << t.IntN(12)
			case 1: // any other number of hashes, as close as one or differing in a single bit
				if d := uint16(1) << t.IntN(16); kk^d != 0 && kk^d < 65535 && (d < 4096 || t.IntN(20) == 0) {
					kk ^= d
				} else {
					kk++
				}
			case 2:
				ss ^= 1 << t.IntN(64)
			}
			o := blNewOf(t, nb, kk, ss)
			blFill(t, o)
			om := blState(t, o, "other").words
			t.Check(!fs[i].IsCompatible(o) && !o.IsCompatible(fs[i]), "compatible", "filters of different shape reported compatible")
			t.Check(fs[i].Union(o) != nil && fs[i].Intersect(o) != nil, "refused", "filters of different shape combined")
			t.Check(slices.Equal(blState(t, o, "other").words, om), "refused-other", "a refused operation changed its argument")
			t.Check(fs[0].IsCompatible(fs[1]) && fs[1].IsCompatible(fs[2]), "compatible", "equal filters not compatible")
			same("refused")
			t.Ev("refusals")
		}
	}
}

func f2shape(f bf.BloomFilter) (uint64, uint16, uint64) { return f.Capacity(), f.NumHashes(), f.Seed() }

func bitsOf(w []uint64) (n uint64) {
	for _, x := range w {
		n += uint64(bits.OnesCount64(x))
	}
	return
}

func b03Round(t *T) {
	f, nbits, k, seed := blNew(t)
	if t.IntN(10) == 0 {
		var err error
		n, p := uint64(1+t.IntN(2000)), math.Exp(-0.1-8*t.Float64())
		f, err = bf.NewBloomFilterByAccuracy(n, p, bf.WithSeed(seed))
		t.NoErr(err, "new")
		nbits, k = f.Capacity(), f.NumHashes()
	}
	t.Desc("bloom %d bits %d hashes seed %d", nbits, k, seed)
	t.Sig(nbits, k, seed)
	in := blFill(t, f)
	inverted := t.IntN(6) == 0
	if inverted {
		t.NoErr(f.Invert(), "invert")
	}
	if t.IntN(2) == 0 {
		f.BitsUsed()
	}
	img := blImage(t, f)
	p := blParse(t, img)
	buf := slices.Clone(img)
	if !p.empty && t.IntN(4) == 0 { // the count may be left out by other libraries
		for i := 24; i < 32; i++ {
			buf[i] = 0xff
		}
		t.Ev("images without count")
	}
	d, err := bf.NewBloomFilterFromSlice(buf)
	t.NoErr(err, "decode")
	for i := range buf {
		buf[i] = 0x55
	}
	t.Check(d.Capacity() == f.Capacity() && d.NumHashes() == f.NumHashes() && d.Seed() == f.Seed(), "shape", "decoded shape %d %d %d", d.Capacity(), d.NumHashes(), d.Seed())
	t.Check(d.BitsUsed() == f.BitsUsed() && d.BitsUsed() == p.ones() && d.IsEmpty() == f.IsEmpty(), "bits-used", "decoded bits %d, original %d, set %d", d.BitsUsed(), f.BitsUsed(), p.ones())
	t.Check(bytes.Equal(img, blImage(t, d)), "bytes", "re-encoding gives other bytes")
	if !inverted {
		blAll(t, d, in, "lost")
	}
	if len(in) > 0 {
		t.NonTrivial()
	}
	for range 60 {
		it := blMake(t)
		t.Check(it.query(t, d) == it.query(t, f), "answers", "decoded filter answers differently: %v", it)
	}
	for range t.IntN(20) {
		it := blMake(t)
		t.Check(it.testAndUpdate(t, d) == it.testAndUpdate(t, f), "continued", "decoded filter continues differently: %v", it)
	}
	t.Check(bytes.Equal(blImage(t, f), blImage(t, d)), "continued-bytes", "decoded filter continues to other bytes")
	blState(t, d, "continued")
	t.Check(d.IsCompatible(f), "compatible", "a decoded copy is not compatible with its original")
	t.NoErr(d.Union(f), "union")
	t.Check(bytes.Equal(blImage(t, f), blImage(t, d)), "self-union", "union with its copy changed a filter")
	n := t.IntN(len(img))
	_, err = bf.NewBloomFilterFromSlice(img[:n:n])
	t.Check(err != nil, "prefix", "%d of %d bytes accepted", n, len(img))
	t.Ev("round trips")
}

func b03Fpp(t *T) {
	n := uint64(50 + t.IntN(3000))
	target := []float64{0.5, 0.3, 0.1, 0.05, 0.01, 0.003, 0.001, 0.7}[t.IntN(8)]
	if t.IntN(2) == 0 {
		target = math.Exp(-0.3 - 6*t.Float64())
	}
	seed := blSeed(t)
	kind := t.IntN(4)
	t.Desc("bloom for %d items at %v, seed %d, kind %d", n, target, seed, kind)
	t.Sig(n, target, seed, kind)
	f, err := bf.NewBloomFilterByAccuracy(n, target, bf.WithSeed(seed))
	t.NoErr(err, "new")
	t.Check(f.Capacity()%64 == 0 && f.NumHashes() >= 1, "shape", "capacity %d, %d hashes", f.Capacity(), f.NumHashes())
	base := t.Uint64()
	mk := func(i uint64) blItem {
		u := base + i
		switch kind {
		case 0:
			return blItem{kind: 0, u: u}
		case 1:
			return blItem{kind: 1, u: math.Float64bits(float64(i) + 0.25)}
		case 2:
			return blItem{kind: 2, b: []byte(fmt.Sprintf("key%d", i))}
		}
		return blItem{kind: 4, l: []int64{int64(u), 3, -int64(i)}}
	}
	for i := range n {
		mk(i).update(t, f)
	}
	for i := range n {
		t.Check(mk(i).query(t, f), "lost", "inserted item reported absent")
	}
	asks := 40000
	fp := 0
	for i := range asks {
		if mk(n+uint64(i)).query(t, f) {
			fp++
		}
	}
	t.EvN("false positives", fp)
	t.EvN("probes", asks)
	if fp > 0 {
		t.NonTrivial()
	}
	// the fill of one filter varies around its mean; integer rounding of the
	// number of hashes costs up to a tenth
	limit := min(1, target*1.2+6*target/math.Sqrt(float64(n))+2e-5)
	t.Logf("n=%d target=%v fp=%v ratio=%v", n, target, float64(fp)/float64(asks), float64(fp)/float64(asks)/target)
	t.Check(ref.BinomUpperTail(asks, fp, limit) > 1e-10, "fpp", "false positive rate %v with target %v", float64(fp)/float64(asks), target)
	// the advertised sizes
	nb := bf.SuggestNumFilterBits(n, target)
	t.Check(f.Capacity() >= nb && f.Capacity() < nb+64, "suggested-bits", "capacity %d, suggested %d", f.Capacity(), nb)
	t.Check(f.NumHashes() == bf.SuggestNumHashesFromSize(n, nb), "suggested-hashes", "%d hashes, suggested %d", f.NumHashes(), bf.SuggestNumHashesFromSize(n, nb))
	for _, bad := range []float64{0, 1, -target, 1 + target} {
		_, err := bf.NewBloomFilterByAccuracy(n, bad)
		t.Check(err != nil, "bad-target", "target %v accepted", bad)
	}
	_, err = bf.NewBloomFilterByAccuracy(0, target)
	t.Check(err != nil, "bad-items", "zero items accepted")
	_, err = bf.NewBloomFilterBySize(0, 3)
	t.Check(err != nil, "bad-bits", "zero bits accepted")
	_, err = bf.NewBloomFilterBySize(64, 0)
	t.Check(err != nil, "bad-hashes", "zero hashes accepted")
	_, err = bf.NewBloomFilterBySize(1<<62, 3)
	t.Check(err != nil, "too-big", "2^62 bits accepted")
}
