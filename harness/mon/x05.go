package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"slices"

	"github.com/apache/datasketches-go/common"
	cm "github.com/apache/datasketches-go/count"
	bf "github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("X05", "non-trivial: at least one item's hash was read back from a sketch and compared with the reference hash; distinct by sketch kind, seed and items",
		core.Family{Name: "theta", Quick: 6000, Thorough: 200000, Run: func(t *T) { x5Theta(t, nil) }},
		core.Family{Name: "tuple", Quick: 6000, Thorough: 200000, Run: func(t *T) { x5Theta(t, tupleKinds(t)) }},
		core.Family{Name: "hll", Quick: 2500, Thorough: 80000, Run: x5Hll},
		core.Family{Name: "cpc", Quick: 2500, Thorough: 80000, Run: x5Cpc},
		core.Family{Name: "bloom", Quick: 3000, Thorough: 80000, Run: x5Bloom},
		core.Family{Name: "bloom-huge", Serial: true, Quick: 1, Thorough: 4, Run: x5Huge},
		core.Family{Name: "count", Quick: 3000, Thorough: 80000, Run: x5Count},
		core.Family{Name: "lengths", Quick: 200, Thorough: 4000, Run: x5Lengths},
		core.Family{Name: "distinct", Quick: 400, Thorough: 8000, Run: x5Distinct},
		core.Family{Name: "hashers", Quick: 2000, Thorough: 50000, Run: x5Hashers},
	)
	core.Assume("X05", "reference hashes: MurmurHash3 x64 128 and XXHash64 written independently from their definitions",
		"integers narrower than 64 bits count by value, sign- or zero-extended; elements of float arrays in Bloom filters are hashed by their bits")
}

func x5Bytes(t *T, n int) []byte {
	b := make([]byte, n)
	switch t.IntN(4) {
	case 0: // zeros with a few bits: catches lengths and tails that are dropped
		for range t.IntN(3) {
			if n > 0 {
				b[t.IntN(n)] = 1 << t.IntN(8)
			}
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		for i := range b {
			b[i] = byte(t.Uint32())
		}
	}
	return b
}

func x5Len(t *T) int {
	switch t.IntN(6) {
	case 0:
		return 1 + t.IntN(3)
	case 1:
		return 8 * (1 + t.IntN(9))
	case 2:
		return 16*(1+t.IntN(8)) + t.IntN(3) - 1
	case 3:
		return 1 + t.IntN(700)
	}
	return 1 + t.IntN(40)
}

func x5Int(t *T) uint64 {
	switch t.IntN(5) {
	case 0:
		return uint64(t.IntN(10)) - 5
	case 1:
		return 1<<t.IntN(64) - uint64(t.IntN(2))
	case 2:
		return -(1 << t.IntN(64)) - uint64(t.IntN(3)) + 1
	}
	return t.Uint64()
}

func x5Item(t *T) item {
	k := t.IntN(itKinds)
	it := item{kind: k}
	switch {
	case k <= itUint8:
		it.i = int64(x5Int(t))
	case k == itF64 || k == itF32:
		it.f = randFloat(t)
		if t.IntN(4) == 0 {
			it.f = math.Float64frombits(x5Int(t))
		}
	case k == itString:
		it.s = string(x5Bytes(t, x5Len(t)))
	default:
		it.b = x5Bytes(t, x5Len(t))
	}
	return it
}

// x5Hashes returns the hashes (of 64 bits) that the reference definitions allow
// for an item, and the one this library's own definition gives where it differs.
func x5Hashes(it item, seed uint64) (want []uint64, own uint64, what string) {
	h := func(b []byte) uint64 { a, _ := ref.Murmur128(b, seed); return a }
	u := func(v uint64) uint64 { return h(ref.U64Bytes(v)) }
	i4 := func(v int32) uint64 { return h(binary.LittleEndian.AppendUint32(nil, uint32(v))) }
	switch it.kind {
	case itInt64, itUint64:
		return []uint64{u(uint64(it.i))}, 0, ""
	case itUint32:
		return []uint64{u(uint64(uint32(it.i))), u(uint64(int64(int32(it.i))))}, 0, ""
	case itInt32:
		return []uint64{u(uint64(int64(int32(it.i))))}, i4(int32(it.i)), "int"
	case itInt16:
		return []uint64{u(uint64(int64(int16(it.i))))}, i4(int32(int16(it.i))), "int"
	case itInt8:
		return []uint64{u(uint64(int64(int8(it.i))))}, i4(int32(int8(it.i))), "int"
	case itUint16:
		return []uint64{u(uint64(uint16(it.i))), u(uint64(int64(int16(it.i))))}, i4(int32(uint16(it.i))), "int"
	case itUint8:
		return []uint64{u(uint64(uint8(it.i))), u(uint64(int64(int8(it.i))))}, i4(int32(uint8(it.i))), "int"
	case itF64:
		return []uint64{u(ref.CanonDouble(it.f))}, 0, ""
	case itF32:
		return []uint64{u(ref.CanonDouble(float64(float32(it.f))))}, 0, ""
	case itString:
		return []uint64{h([]byte(it.s))}, ref.MurmurChars([]byte(it.s), seed), "string"
	}
	return []uint64{h(it.b)}, 0, ""
}

// x5Aliases returns items that are documented to equal it.
func x5Aliases(it item) (out []item) {
	i := it.i
	switch it.kind {
	case itInt64, itUint64:
		out = append(out, item{kind: itInt64, i: i}, item{kind: itUint64, i: i})
		if i >= 0 && i <= math.MaxInt32 {
			out = append(out, item{kind: itUint32, i: i})
		}
		out = append(out, item{kind: itBytes, b: ref.U64Bytes(uint64(i))})
	case itInt16, itInt8:
		out = append(out, item{kind: itInt32, i: int64(int16(i))})
		if it.kind == itInt8 {
			out[0].i = int64(int8(i))
			out = append(out, item{kind: itInt16, i: int64(int8(i))})
		}
	case itUint8:
		if i &= 0xff; i < 128 {
			out = append(out, item{kind: itInt32, i: i}, item{kind: itUint16, i: i}, item{kind: itInt8, i: i})
		}
	case itUint16:
		if i &= 0xffff; i < 1<<15 {
			out = append(out, item{kind: itInt32, i: i}, item{kind: itInt16, i: i})
		}
	case itF32:
		out = append(out, item{kind: itF64, f: float64(float32(it.f))})
	}
	if it.kind == itF32 || it.kind == itF64 {
		if it.f == 0 || it.kind == itF32 && float32(it.f) == 0 {
			out = append(out, item{kind: itF64, f: 0}, item{kind: itF64, f: math.Copysign(0, -1)}, item{kind: itF32, f: math.Copysign(0, -1)}, item{kind: itInt64})
		}
		if math.IsNaN(it.f) {
			out = append(out, item{kind: itF64, f: math.Float64frombits(math.Float64bits(it.f) ^ 1<<63)}, item{kind: itF64, f: math.Float64frombits(0xfff0000000000001)},
				item{kind: itF32, f: math.NaN()}, item{kind: itInt64, i: 0x7ff8000000000000})
		}
	}
	return append(out, it)
}

type x5box struct {
	feed func(it item) error
	obs  func() []uint64
	dup  error
}

func x5New(t *T, kd tkind, lgK uint8, seed uint64) x5box {
	if kd == nil {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(seed), theta.WithUpdateSketchLgK(lgK))
		t.NoErr(err, "new")
		return x5box{func(it item) error { return it.feed(s) }, func() []uint64 { return slices.Collect(s.All()) }, theta.ErrDuplicateKey}
	}
	s, err := kd.newUpdate(lgK, theta.ResizeX2, 1, seed)
	t.NoErr(err, "new")
	return x5box{func(it item) error { return s.feed(it, 1) }, func() []uint64 { return s.sk().snap().hashes }, nil}
}

func x5Seed(t *T) uint64 {
	for {
		s := seedsPool[t.IntN(len(seedsPool))]
		if t.IntN(2) == 0 {
			s = t.Uint64()
		}
		if ref.SeedHash(s) != 0 {
			return s
		}
	}
}

func x5Theta(t *T, kd tkind) {
	seed := x5Seed(t)
	name := "theta"
	if kd != nil {
		name = kd.name()
	}
	all := x5New(t, kd, 12, seed)
	var hashes []uint64
	legacy := map[string]bool{}
	n := 1 + t.IntN(14)
	for range n {
		it := x5Item(t)
		t.Desc("%s seed %d item %+v", name, seed, it)
		t.Sig(name, seed, fmt.Sprint(it))
		one := x5New(t, kd, 5, seed)
		want, own, what := x5Hashes(it, seed)
		err := one.feed(it)
		got := one.obs()
		if len(got) == 0 && (want[0]>>1 == 0 || what != "" && own>>1 == 0) {
			continue // a zero hash is dropped
		}
		t.NoErr(err, "update")
		t.Check(len(got) == 1, "retained", "one update retained %d hashes", len(got))
		ok := false
		for _, w := range want {
			ok = ok || got[0] == w>>1
		}
		if !ok && what != "" && got[0] == own>>1 {
			legacy[what] = true
			ok = true
		}
		t.Check(ok, "hash", "hash %#x, reference %#x (own %#x)", got[0], want[0]>>1, own>>1)
		t.NonTrivial()
		t.Ev("hashes compared")
		for _, a := range x5Aliases(it) {
			if err := one.feed(a); one.dup != nil {
				t.Check(err == one.dup, "alias", "%+v counted besides %+v (%v)", a, it, err)
			} else {
				t.NoErr(err, "update")
			}
			t.Check(len(one.obs()) == 1, "alias", "%+v counted besides %+v", a, it)
			t.Ev("equal items")
		}
		_ = all.feed(it)
		hashes = append(hashes, got[0])
	}
	slices.Sort(hashes)
	hashes = slices.Compact(hashes)
	got := slices.Sorted(slices.Values(all.obs()))
	t.Check(slices.Equal(got, hashes), "together", "%d items together retain %d hashes, apart %d", n, len(got), len(hashes))
	if kd == nil {
		c := ref.SeedHash(seed)
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(seed))
		t.NoErr(err, "new")
		sh, err := s.SeedHash()
		t.NoErr(err, "seed-hash")
		t.Check(sh == c, "seed-hash", "seed hash %#x, reference %#x", sh, c)
	}
	// Last, so that the recorded finding hides nothing.
	t.Check(!legacy["string"], "own-string-hash", "strings are not hashed as their UTF-8 bytes, unlike the C++ and Java libraries (and unlike UpdateBytes)")
	t.Check(!legacy["int"], "own-int-hash", "integers of 8, 16 and 32 bits are not hashed as 64-bit integers, unlike the C++ library (and unlike UpdateInt64)")
}

func x5Hll(t *T) {
	lgK := 4 + t.IntN(18)
	s := hllNew(t, lgK, hll.TgtHllType(t.IntN(3)))
	set := map[uint32]bool{}
	for range 1 + t.IntN(6) {
		it := hllItem{kind: byte(t.IntN(4)), u: x5Int(t)}
		if it.kind > 1 {
			it.b = x5Bytes(t, x5Len(t))
			if t.IntN(12) == 0 {
				it.b = nil
			}
		}
		t.Desc("hll lgK %d item %+v", lgK, it)
		t.Sig("hll", lgK, fmt.Sprint(it))
		t.NoErr(it.feed(s), "update")
		if c, ok := it.coupon(); ok {
			set[c] = true
		}
		if it.kind < 2 { // equal items
			t.NoErr(s.UpdateInt64(int64(it.u)), "update")
			t.NoErr(s.UpdateUInt64(it.u), "update")
			t.NoErr(s.UpdateSlice(ref.U64Bytes(it.u)), "update")
			t.NoErr(s.UpdateString(string(ref.U64Bytes(it.u))), "update")
			t.EvN("equal items", 4)
		} else {
			t.NoErr(s.UpdateSlice(it.b), "update")
			t.NoErr(s.UpdateString(string(it.b)), "update")
			t.EvN("equal items", 2)
		}
	}
	b, err := s.ToCompactSlice()
	t.NoErr(err, "serialize")
	im, err := ref.ParseHll(b)
	t.NoErr(err, "image")
	t.Check(im.Buckets == nil, "mode", "%d coupons left list mode", len(set))
	t.Check(len(im.Coupons) == len(set), "count", "%d coupons retained, reference %d", len(im.Coupons), len(set))
	for _, c := range im.Coupons {
		t.Check(set[c], "hash", "coupon %#x is of no item", c)
		t.Ev("hashes compared")
		t.NonTrivial()
	}
}

func x5Cpc(t *T) {
	lgK := 4 + t.IntN(9)
	seed := cpcSeed(t)
	if t.IntN(2) == 0 {
		seed = x5Seed(t)
	}
	s := cpcNew(t, lgK, seed)
	want := make([]uint64, 1<<lgK)
	put := func(b []byte) {
		if len(b) > 0 {
			r, c := ref.CpcCell(b, seed, lgK)
			want[r] |= 1 << c
			t.NonTrivial()
			t.Ev("hashes compared")
		}
	}
	for range 1 + t.IntN(20) {
		it := cpcItem{kind: byte(t.IntN(7)), u: x5Int(t), f: randFloat(t)}
		if it.kind == 3 || it.kind == 4 {
			it.b = x5Bytes(t, x5Len(t)-t.IntN(2))
		}
		t.Desc("cpc lgK %d seed %d item %+v", lgK, seed, it)
		t.Sig("cpc", lgK, seed, fmt.Sprint(it))
		switch it.kind {
		case 5:
			for range t.IntN(9) {
				it.l = append(it.l, int64(x5Int(t)))
			}
			if len(it.l) == 1 {
				t.NoErr(s.UpdateInt64(it.l[0]), "update")
			}
		case 6: // int32 slice
			var l []int32
			var b []byte
			for range t.IntN(14) {
				l = append(l, int32(x5Int(t)))
				b = binary.LittleEndian.AppendUint32(b, uint32(l[len(l)-1]))
			}
			t.NoErr(s.UpdateInt32Slice(l), "update")
			t.NoErr(s.UpdateByteSlice(b), "update")
			put(b)
			t.Ev("equal items")
			continue
		case 2:
			if it.f == 0 {
				t.NoErr(s.UpdateFloat64(-it.f), "update")
				t.NoErr(s.UpdateUint64(0), "update")
				t.EvN("equal items", 2)
			}
			if math.IsNaN(it.f) {
				t.NoErr(s.UpdateFloat64(math.Float64frombits(0xfff0000000000001+t.Uint64N(1<<50))), "update")
				t.NoErr(s.UpdateUint64(0x7ff8000000000000), "update")
				t.EvN("equal items", 2)
			}
		}
		t.NoErr(it.feed(s), "update")
		b := it.bytes()
		put(b)
		if it.kind == 0 || it.kind == 1 || t.IntN(2) == 0 {
			t.NoErr(s.UpdateByteSlice(b), "update")
			t.NoErr(s.UpdateString(string(b)), "update")
			t.EvN("equal items", 2)
		}
	}
	cpcSame(t, cpcMatrix(t, s, seed), want, "hash")
	sh := ref.SeedHash(seed)
	b := cpcBytes(t, s, "serialize")
	t.Check(binary.LittleEndian.Uint16(b[6:]) == sh, "seed-hash", "image % x with seed hash %#x", b[:8], sh)
}

func blBits(b []byte, seed uint64, k uint16, words []uint64) {
	h0 := ref.XXHash64(b, seed)
	h1 := ref.XXHash64(b, h0)
	for i := uint64(1); i <= uint64(k); i++ {
		x := ((h0 + i*h1) >> 1) % uint64(64*len(words))
		words[x/64] |= 1 << (x % 64)
	}
}

// x5Huge places items in a filter of more than 2^32 bits.
func x5Huge(t *T) {
	nbits := uint64(1)<<32 + 64*(1<<20+t.Uint64N(1<<22))
	k := uint16(1 + t.IntN(20))
	seed := blSeed(t)
	t.Desc("bloom %d bits k %d seed %d", nbits, k, seed)
	t.Sig("bloom", nbits, k, seed)
	f, err := bf.NewBloomFilterBySize(nbits, k, bf.WithSeed(seed))
	t.NoErr(err, "new")
	want := map[uint64]bool{}
	var in []uint64
	for range 300 {
		u := t.Uint64()
		t.NoErr(f.UpdateUInt64(u), "update")
		in = append(in, u)
		h0 := ref.XXHash64(ref.U64Bytes(u), seed)
		h1 := ref.XXHash64(ref.U64Bytes(u), h0)
		for i := uint64(1); i <= uint64(k); i++ {
			want[((h0+i*h1)>>1)%nbits] = true
		}
	}
	for _, u := range in { // only the first query counts the bits
		t.Check(f.QueryUInt64(u), "lost", "%d is absent", u)
	}
	t.Check(f.BitsUsed() == uint64(len(want)), "bits", "%d bits set, expected %d", f.BitsUsed(), len(want))
	img, err := f.ToCompactSlice()
	t.NoErr(err, "encode")
	t.Check(uint64(len(img)) == 32+nbits/8, "size", "image of %d bytes for %d bits", len(img), nbits)
	for x := range want {
		t.Check(img[32+x/8]>>(x%8)&1 == 1, "place", "bit %d of %d is not set", x, nbits)
	}
	t.NonTrivial()
	t.Ev("items placed beyond 2^32 bits")
}

func x5Bloom(t *T) {
	nbits := 64 * uint64(1+t.IntN(30))
	k := uint16(1 + t.IntN(12))
	if t.IntN(10) == 0 {
		k = uint16(1 + t.IntN(1000))
		if t.IntN(10) == 0 {
			k = uint16(65535 - t.IntN(2)*t.IntN(65000))
		}
		nbits = 64 * uint64(1+t.IntN(5000))
	}
	seed := blSeed(t)
	f, err := bf.NewBloomFilterBySize(nbits-t.Uint64N(64), k, bf.WithSeed(seed))
	t.NoErr(err, "new")
	want := make([]uint64, nbits/64)
	for range 1 + t.IntN(5) {
		it := blMake(t)
		if it.kind == 3 || it.kind == 2 {
			it.b = x5Bytes(t, x5Len(t))
		}
		t.Desc("bloom %d bits k %d seed %d item %v", nbits, k, seed, it)
		t.Sig("bloom", nbits, k, seed, it.String())
		var b []byte
		switch it.kind {
		case 0:
			b = ref.U64Bytes(it.u)
		case 1:
			b = ref.U64Bytes(ref.CanonDouble(math.Float64frombits(it.u)))
		case 2, 3:
			b = it.b
		case 4:
			for _, v := range it.l {
				b = append(b, ref.U64Bytes(uint64(v))...)
			}
		default:
			for _, v := range it.d {
				b = append(b, ref.U64Bytes(math.Float64bits(v))...)
			}
		}
		if it.kind == 3 || len(b) > 0 {
			blBits(b, seed, k, want)
		}
		if t.IntN(3) == 0 {
			it.testAndUpdate(t, f)
		} else {
			it.update(t, f)
		}
		if len(b) > 0 { // equal items
			t.Check(it.query(t, f) && f.QuerySlice(b) && f.QueryString(string(b)), "alias", "the bytes of %v are absent", it)
			if it.kind < 2 {
				u := binary.LittleEndian.Uint64(b)
				t.Check(f.QueryUInt64(u) && f.QueryInt64(int64(u)) && f.QueryInt64Array([]int64{int64(u)}), "alias", "the integer of %v is absent", it)
			}
			t.NoErr(f.UpdateSlice(b), "update")
			t.NoErr(f.UpdateString(string(b)), "update")
			if len(b) == 8 {
				u := binary.LittleEndian.Uint64(b)
				t.NoErr(f.UpdateUInt64(u), "update")
				t.NoErr(f.UpdateInt64(int64(u)), "update")
				if x := math.Float64frombits(u); ref.CanonDouble(x) == u {
					t.NoErr(f.UpdateFloat64(x), "update")
					if x == 0 {
						t.NoErr(f.UpdateFloat64(math.Copysign(0, -1)), "update")
					}
					if math.IsNaN(x) {
						t.NoErr(f.UpdateFloat64(math.Float64frombits(0xfff0000000000001+t.Uint64N(1<<50))), "update")
					}
				}
			}
			t.Ev("equal items")
			t.NonTrivial()
		}
		t.Ev("hashes compared")
	}
	p := blParse(t, blImage(t, f))
	t.Check(slices.Equal(p.words, want), "hash", "bits %x, reference %x", p.words, want)
}

func x5CountCells(b []byte, seed int64, hashes int, buckets int32) []int {
	rng := rand.New(rand.NewSource(seed))
	var out []int
	for i := range hashes {
		h, _ := ref.Murmur128(b, uint64(int64(rng.Int())+seed))
		out = append(out, i*int(buckets)+int(h%uint64(buckets)))
	}
	return out
}

func x5Count(t *T) {
	hashes, buckets := int8(1+t.IntN(8)), int32(3+t.IntN(300))
	seed := cmSeedOK(t)
	s, err := cm.NewCountMinSketch(hashes, buckets, seed)
	t.NoErr(err, "new")
	want := make([]int64, int(hashes)*int(buckets))
	for range 1 + t.IntN(6) {
		it := cmItem{kind: t.IntN(3), b: x5Bytes(t, x5Len(t))}
		if it.kind == 1 {
			it.b = ref.U64Bytes(x5Int(t))
		}
		t.Desc("count-min %dx%d seed %d item %+v", hashes, buckets, seed, it)
		t.Sig("count", hashes, buckets, seed, fmt.Sprint(it))
		w := int64(1 + t.IntN(9))
		t.NoErr(it.update(s, w), "update")
		t.NoErr(s.Update(it.b, w), "update")
		t.NoErr(s.UpdateString(string(it.b), w), "update")
		w *= 3
		if len(it.b) == 8 {
			t.NoErr(s.UpdateUint64(binary.LittleEndian.Uint64(it.b), 7), "update")
			w += 7
		}
		for _, c := range x5CountCells(it.b, seed, int(hashes), buckets) {
			want[c] += w
		}
		t.Ev("equal items")
		t.Ev("hashes compared")
		t.NonTrivial()
	}
	p := cmParse(t, cmImage(t, s))
	t.Check(slices.Equal(p.counters, want), "hash", "counters %v, reference %v", p.counters, want)
	t.Check(p.seedHash == ref.SeedHash(uint64(seed)), "seed-hash", "seed hash %#x, reference %#x", p.seedHash, ref.SeedHash(uint64(seed)))
}

// x5Lengths hashes bytes and strings of every length, cut out of a larger buffer.
func x5Lengths(t *T) {
	seed := x5Seed(t)
	t.Desc("every length, seed %d", seed)
	t.Sig(seed)
	buf := x5Bytes(t, 400)
	at := t.IntN(50)
	f, err := bf.NewBloomFilterBySize(64*300, 2, bf.WithSeed(seed))
	t.NoErr(err, "new")
	words := make([]uint64, 300)
	c := cpcNew(t, 12, seed)
	want := make([]uint64, 1<<12)
	for n := 1; n <= 260; n++ {
		b := buf[at : at+n]
		h, _ := ref.Murmur128(b, seed)
		got := probeHash(item{kind: itBytes, b: b}, seed)
		t.Check(got == h>>1, "theta-hash", "hash %#x of %d bytes, reference %#x", got, n, h>>1)
		own := ref.MurmurChars(b, seed)
		got = probeHash(item{kind: itString, s: string(b)}, seed)
		t.Check(got == h>>1 || got == own>>1, "theta-string-hash", "hash %#x of a string of %d bytes, reference %#x (own %#x)", got, n, h>>1, own>>1)
		s := hllNew(t, 10, hll.TgtHllTypeHll4)
		if n%2 == 0 {
			t.NoErr(s.UpdateSlice(b), "update")
			t.NoErr(c.UpdateByteSlice(b), "update")
			t.NoErr(f.UpdateSlice(b), "update")
		} else {
			t.NoErr(s.UpdateString(string(b)), "update")
			t.NoErr(c.UpdateString(string(b)), "update")
			t.NoErr(f.UpdateString(string(b)), "update")
		}
		im, err := s.ToCompactSlice()
		t.NoErr(err, "serialize")
		p, err := ref.ParseHll(im)
		t.NoErr(err, "image")
		t.Check(len(p.Coupons) == 1 && p.Coupons[0] == ref.HllCoupon(b), "hll-hash", "coupons %x of %d bytes, reference %x", p.Coupons, n, ref.HllCoupon(b))
		r, col := ref.CpcCell(b, seed, 12)
		want[r] |= 1 << col
		blBits(b, seed, 2, words)
		t.EvN("hashes compared", 5)
	}
	cpcSame(t, cpcMatrix(t, c, seed), want, "cpc-hash")
	t.Check(slices.Equal(blParse(t, blImage(t, f)).words, words), "bloom-hash", "bits differ from the reference")
	cs, err := cm.NewCountMinSketch(2, 5000, int64(seed))
	t.NoErr(err, "new")
	cells := make([]int64, 10000)
	for n := 1; n <= 260; n++ {
		b := buf[at : at+n]
		t.NoErr(cs.Update(b, 1), "update")
		for _, x := range x5CountCells(b, int64(seed), 2, 5000) {
			cells[x]++
		}
	}
	t.Check(slices.Equal(cmParse(t, cmImage(t, cs)).counters, cells), "count-hash", "counters differ from the reference")
	t.NonTrivial()
}

// x5Distinct feeds items that are almost equal and must all count.
func x5Distinct(t *T) {
	seed := x5Seed(t)
	var kd tkind
	name := "theta"
	if t.IntN(2) == 0 {
		kd = tupleKinds(t)
		name = kd.name()
	}
	kind := t.IntN(itKinds)
	var items []item
	base := x5Int(t)
	body := x5Bytes(t, 80)
	fl := randFloat(t)
	for math.IsNaN(fl) || math.IsInf(fl, 0) {
		fl = randFloat(t)
	}
	for i := range 300 {
		it := item{kind: kind}
		switch {
		case kind <= itUint8:
			width := []int{64, 64, 32, 32, 16, 16, 8, 8}[kind]
			v := base ^ uint64(i)
			if i >= 128 {
				v = base ^ 1<<(i%width) ^ uint64(i)
			}
			it.i = int64(v)
		case kind == itF64:
			it.f = math.Float64frombits(math.Float64bits(fl) ^ uint64(i))
			if i >= 150 {
				it.f = math.Float64frombits(math.Float64bits(fl) ^ 1<<(i%64))
			}
		case kind == itF32:
			it.f = float64(math.Float32frombits(math.Float32bits(float32(fl)) ^ uint32(i)))
			if i >= 150 {
				it.f = float64(math.Float32frombits(math.Float32bits(float32(fl)) ^ 1<<(i%32)))
			}
		default:
			var b []byte
			switch i % 3 {
			case 0: // zeros of every length
				b = make([]byte, 1+i/3)
			case 1: // prefixes
				b = body[:min(80, 1+i/3)]
			default: // one bit
				b = bytes.Clone(body)
				b[i%80] ^= 1 << (i % 8)
			}
			if kind == itString {
				it.s = string(b)
			} else {
				it.b = b
			}
		}
		items = append(items, it)
	}
	key := func(it item) string {
		switch it.kind {
		case itInt64, itUint64:
			return fmt.Sprint(it.i)
		case itInt32, itUint32:
			return fmt.Sprint(uint32(it.i))
		case itInt16, itUint16:
			return fmt.Sprint(uint16(it.i))
		case itInt8, itUint8:
			return fmt.Sprint(uint8(it.i))
		case itF64:
			return fmt.Sprint(ref.CanonDouble(it.f))
		case itF32:
			return fmt.Sprint(ref.CanonDouble(float64(float32(it.f))))
		case itString:
			return it.s
		}
		return string(it.b)
	}
	t.Desc("%s seed %d, near-equal items of kind %d around %d %v % x", name, seed, kind, base, fl, body)
	t.Sig(name, seed, kind, base)
	box := x5New(t, kd, 12, seed)
	truth := map[string]bool{}
	for _, it := range items {
		if want, own, what := x5Hashes(it, seed); want[0]>>1 == 0 || what != "" && own>>1 == 0 {
			continue // a zero hash is dropped
		}
		truth[key(it)] = true
		if err := box.feed(it); err != nil {
			t.Check(box.dup != nil && err == box.dup, "update", "update: %v", err)
		}
	}
	t.Check(len(box.obs()) == len(truth), "distinct", "%d distinct items retain %d hashes", len(truth), len(box.obs()))
	t.EvN("distinct items", len(truth))
	t.NonTrivial()
}

// x5Hashers compares the item hashers of the frequency sketches.
func x5Hashers(t *T) {
	v := int64(x5Int(t))
	f := randFloat(t)
	s := string(x5Bytes(t, x5Len(t)-1))
	t.Desc("hashers %d %v %q", v, f, s)
	t.Sig(v, f, s)
	h := func(b []byte) uint64 { a, _ := ref.Murmur128(b, 9001); return a }
	got := common.ItemSketchLongHasher{}.Hash(v)
	t.Check(got == h(ref.U64Bytes(uint64(v))), "long", "hash %#x, reference %#x", got, h(ref.U64Bytes(uint64(v))))
	if !math.IsNaN(f) { // never equal to itself
		b := math.Float64bits(f)
		if f == 0 {
			b = 0
		}
		got = common.ItemSketchDoubleHasher{}.Hash(f)
		t.Check(got == h(ref.U64Bytes(b)), "double", "hash %#x, reference %#x", got, h(ref.U64Bytes(b)))
	}
	got = common.ItemSketchStringHasher{}.Hash(s)
	t.Check(got == h([]byte(s)), "string", "hash %#x, reference %#x", got, h([]byte(s)))
	t.EvN("hashes compared", 3)
	t.NonTrivial()
}
