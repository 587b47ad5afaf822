package mon

import (
	"bytes"
	"encoding/binary"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/ref"
)

// wireTuple parses the fixed part of a tuple image by the published layout.
func wireTuple(t *T, b []byte, k tkind, n tsnap) {
	aon := b[3] == 3
	t.Check(b[2] == 9, "wire-family", "family id %d", b[2])
	if aon {
		t.Check(b[0] == 1 && b[1] == 1, "wire-preamble", "preamble %d, version %d", b[0], b[1])
		f := b[4]
		t.Check(f>>2&1 == b2u(n.empty) && f>>3&1 == b2u(len(n.hashes) > 0) && f>>4&1 == b2u(n.ordered), "wire-flags", "flags %08b for empty=%v entries=%d ordered=%v", f, n.empty, len(n.hashes), n.ordered)
		t.Check(binary.LittleEndian.Uint16(b[6:]) == n.seed, "wire-seed", "seed hash")
		t.Check(binary.LittleEndian.Uint64(b[8:]) == n.theta, "wire-theta", "theta")
		t.Check(len(b) == k.wireLen(n.sum, 0), "wire-length", "%d bytes, layout needs %d", len(b), k.wireLen(n.sum, 0))
		if len(n.hashes) > 0 {
			t.Check(int(binary.LittleEndian.Uint32(b[16:])) == len(n.hashes), "wire-count", "entry count")
			for i, h := range n.order {
				t.Check(binary.LittleEndian.Uint64(b[24+8*i:]) == h, "wire-hash", "key %d out of place", i)
			}
		}
		return
	}
	pre := 2
	if n.theta < theta.MaxTheta && !n.empty {
		pre = 3
	} else if n.empty || len(n.hashes) == 1 {
		pre = 1
	}
	t.Check(int(b[0]) == pre && b[1] == 3 && b[3] == 1, "wire-preamble", "preamble %d (want %d), version %d, type %d", b[0], pre, b[1], b[3])
	f := b[5]
	t.Check(f>>1&1 == 1 && f>>3&1 == 1 && f>>2&1 == b2u(n.empty) && f>>4&1 == b2u(n.ordered), "wire-flags", "flags %08b for empty=%v ordered=%v", f, n.empty, n.ordered)
	t.Check(binary.LittleEndian.Uint16(b[6:]) == n.seed, "wire-seed", "seed hash")
	t.Check(len(b) == k.wireLen(n.sum, pre), "wire-length", "%d bytes, layout needs %d", len(b), k.wireLen(n.sum, pre))
	if pre > 1 {
		t.Check(int(binary.LittleEndian.Uint32(b[8:])) == len(n.hashes), "wire-count", "entry count")
	}
	if pre > 2 {
		t.Check(binary.LittleEndian.Uint64(b[16:]) == n.theta, "wire-theta", "theta")
	}
	if len(n.order) > 0 {
		t.Check(binary.LittleEndian.Uint64(b[8*pre:]) == n.order[0], "wire-hash", "first key out of place")
	}
}

func b2u(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func u03RoundTrip(t *T) {
	k := tupleKinds(t)
	seed := seedsPool[t.IntN(len(seedsPool))]
	universe := 1 + t.IntN(300)
	pool := tuplePool(t, k, seed, universe)
	t.Ev("kind-" + k.name())
	t.Desc("%s, %d sketches, seed %d", k.name(), len(pool), seed)
	t.Sig(k.name(), seed)
	var cs []tsk
	for _, p := range pool {
		c, err := k.compactOf(p.sk, t.IntN(2) == 0)
		t.NoErr(err, "compact")
		cs = append(cs, c)
	}
	u, err := k.union(6, theta.ResizeX8, 1, seed)
	t.NoErr(err, "new-union")
	for _, c := range cs {
		t.NoErr(u.update(c), "union-update")
	}
	r, err := u.result(t.IntN(2) == 0)
	t.NoErr(err, "union-result")
	cs = append(cs, r)
	d, err := k.diff(cs[0], cs[1], seed, t.IntN(2) == 0)
	t.NoErr(err, "diff")
	cs = append(cs, d)
	for _, c := range cs {
		n := c.snap()
		b, err := k.encode(c)
		t.NoErr(err, "encode")
		b2, err := k.encode(c)
		t.NoErr(err, "encode")
		t.Check(bytes.Equal(b, b2), "encode-stable", "two encodings of one sketch differ")
		wireTuple(t, b, k, n)
		keep := slices.Clone(b)
		dec, err := k.decode(b, seed)
		t.NoErr(err, "decode")
		for i := range b {
			b[i] = 0xA5
		}
		g := checkT(t, dec, n, "roundtrip")
		t.Check(slices.Equal(g.order, n.order) && g.ordered == n.ordered, "roundtrip-order", "entry order or ordered flag changed: %v -> %v", n.ordered, g.ordered)
		b3, err := k.encode(dec)
		t.NoErr(err, "encode")
		t.Check(bytes.Equal(keep, b3), "reencode", "re-encoding the decoded sketch gives different bytes")
		e1, l1, u1, _ := c.est()
		e2, l2, u2, _ := dec.est()
		t.Check(e1 == e2 && l1 == l2 && u1 == u2, "roundtrip-estimate", "estimates differ after the round trip: %v vs %v", e1, e2)
		if ak, ok := numValues(c); ok {
			dk, _ := numValues(dec)
			t.Check(ak == dk, "roundtrip-width", "%d values per key became %d", ak, dk)
		}
		t.Ev("roundtrip")
		if len(n.hashes) > 0 {
			t.NonTrivial()
			t.Sig(n.theta, len(n.hashes))
			if ref.SeedHash(seed+1) != ref.SeedHash(seed) {
				_, err = k.decode(keep, seed+1)
				t.Check(err != nil, "wrong-seed", "decoded with another seed")
			}
			t.Ev("wrong-seed")
		}
		// other sketch types
		refuse := func(name string, err error) {
			t.Check(err != nil, "wrong-type", "%s decoder accepted a %s image", name, k.name())
			t.Ev("wrong-type")
		}
		if keep[3] == 3 {
			_, err = tuple.Decode[*logSum](keep, seed, kindLog().(gkind[*logSum, int64]).r)
			refuse("generic tuple", err)
		} else {
			_, err = tuple.DecodeArrayOfNumbersCompactSketch[float64](keep, seed)
			refuse("array of numbers", err)
		}
		_, err = theta.Decode(keep, seed)
		refuse("theta", err)
	}
	ts := buildTheta(t, 5, seed, 100)
	b, err := ts.Compact(true).MarshalBinary()
	t.NoErr(err, "theta-encode")
	_, err = k.decode(b, seed)
	t.Check(err != nil, "wrong-type", "%s decoder accepted a theta image", k.name())
}

func numValues(s tsk) (uint8, bool) {
	switch a := s.(type) {
	case askG[float64]:
		return a.a.NumValuesInSummary(), true
	case askG[float32]:
		return a.a.NumValuesInSummary(), true
	case askG[int64]:
		return a.a.NumValuesInSummary(), true
	case askG[uint8]:
		return a.a.NumValuesInSummary(), true
	case askG[int32]:
		return a.a.NumValuesInSummary(), true
	case askG[int16]:
		return a.a.NumValuesInSummary(), true
	case askG[uint64]:
		return a.a.NumValuesInSummary(), true
	case askG[int8]:
		return a.a.NumValuesInSummary(), true
	}
	return 0, false
}

func extremeRound[V tuple.Number](t *T, nm string, vals []V) {
	n := uint8(1 + t.IntN(255))
	s, err := tuple.NewArrayOfNumbersUpdateSketch[V](n)
	t.NoErr(err, "new")
	cnt := 1 + t.IntN(20)
	for i := 0; i < cnt; i++ {
		v := make([]V, n)
		for j := range v {
			v[j] = vals[t.IntN(len(vals))]
		}
		t.NoErr(s.UpdateInt64(int64(i), v), "update")
	}
	c, err := s.Compact(true)
	t.NoErr(err, "compact")
	k := akind[V]{n: n, nm: nm}
	w := k.wrap(c)
	b, err := k.encode(w)
	t.NoErr(err, "encode")
	d, err := k.decode(b, 9001)
	t.NoErr(err, "decode")
	checkT(t, d, w.snap(), "extreme")
	t.Check(k.raw(d).NumValuesInSummary() == n, "roundtrip-width", "%d values per key became %d", n, k.raw(d).NumValuesInSummary())
	// the copy is usable: merging it with itself applies the policy to every key
	u, err := tuple.NewArrayOfNumbersSketchUnion[V](policyF[aSum[V]](func(a, b aSum[V]) { a.Update(b.Values()) }), n)
	t.NoErr(err, "new-union")
	t.NoErr(u.Update(k.raw(d)), "union-update")
	t.NoErr(u.Update(k.raw(w)), "union-update")
	r, err := u.Result(true)
	t.NoErr(err, "union-result")
	got := map[uint64][]V{}
	for h, x := range r.All() {
		got[h] = x.Values()
	}
	for h, x := range c.All() {
		want := make([]V, n)
		for i, y := range x.Values() {
			want[i] = y + y
		}
		t.Check(k.canon(want) == k.canon(got[h]), "extreme-merge", "values of key %d after merging the copy with its original", h)
	}
	t.Ev("extreme-" + nm)
	t.Sig(nm, n, cnt)
	t.NonTrivial()
	t.Desc("%s values x%d, %d keys", nm, n, cnt)
}

func u03Extremes(t *T) {
	switch t.Idx % 10 {
	case 0:
		extremeRound(t, "f64", []float64{0, math.Copysign(0, -1), math.Inf(1), math.MaxFloat64, 5e-324, -1.5})
	case 1:
		extremeRound(t, "f32", []float32{0, math.MaxFloat32, math.SmallestNonzeroFloat32, -1.5, float32(math.Inf(1))})
	case 2:
		extremeRound(t, "i64", []int64{math.MinInt64, math.MaxInt64, -1, 0, 1})
	case 3:
		extremeRound(t, "u64", []uint64{math.MaxUint64, 0, 1, 1 << 63})
	case 4:
		extremeRound(t, "i32", []int32{math.MinInt32, math.MaxInt32, -1, 0})
	case 5:
		extremeRound(t, "u32", []uint32{math.MaxUint32, 1 << 31, 0, 7})
	case 6:
		extremeRound(t, "i16", []int16{math.MinInt16, math.MaxInt16, -1})
	case 7:
		extremeRound(t, "u16", []uint16{math.MaxUint16, 1 << 15, 0})
	case 8:
		extremeRound(t, "i8", []int8{math.MinInt8, math.MaxInt8, -1})
	default:
		extremeRound(t, "u8", []uint8{255, 128, 0})
	}
}

// u03Strings encodes sketches whose string summaries are long, many or odd.
func u03Strings(t *T) {
	var long []string
	total := 0
	for i, n := 0, t.IntN(6); i < n; i++ {
		l := []int{0, 1, 127, 128, 255, 256, 4095, 65535, 65536, 70001, 1 << 17}[t.IntN(11)]
		b := make([]byte, l)
		for j := range b {
			b[j] = byte(t.Uint32() >> 7)
		}
		long = append(long, string(b))
		total += l
	}
	many := make([]string, 1+t.IntN(127))
	for i := range many {
		many[i] = strings.Repeat("é", t.IntN(3))
	}
	vals := [][]string{long, many, {}, {""}, {strings.Repeat("z", 300), "", "\xff\xfe"}}
	t.Desc("%d strings of %d bytes in all, and %d strings", len(long), total, len(many))
	if t.IntN(2) == 0 {
		stringsRound(t, vals, kindAoS().(gkind[*tuple.ArrayOfStringsSummary, []string]))
	} else {
		stringsRound(t, vals, kindAoSInline().(gkind[tuple.ArrayOfStringsInlineSummary, []string]))
	}
	t.EvN("string bytes carried", total)
	t.Sig(total, len(long), len(many))
	if total > 0 {
		t.NonTrivial()
	}
}

func stringsRound[S tuple.UpdatableSummary[[]string]](t *T, vals [][]string, k gkind[S, []string]) {
	up, err := k.newUpdate(uint8(5+t.IntN(4)), theta.ResizeX8, 1, 9001)
	t.NoErr(err, "new")
	want := map[string]int{}
	cnt := 1 + t.IntN(8)
	for i := 0; i < cnt; i++ {
		v := vals[t.IntN(len(vals))]
		g := up.(gupd[S, []string])
		t.NoErr(g.s.UpdateInt64(int64(i), slices.Clone(v)), "update")
		want[aosStr(v)]++
	}
	c, err := up.compact(t.IntN(2) == 0)
	t.NoErr(err, "compact")
	check := func(s tsk, what string) {
		got := map[string]int{}
		for _, x := range s.snap().sum {
			got[x]++
		}
		for v, n := range want {
			t.Check(got[v] == n, what, "%d keys carry a summary of %d bytes, %d were given it", got[v], len(v), n)
		}
		t.Check(len(got) == len(want), what, "%d different summaries, %d were given", len(got), len(want))
	}
	check(c, "strings-held")
	b, err := k.encode(c)
	t.NoErr(err, "encode")
	wireTuple(t, b, k, c.snap())
	d, err := k.decode(b, 9001)
	t.NoErr(err, "decode")
	checkT(t, d, c.snap(), "strings-roundtrip")
	check(d, "strings-decoded")
	b2, err := k.encode(d)
	t.NoErr(err, "encode")
	t.Check(bytes.Equal(b, b2), "reencode", "re-encoding the decoded sketch gives different bytes")
	t.Ev("string sketches carried")
}
