package mon

import (
	"bytes"
	"encoding/binary"
	"math"
	"slices"

	sp "github.com/apache/datasketches-go/sampling"
)

// The families "aged": sketches that have seen far more items than a test can
// feed, up to the documented limit. They come from images and from raw parts.

const spMost = 1<<48 - 1

// spAge picks a number of items seen, leaving room for some more.
func spAge(t *T) int64 {
	n := int64(1) << (31 + t.IntN(18))
	switch t.IntN(3) {
	case 0:
		n += int64(t.IntN(7)) - 3
	case 1:
		n += t.Int64N(n)
	}
	return min(n, spMost-1000)
}

// spAged is a full reservoir of the first k items.
func spAged[I comparable](t *T, kd *spKind[I], k int, n int64, from int) (*sp.ReservoirItemsSketch[I], []I, []byte) {
	items := make([]I, k)
	for i := range items {
		items[i] = kd.key(from + i)
	}
	img := []byte{2 | byte(t.IntN(4))<<6, 2, 11, 0}
	img = binary.LittleEndian.AppendUint32(img, uint32(k))
	img = binary.LittleEndian.AppendUint64(img, uint64(n))
	img = append(img, spItems(items)...)
	s, err := sp.NewReservoirItemsSketchFromSlice[I](slices.Clone(img), kd.serde)
	t.NoErr(err, "decode")
	return s, items, img
}

func s01Aged[I comparable](t *T, kd *spKind[I]) {
	k, n := 2+t.IntN(15), spAge(t)
	t.Desc("%s reservoir k=%d that has seen %d", kd.name, k, n)
	t.Sig(kd.name, k, n)
	s, items, _ := spAged(t, kd, k, n, 0)
	m := &spModel[I]{pos: map[I]int{}, n: n}
	for i, x := range items {
		m.pos[x] = i
	}
	s01Check(t, s, m, k, "aged")
	t.Check(slices.Equal(items, s.Samples()), "aged/samples", "samples %v, fed %v", s.Samples(), items)
	for range 3 {
		s01Subset(t, s, m, "aged")
	}
	for i := range 20 {
		x := kd.key(1000 + i)
		t.NoErr(s.Update(x), "update")
		m.pos[x] = 1000 + i
		m.n++
		if n >= 1<<46 { // one in 2^46/k
			t.Check(slices.Equal(items, s.Samples()), "aged/replaced", "the item after %d replaced a sample of %d", m.n-1, k)
		}
		s01Check(t, s, m, k, "aged")
	}
	s01Subset(t, s, m, "aged")
	t.NonTrivial()
	t.Ev("long-lived reservoirs")
}

func s02Aged[I comparable](t *T, kd *spKind[I]) {
	maxK := 2 + t.IntN(15)
	u, err := sp.NewReservoirItemsUnion[I](maxK)
	t.NoErr(err, "new")
	m := &spModel[I]{pos: map[I]int{}}
	minK := maxK
	t.Desc("%s aged reservoirs into a union of %d", kd.name, maxK)
	var first []I
	for i := range 1 + t.IntN(5) {
		k, n := 2+t.IntN(20), spAge(t)
		if i == 0 && t.IntN(2) == 0 {
			n = 1<<47 + t.Int64N(1<<40)
		}
		if m.n+n > spMost-1000 {
			n = int64(k + t.IntN(100))
		}
		s, items, _ := spAged(t, kd, k, n, 1000*i)
		raw := t.IntN(2) == 0
		t.Logf("k=%d n=%d raw=%v", k, n, raw)
		t.Sig(k, n, raw)
		if raw {
			t.NoErr(u.UpdateFromRaw(n, k, slices.Clone(items)), "raw")
		} else {
			t.NoErr(u.UpdateSketch(s), "sketch")
			t.Check(s.N() == n && slices.Equal(items, s.Samples()), "aged/input", "the union changed its input")
		}
		for p, x := range items {
			m.pos[x] = 1000*i + p
		}
		old := m.n
		m.n += n
		minK = min(minK, k)
		for j := range t.IntN(4) {
			x := kd.key(1000*i + 500 + j)
			t.NoErr(u.Update(x), "update")
			m.pos[x] = 1000*i + 500 + j
			m.n++
		}
		r, err := u.Result()
		t.NoErr(err, "result")
		t.Check(r.K() >= minK && r.K() <= maxK, "aged/k", "k %d, from %d to %d merged", r.K(), minK, maxK)
		s01Check(t, r, m, r.K(), "aged")
		s01Subset(t, r, m, "aged")
		if old >= 1<<47 && n < 500 { // one in 2^38/k^2 or rarer
			t.Check(slices.Equal(first, r.Samples()), "aged/replaced", "%d items replaced samples of %d", n, old)
		}
		first = r.Samples()
	}
	t.NonTrivial()
	t.Ev("unions of long-lived reservoirs")
}

// s02Share counts from which of two aged reservoirs the samples come.
func s02Share(t *T) {
	k := 2 + t.IntN(15)
	na := int64(1) << (33 + t.IntN(14))
	nb := int64(float64(na) * []float64{1, 0.5, 0.1, 3, 0.9, 1.0 / 3}[t.IntN(6)])
	if na+nb > spMost {
		nb = na / 2
	}
	t.Desc("share of two reservoirs k=%d that have seen %d and %d", k, na, nb)
	t.Sig(k, na, nb)
	const reps = 400
	fromB := 0
	for range reps {
		a, _, _ := spAged(t, &spLong, k, na, 0)
		b, _, _ := spAged(t, &spLong, k, nb, 1000)
		u, err := sp.NewReservoirItemsUnion[int64](k + t.IntN(3))
		t.NoErr(err, "new")
		t.NoErr(u.UpdateSketch(a), "sketch")
		t.NoErr(u.UpdateSketch(b), "sketch")
		r, err := u.Result()
		t.NoErr(err, "result")
		t.Check(r.N() == na+nb && r.NumSamples() == k, "aged/n", "n %d of %d and %d, %d samples", r.N(), na, nb, r.NumSamples())
		for _, x := range r.Samples() {
			if x >= spLong.key(1000) {
				fromB++
			}
		}
	}
	p := float64(nb) / float64(na+nb)
	exp := reps * float64(k) * p
	sd := math.Sqrt(1.5 * exp * (1 - p))
	t.Check(math.Abs(float64(fromB)-exp) < 8*sd+8, "aged/share", "%d of %d samples come from the second of %d and %d, expected %.0f", fromB, reps*k, na, nb, exp)
	t.NonTrivial()
	t.Ev("shares of long-lived reservoirs")
}

// voAged returns the image of a full VarOpt sketch that has seen n items.
func voAged[I comparable](t *T, kd *spKind[I], from int) (img []byte, m *voModel[I], n int64) {
	k := 2 + t.IntN(20)
	s, _ := s03New[I](t, k)
	m = newVoModel[I]()
	for i := range k + 1 + t.IntN(2*k) {
		w := 1.0
		if t.IntN(4) == 0 {
			w = 1 + 100*t.Float64()
		}
		t.NoErr(s.Update(kd.key(from+i), w), "update")
		m.add(kd.key(from+i), w)
	}
	img = vwImage(t, s, kd.serde)
	n = spAge(t)
	binary.LittleEndian.PutUint64(img[8:], uint64(n))
	return img, m, n
}

func s03Aged[I comparable](t *T, kd *spKind[I]) {
	img, m, n := voAged(t, kd, 0)
	t.Desc("%s varopt of %d bytes that has seen %d", kd.name, len(img), n)
	t.Sig(kd.name, len(img), n)
	s, err := sp.DecodeVarOptItemsSketch[I](slices.Clone(img), kd.serde)
	t.NoErr(err, "decode")
	for i := range 20 {
		t.Check(s.N() == n, "aged/n", "n %d after %d items", s.N(), n)
		total := 0.0
		for _, x := range voAll(s) {
			t.Check(m.pos[x.item] > 0 || x.item == kd.key(0), "aged/foreign", "sample %v was never fed", x.item)
			total += x.w
		}
		t.Check(spClose(total, m.total(), voTol), "aged/total", "samples weigh %v of %v", total, m.total())
		if i%5 == 0 {
			voSubset(t, s, m, "aged")
		}
		x, w := kd.key(500+i), 1+10*t.Float64()
		t.NoErr(s.Update(x, w), "update")
		m.add(x, w)
		n++
	}
	t.NonTrivial()
	t.Ev("long-lived VarOpt sketches")
}

func s04Aged[I comparable](t *T, kd *spKind[I]) {
	maxK := 2 + t.IntN(30)
	u, err := sp.NewVarOptItemsUnion[I](uint(maxK))
	t.NoErr(err, "new")
	n, total := int64(0), 0.0
	t.Desc("%s aged sketches into a VarOpt union of %d", kd.name, maxK)
	for i := range 1 + t.IntN(5) {
		var add int64
		if t.IntN(2) == 0 {
			img, m, an := voAged(t, kd, 1000*i)
			s, err := sp.DecodeVarOptItemsSketch[I](img, kd.serde)
			t.NoErr(err, "decode")
			t.NoErr(u.Update(s), "update")
			total += m.total()
			add = an
		} else {
			k := 2 + t.IntN(20)
			add = spAge(t)
			s, _, _ := spAged(t, kd, k, add, 1000*i)
			t.NoErr(u.UpdateReservoirItemsSketch(s), "reservoir")
			total += float64(add)
		}
		n += add
		t.Sig(i, add)
		img := vuImage(t, u, kd.serde)
		t.Check(int64(binary.LittleEndian.Uint64(img[8:])) == n, "aged/image-n", "image % x of %d items", img[:16], n)
		d, err := sp.DecodeVarOptItemsUnion[I](img, kd.serde)
		t.NoErr(err, "decode")
		t.Check(bytes.Equal(img, vuImage(t, d, kd.serde)), "aged/re-encode", "re-encoding gives other bytes")
		for _, v := range []*sp.VarOptItemsUnion[I]{u, d} {
			r, err := v.Result()
			t.NoErr(err, "result")
			t.Check(r.N() == n && r.NumSamples() <= maxK && r.K() <= maxK, "aged/n", "the union has seen %d of %d, %d samples", r.N(), n, r.NumSamples())
			got := 0.0
			for _, x := range voAll(r) {
				got += x.w
			}
			t.Check(spClose(got, total, 1e-9), "aged/total", "samples weigh %v of %v", got, total)
			ss, err := r.EstimateSubsetSum(func(I) bool { return true })
			t.NoErr(err, "subset")
			t.Check(spClose(ss.Estimate, total, 1e-9) && spClose(ss.TotalSketchWeight, total, 1e-9) && spClose(ss.LowerBound, total, 1e-3) && ss.UpperBound <= total*(1+1e-9) || r.R() > 0 && ss.LowerBound < ss.Estimate, "aged/subset", "everything is estimated as %v %v %v of %v, exactly %v", ss.LowerBound, ss.Estimate, ss.UpperBound, ss.TotalSketchWeight, total)
		}
	}
	t.NonTrivial()
	t.Ev("VarOpt unions of long-lived sketches")
}

func s05Aged[I comparable](t *T, kd *spKind[I]) {
	k, n := 2+t.IntN(40), spAge(t)
	_, items, img := spAged(t, kd, k, n, 0)
	vimg, _, vn := voAged(t, kd, 0)
	t.Desc("%s reservoir k=%d that has seen %d, varopt %d", kd.name, k, n, vn)
	t.Sig(kd.name, k, n, vn)
	buf := img
	for range 2 {
		d, err := sp.NewReservoirItemsSketchFromSlice[I](buf, kd.serde)
		t.NoErr(err, "decode")
		t.Check(d.N() == n && d.K() == k && slices.Equal(items, d.Samples()), "aged/decoded", "decoded n %d k %d", d.N(), d.K())
		c := d.Copy()
		buf, err = c.ToSlice(kd.serde)
		t.NoErr(err, "encode")
		t.Check(bytes.Equal(img, buf), "aged/re-encode", "re-encoding gives other bytes: % x instead of % x", buf[:16], img[:16])
	}
	u, err := sp.NewReservoirItemsUnion[I](k)
	t.NoErr(err, "new")
	t.NoErr(u.UpdateFromRaw(n, k, slices.Clone(items)), "raw")
	uimg, err := u.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	u2, err := sp.NewReservoirItemsUnionFromSlice[I](slices.Clone(uimg), kd.serde)
	t.NoErr(err, "decode")
	r, err := u2.Result()
	t.NoErr(err, "result")
	t.Check(r.N() == n && slices.Equal(items, r.Samples()), "aged/union", "the restored union has seen %d of %d", r.N(), n)
	again, err := u2.ToSlice(kd.serde)
	t.NoErr(err, "encode")
	t.Check(bytes.Equal(uimg, again), "aged/union", "re-encoding the union gives other bytes")

	vbuf := vimg
	for range 2 {
		d, err := sp.DecodeVarOptItemsSketch[I](vbuf, kd.serde)
		t.NoErr(err, "decode")
		t.Check(d.N() == vn, "aged/decoded", "decoded n %d of %d", d.N(), vn)
		voParse(t, vimg, d, kd, false)
		vbuf = vwImage(t, d, kd.serde)
		t.Check(bytes.Equal(vimg, vbuf), "aged/re-encode", "re-encoding gives other bytes")
		t.Check(d.SerializedSizeBytes(kd.serde) == len(vimg), "aged/size", "advertised %d bytes, produced %d", d.SerializedSizeBytes(kd.serde), len(vimg))
	}
	t.NonTrivial()
	t.Ev("round trips of long-lived sketches")
}
