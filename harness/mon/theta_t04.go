package mon

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"testing/iotest"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("T04", "every case serializes one compact sketch in both formats, decodes it by every route and compares content with the source and with an independent parser of the published layout; distinct = distinct (delta bit width, count, theta, form) points",
		core.Family{Name: "widths", Quick: 63 * 400, Thorough: 63 * 10000, Run: t04Widths},
		core.Family{Name: "sketches", Quick: 15000, Thorough: 300000, Run: t04Sketches},
		core.Family{Name: "legacy", Quick: 5000, Thorough: 30000, Run: t04Legacy},
	)
}

func encodeTheta(t *T, c *theta.CompactSketch, compressed bool) []byte {
	var buf bytes.Buffer
	e := theta.NewEncoder(&buf, compressed)
	t.NoErr(e.Encode(c), "encode")
	return buf.Bytes()
}

// roundTrip checks every serialization route of one compact sketch.
func roundTrip(t *T, c *theta.CompactSketch, seed uint64) {
	want := snapOf(c)
	var images [][]byte
	for _, cmp := range []bool{false, true} {
		b := encodeTheta(t, c, cmp)
		images = append(images, b)
		t.Check(len(b) == c.SerializedSizeBytes(cmp), "size", "compressed=%v: SerializedSizeBytes %d, produced %d bytes", cmp, c.SerializedSizeBytes(cmp), len(b))
		im, err := ref.ParseTheta(b)
		t.NoErr(err, "layout")
		t.Check(im.Theta == want.theta && im.Empty == want.empty && im.SeedHash == want.seed && slices.Equal(im.Hashes, want.order), "layout-content",
			"compressed=%v: an independent parser reads theta %d, empty %v, %d hashes; sketch has %d, %v, %d", cmp, im.Theta, im.Empty, len(im.Hashes), want.theta, want.empty, len(want.order))
		t.Ev(fmt.Sprintf("image-v%d", im.Version))
		src := slices.Clone(b)
		d, err := theta.Decode(b, seed)
		t.NoErr(err, "decode")
		dec := theta.NewDecoder(seed)
		ds, err := dec.Decode(iotest.OneByteReader(bytes.NewReader(b)))
		t.NoErr(err, "decode-stream")
		w, err := theta.WrapCompactSketch(b, seed)
		t.NoErr(err, "wrap")
		for i, x := range []theta.Sketch{d, ds, w} {
			g := wellFormed(t, x, "decoded")
			t.Check(sameSnap(g, want) && slices.Equal(g.order, want.order), "content", "compressed=%v route %d: theta %d/%d empty %v/%v seed %d/%d entries %d/%d (decoded/original)", cmp, i,
				g.theta, want.theta, g.empty, want.empty, g.seed, want.seed, len(g.order), len(want.order))
			t.Check(g.ordered == want.ordered || want.empty, "ordered", "compressed=%v route %d: ordered %v, original %v", cmp, i, g.ordered, want.ordered)
			t.Check(x.Estimate() == c.Estimate(), "estimate", "estimate changed")
			// early exit from the iterator
			k := 0
			for range x.All() {
				if k++; k == 3 {
					break
				}
			}
		}
		for _, cmp2 := range []bool{false, true} {
			t.Check(bytes.Equal(encodeTheta(t, d, cmp2), encodeTheta(t, c, cmp2)), "reencode", "re-encoding the decoded sketch gives other bytes (compressed=%v then %v)", cmp, cmp2)
		}
		t.Check(bytes.Equal(src, b), "input-modified", "decoding modified its input")
		if !want.empty {
			_, e1 := theta.Decode(b, seed+1)
			_, e2 := theta.WrapCompactSketch(b, seed+1)
			t.Check(ref.SeedHash(seed) == ref.SeedHash(seed+1) || (e1 != nil && e2 != nil), "seed", "image decoded with another seed")
		}
		t.EvN("decoded", 3)
	}
	mb, err := c.MarshalBinary()
	t.NoErr(err, "marshal")
	t.Check(bytes.Equal(mb, images[0]), "marshal", "MarshalBinary differs from the uncompressed encoder")
}

func t04Widths(t *T) {
	width := 1 + t.Idx%63
	n := t.IntN(70)
	if t.IntN(10) == 0 {
		n = 200 + t.IntN(200)
	}
	seed := seedsPool[t.IntN(len(seedsPool))]
	// n deltas of at most width bits whose sum stays below 2^63
	var list []uint64
	cur := uint64(0)
	limit := uint64(math.MaxInt64)
	for i := 0; i < n; i++ {
		d := t.Uint64() >> (64 - width)
		switch t.IntN(4) {
		case 0:
			d = 1
		case 1:
			d >>= uint(t.IntN(width))
		}
		if i == 0 || t.IntN(n) == 0 {
			d |= 1 << (width - 1)
		}
		if d == 0 {
			d = 1
		}
		if width > 57 && i > 0 && t.IntN(4) > 0 { // leave room
			d = 1 + d>>uint(t.IntN(40)+10)
		}
		if d >= limit-cur {
			break
		}
		cur += d
		list = append(list, cur)
	}
	th := limit
	if t.IntN(2) == 0 {
		th = cur + 1
		if r := limit - th; r > 0 {
			th += t.Uint64() % r
		}
		if t.IntN(4) == 0 {
			th = cur + 1
		}
	}
	ord := t.IntN(4) > 0
	if len(list) <= 1 {
		ord = true
	}
	src := slices.Clone(list)
	if !ord {
		t.Shuffle(len(src), func(i, j int) { src[i], src[j] = src[j], src[i] })
	}
	empty := len(src) == 0 && th == limit
	c := theta.NewCompactSketch(&fakeSketch{th: th, list: src, ord: ord, empty: empty, seed: ref.SeedHash(seed)}, false)
	t.Desc("width<=%d n=%d theta=%d ordered=%v", width, len(src), th, ord)
	t.Sig(width, len(src), th, ord)
	if len(src) > 0 {
		t.NonTrivial()
	}
	roundTrip(t, c, seed)
}

func t04Sketches(t *T) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	s := buildTheta(t, uint8(5+t.IntN(7)), seed, 1+t.IntN(10000))
	c := s.Compact(t.IntN(2) == 0)
	t.Desc("retained=%d theta=%d ordered=%v", c.NumRetained(), c.Theta64(), c.IsOrdered())
	t.Sig(c.NumRetained(), c.Theta64(), c.IsOrdered())
	t.NonTrivial()
	roundTrip(t, c, seed)
	b := encodeTheta(t, c, false)
	for lg := uint8(5); lg <= 26; lg++ {
		if s.LgK() == lg {
			t.Check(int(c.MaxSerializedSizeBytes(lg)) >= len(b), "max-size", "MaxSerializedSizeBytes(%d) = %d but the sketch needs %d", lg, c.MaxSerializedSizeBytes(lg), len(b))
		}
	}
}

func t04Legacy(t *T) {
	seed := seedsPool[t.IntN(len(seedsPool))]
	s := buildTheta(t, uint8(5+t.IntN(3)), seed, 1+t.IntN(500))
	c := s.Compact(true)
	n := snapOf(c)
	t.Desc("legacy n=%d theta=%d", len(n.order), n.theta)
	t.Sig(len(n.order), n.theta)
	t.NonTrivial()
	for v := 1; v <= 2; v++ {
		b := ref.ThetaV12(v, n.theta, n.order, n.seed)
		d, err := theta.Decode(b, seed)
		t.NoErr(err, "legacy")
		w, err := theta.WrapCompactSketch(b, seed)
		t.NoErr(err, "legacy-wrap")
		for _, x := range []theta.Sketch{d, w} {
			g := wellFormed(t, x, "legacy")
			t.Check(sameSnap(g, n) && slices.Equal(g.order, n.order), "legacy-content", "version %d image decodes to other content", v)
		}
		t.Ev(fmt.Sprintf("image-v%d", v))
	}
}
