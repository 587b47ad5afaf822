package mon

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/tdigest"

	"verif/harness/core"
)

func init() {
	core.Register("D01", "model of the fed multiset compared with everything a t-digest reports and with the centroids in its image",
		core.Family{Name: "history", Quick: 2500, Thorough: 40000, Run: d01History},
		core.Family{Name: "exact", Quick: 2500, Thorough: 30000, Run: d01Exact},
		core.Family{Name: "accuracy", Quick: 300, Thorough: 5000, Run: d01Accuracy},
		core.Family{Name: "heavy", Quick: 400, Thorough: 8000, Run: d01Heavy},
		core.Family{Name: "refusals", Quick: 300, Thorough: 3000, Run: d01Refusals})
	core.Register("D02", "images decoded by every route and compared field by field by an independent parser, re-encoded and evolved; reference-library images built byte by byte",
		core.Family{Name: "roundtrip", Quick: 3000, Thorough: 40000, Run: d02Round},
		core.Family{Name: "reference", Quick: 3000, Thorough: 40000, Run: d02Reference},
		core.Family{Name: "heavy", Quick: 400, Thorough: 8000, Run: d02Heavy})
	core.Assume("D01", "finite values of magnitude up to 1e300, and below 1e308 when multiplied with the total weight", "comparisons of interpolated values allow a relative rounding error of 1e-12")
}

// tdImage is a t-digest image as read by an independent parser.
type tdImage struct {
	k             uint16
	empty, single bool
	reverse       bool
	min, max      float64
	means         []float64
	weights       []uint64
	buffer        []float64
}

func tdParse(t *T, b []byte) *tdImage {
	le := binary.LittleEndian
	f := func(o int) float64 { return math.Float64frombits(le.Uint64(b[o:])) }
	t.Check(len(b) >= 8, "image", "image of %d bytes", len(b))
	t.Check(b[1] == 1 && b[2] == 20 && b[6] == 0 && b[7] == 0 && b[5]&^7 == 0, "image", "preamble % x", b[:8])
	im := &tdImage{k: le.Uint16(b[3:]), empty: b[5]&1 != 0, single: b[5]&2 != 0, reverse: b[5]&4 != 0}
	if im.empty {
		t.Check(b[0] == 1 && len(b) == 8 && !im.single, "image", "empty image % x", b)
		return im
	}
	if im.single {
		t.Check(b[0] == 1 && len(b) == 16, "image", "single image % x", b)
		im.min = f(8)
		im.max = im.min
		im.means, im.weights = []float64{im.min}, []uint64{1}
		return im
	}
	t.Check(b[0] == 2 && len(b) >= 32, "image", "image of %d bytes, preamble % x", len(b), b[:8])
	nc, nb := int(le.Uint32(b[8:])), int(le.Uint32(b[12:]))
	t.Check(len(b) == 32+16*nc+8*nb, "image", "%d centroids and %d buffered in %d bytes", nc, nb, len(b))
	im.min, im.max = f(16), f(24)
	for i := 0; i < nc; i++ {
		im.means = append(im.means, f(32+16*i))
		im.weights = append(im.weights, le.Uint64(b[40+16*i:]))
	}
	for i := 0; i < nb; i++ {
		im.buffer = append(im.buffer, f(32+16*nc+8*i))
	}
	return im
}

func tdStream(t *T, n int) ([]float64, string) {
	keys, name := keyStream(t, n)
	out := make([]float64, n)
	kind := t.IntN(7)
	mul := []float64{1, -1, 1e-3, 1e280, 5e-324, 0.1, 1}[kind]
	for i, x := range keys {
		out[i] = float64(x) * mul
		if kind == 6 {
			out[i] += 1e15
		}
	}
	return out, fmt.Sprintf("%s*%g", name, mul)
}

// tdK picks a compression parameter.
func tdK(t *T) uint16 {
	switch t.IntN(5) {
	case 0:
		return uint16(10 + t.IntN(25))
	case 1:
		return 10
	case 2:
		return 200
	}
	return uint16(10 + t.IntN(300))
}

func tdClose(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-12*(math.Abs(a)+math.Abs(b))+2e-323
}

// tdAnswers checks every answer of a digest against its extremes and weight,
// and answers against each other.
func tdAnswers(t *T, d *tdigest.Double, lo, hi float64, w uint64, probes []float64) {
	tdAnswersSlack(t, d, lo, hi, w, probes, 1e-12)
}

// tdAnswersSlack is tdAnswers with a given slack on the monotonicity of ranks.
func tdAnswersSlack(t *T, d *tdigest.Double, lo, hi float64, w uint64, probes []float64, slack float64) {
	t.Check(!d.IsEmpty() && d.TotalWeight() == w, "weight", "total weight %d, %d values fed", d.TotalWeight(), w)
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	t.Check(e1 == nil && e2 == nil && mn == lo && mx == hi, "extremes", "min %v max %v (%v %v), fed [%v, %v]", mn, mx, e1, e2, lo, hi)

	ps := slices.Clone(probes)
	ps = append(ps, lo, hi, math.Nextafter(lo, math.Inf(-1)), math.Nextafter(hi, math.Inf(1)), math.Inf(1), math.Inf(-1), 0)
	for _, p := range probes {
		if t.IntN(4) == 0 {
			ps = append(ps, math.Nextafter(p, math.Inf(-1)), math.Nextafter(p, math.Inf(1)), p+(hi-p)*t.Float64())
		}
	}
	sort.Float64s(ps)
	ranks := make([]float64, len(ps))
	order := t.Perm(len(ps)) // the order of questions must not matter
	for _, i := range order {
		r, err := d.Rank(ps[i])
		t.NoErr(err, "rank")
		ranks[i] = r
	}
	for i, p := range ps {
		r := ranks[i]
		t.Check(r >= 0 && r <= 1, "rankrange", "rank(%v)=%v", p, r)
		if p < lo {
			t.Check(r == 0, "rankends", "rank(%v)=%v below the minimum %v", p, r, lo)
		}
		if p > hi {
			t.Check(r == 1, "rankends", "rank(%v)=%v above the maximum %v", p, r, hi)
		}
		if i > 0 {
			t.Check(r >= ranks[i-1]-slack, "rankmonotone", "rank(%v)=%v < rank(%v)=%v", p, r, ps[i-1], ranks[i-1])
			if ps[i] == ps[i-1] {
				t.Check(r == ranks[i-1], "rankrepeat", "rank(%v) was %v and %v", p, r, ranks[i-1])
			}
		}
	}
	tdMass(t, d, ps, ranks, slack)
	// CDF and PMF
	sp := slices.Compact(slices.Clone(ps))
	if len(sp) > 0 {
		cut := t.IntN(len(sp))
		sp = sp[cut:]
	}
	keep := slices.Clone(sp)
	cdf, err := d.CDF(sp)
	t.NoErr(err, "cdf")
	pmf, err := d.PMF(sp)
	t.NoErr(err, "pmf")
	t.Check(len(cdf) == len(sp)+1 && len(pmf) == len(sp)+1, "cdflen", "%d points, %d cdf, %d pmf", len(sp), len(cdf), len(pmf))
	t.Check(slices.Equal(keep, sp), "cdfargs", "split points changed")
	sum := 0.0
	for i, c := range cdf {
		want := 1.0
		if i < len(sp) {
			want, _ = d.Rank(sp[i])
		}
		t.Check(c == want, "cdf", "cdf[%d]=%v, rank %v", i, c, want)
		sum += pmf[i]
		t.Check(math.Abs(sum-want) <= 1e-9 && pmf[i] >= -slack, "pmf", "pmf[%d]=%v sums to %v, cdf %v", i, pmf[i], sum, want)
	}
	// quantiles
	rs := []float64{0, 1, 0.5, 1e-9, 1 - 1e-9}
	for i := 0; i < 40; i++ {
		rs = append(rs, t.Float64())
	}
	for i := 0; i < 20; i++ {
		x := t.Float64()
		rs = append(rs, x*x*x*x/4, 1-x*x*x*x/4, float64(t.IntN(int(min(w, 1e6))+1))/float64(w))
	}
	for i := uint64(0); i < min(w, 6); i++ {
		for _, f := range []float64{0, 0.25, 0.5, 0.75} {
			rs = append(rs, min(1, (float64(i)+f)/float64(w)), max(0, 1-(float64(i)+f)/float64(w)))
		}
	}
	sort.Float64s(rs)
	qs := make([]float64, len(rs))
	for _, i := range t.Perm(len(rs)) {
		q, err := d.Quantile(rs[i])
		t.NoErr(err, "quantile")
		qs[i] = q
	}
	for i, r := range rs {
		q := qs[i]
		t.Check(q >= lo && q <= hi || tdClose(q, lo) || tdClose(q, hi), "quantilerange", "quantile(%v)=%v outside [%v, %v]", r, q, lo, hi)
		if i > 0 {
			t.Check(q >= qs[i-1] || tdClose(q, qs[i-1]), "quantilemonotone", "quantile(%v)=%v < quantile(%v)=%v", r, q, rs[i-1], qs[i-1])
		}
		// rank inverts quantile up to the weight of one value
		e := max(1e-12*(math.Abs(q)+1e-290), 2e-323) * 4
		a, _ := d.Rank(q - e)
		b, _ := d.Rank(q + e)
		slack := 1.01/float64(w) + 1e-9 + slack
		t.Check(a-slack <= r && r <= b+slack, "inverse", "quantile(%v)=%v has rank %v..%v", r, q, a, b)
	}
	if w > 1 {
		t.Check(qs[0] == lo && qs[len(qs)-1] == hi, "quantileends", "quantile(0)=%v quantile(1)=%v, fed [%v, %v]", qs[0], qs[len(qs)-1], lo, hi)
	}
	t.EvN("answers checked", len(ps)+len(rs)+2*len(cdf))
}

// tdMass checks ranks against the mass of the centroids around the value.
func tdMass(t *T, d *tdigest.Double, ps, ranks []float64, slack float64) {
	b, err := tdigest.EncodeDouble(d, false)
	t.NoErr(err, "encode")
	im := tdParse(t, b)
	if len(im.means) < 2 {
		return
	}
	cum := make([]float64, len(im.means)+1)
	for i, w := range im.weights {
		cum[i+1] = cum[i] + float64(w)
	}
	n := cum[len(im.means)]
	for i, p := range ps {
		l := sort.SearchFloat64s(im.means, p)                                        // centroids below p
		u := sort.Search(len(im.means), func(i int) bool { return im.means[i] > p }) // at or below
		lo, hi := cum[l], cum[u]
		if l == u { // between two centroids: between their centres
			if l == 0 || l == len(im.means) {
				continue
			}
			lo, hi = (cum[l-1]+cum[l])/2, (cum[l]+cum[l+1])/2
		}
		t.Check(ranks[i] >= lo/n-slack && ranks[i] <= hi/n+slack, "rankmass", "rank(%v)=%v, the centroids around it hold %v..%v", p, ranks[i], lo/n, hi/n)
		if u-l > 1 {
			t.Ev("ranks of values with several centroids")
		}
	}
}

// tdHeavy makes a digest of a weight only merging can reach.
func tdHeavy(t *T) (d *tdigest.Double, lo, hi float64, w uint64, vals []float64) {
	k := uint16(10 + t.IntN(100))
	d, vals = tdGrow(t, k, 1+t.IntN(300), 0)
	lo, hi = slices.Min(vals), slices.Max(vals)
	w = uint64(len(vals))
	if max(-lo, hi) > 1e280 {
		return nil, 0, 0, 0, nil // products with the weight overflow
	}
	top := uint64(1) << (30 + t.IntN(20))
	for w < top {
		switch t.IntN(4) {
		case 0: // a copy keeps its buffer, or not
			b, err := tdigest.EncodeDouble(d, t.IntN(2) == 0)
			t.NoErr(err, "encode")
			c, err := tdigest.DecodeDouble(b)
			t.NoErr(err, "decode")
			if t.IntN(2) == 0 {
				c, d = d, c
			}
			t.NoErr(d.Merge(c), "merge")
			w *= 2
		case 1:
			t.NoErr(d.Merge(d), "merge")
			w *= 2
		case 2: // into a fresh digest
			o, ov := tdGrow(t, uint16(10+t.IntN(100)), 1+t.IntN(50), 0)
			if max(-slices.Min(ov), slices.Max(ov)) > 1e280 {
				continue
			}
			t.NoErr(o.Merge(d), "merge")
			t.NoErr(d.Merge(o), "merge")
			w += w + uint64(len(ov))
			lo, hi = min(lo, slices.Min(ov)), max(hi, slices.Max(ov))
		case 3:
			for range t.IntN(50) {
				v := vals[t.IntN(len(vals))]
				t.NoErr(d.Update(v), "update")
				w++
			}
		}
		t.Check(d.TotalWeight() == w, "weight", "total weight %d, %d values fed", d.TotalWeight(), w)
	}
	t.Desc("k=%d weight %d", k, w)
	t.Sig(k, w)
	t.NonTrivial()
	return
}

func d01Heavy(t *T) {
	d, lo, hi, w, vals := tdHeavy(t)
	if d == nil {
		return
	}
	tdAnswersSlack(t, d, lo, hi, w, []float64{lo, hi, vals[t.IntN(len(vals))]}, 1e-9)
	b, err := tdigest.EncodeDouble(d, true)
	t.NoErr(err, "encode")
	c, err := tdigest.DecodeDouble(b)
	t.NoErr(err, "decode")
	tdAnswersSlack(t, c, lo, hi, w, []float64{lo, hi}, 1e-9)
}

// d02Heavy: its images, by either route, with or without the buffer.
func d02Heavy(t *T) {
	d, lo, hi, w, _ := tdHeavy(t)
	if d == nil {
		return
	}
	for _, wb := range []bool{true, false} {
		img, err := tdigest.EncodeDouble(d, wb)
		t.NoErr(err, "encode")
		t.Check(len(img) == d.SerializedSizeBytes(wb), "size", "advertised %d, encoded %d (with buffer %v)", d.SerializedSizeBytes(wb), len(img), wb)
		var buf bytes.Buffer
		enc := tdigest.NewDoubleEncoder(&buf, wb)
		t.NoErr(enc.Encode(d), "encoder")
		tdSameImage(t, "encoder", img, buf.Bytes())
		im := tdParse(t, img)
		sum := uint64(len(im.buffer))
		for _, x := range im.weights {
			sum += x
		}
		t.Check(sum == w, "weights", "the image's weights add up to %d of %d", sum, w)
		c1, err := tdigest.DecodeDouble(img)
		t.NoErr(err, "decode")
		dec := tdigest.NewDoubleDecoder()
		c2, err := dec.Decode(&buf)
		t.NoErr(err, "decoder")
		for _, c := range []*tdigest.Double{c1, c2} {
			b, err := tdigest.EncodeDouble(c, true)
			t.NoErr(err, "encode")
			tdSameImage(t, "reencode", img, b)
		}
		tdAnswersSlack(t, c1, lo, hi, w, []float64{lo, hi}, 1e-9)
		t.Ev("heavy images")
	}
}

// tdCentroids checks the content of an image against the fed values.
func tdCentroids(t *T, im *tdImage, vals []float64) {
	k := int(im.k)
	limit := 2*k + 10
	if k < 30 {
		limit = 2*k + 30
	}
	t.Check(len(im.means) <= limit, "capacity", "k=%d: %d centroids", k, len(im.means))
	var w uint64
	sum, abs, tot := 0.0, 0.0, 0.0
	scale := 0.0
	for _, v := range vals {
		scale = max(scale, math.Abs(v))
	}
	if scale == 0 {
		scale = 1
	}
	for i, m := range im.means {
		w += im.weights[i]
		sum += m / scale * float64(im.weights[i])
		t.Check(im.weights[i] > 0, "centroidweight", "centroid %d has no weight", i)
		if i > 0 {
			t.Check(m >= im.means[i-1], "centroidorder", "centroid %d: %v after %v", i, m, im.means[i-1])
		}
	}
	w += uint64(len(im.buffer))
	for _, v := range im.buffer {
		sum += v / scale
	}
	for _, v := range vals {
		tot += v / scale
		abs += math.Abs(v / scale)
	}
	t.Check(w == uint64(len(vals)), "imageweight", "image weighs %d, %d values fed", w, len(vals))
	t.Check(math.Abs(sum-tot) <= 1e-9*abs+float64(len(vals))*1e-307/scale, "mean", "centroids sum to %v, values to %v (scaled by %v)", sum, tot, scale)
	if n := len(im.means); n > 0 && len(im.buffer) == 0 {
		t.Check(im.weights[0] == 1 && im.weights[n-1] == 1 && im.means[0] == im.min && im.means[n-1] == im.max, "ends",
			"end centroids %v (weight %d) and %v (weight %d), extremes %v %v", im.means[0], im.weights[0], im.means[n-1], im.weights[n-1], im.min, im.max)
	}
}

// tdGrow feeds a digest by a random history and returns it with all its values.
func tdGrow(t *T, k uint16, n, depth int) (*tdigest.Double, []float64) {
	d, err := tdigest.NewDouble(k)
	t.NoErr(err, "new")
	var vals []float64
	for len(vals) < n {
		c := 1 + t.IntN(max(1, n))
		c = min(c, n-len(vals))
		switch t.IntN(6) {
		case 0, 1, 2:
			xs, _ := tdStream(t, c)
			for _, x := range xs {
				t.NoErr(d.Update(x), "update")
			}
			vals = append(vals, xs...)
			t.Ev("chunks fed")
		case 3, 4:
			if depth == 0 {
				continue
			}
			kk := k
			if t.IntN(2) == 0 {
				kk = tdK(t)
			}
			o, ov := tdGrow(t, kk, c, depth-1)
			snap, err := tdigest.EncodeDouble(o, true)
			t.NoErr(err, "encode")
			t.NoErr(d.Merge(o), "merge")
			again, err := tdigest.EncodeDouble(o, true)
			t.NoErr(err, "encode")
			t.Check(bytes.Equal(snap, again), "mergearg", "merging changed the merged digest")
			vals = append(vals, ov...)
			t.Ev("merges")
			if t.IntN(3) == 0 { // the argument stays usable and separate
				mark, _ := tdigest.EncodeDouble(d, true)
				for i := 0; i < 5000; i += 37 {
					t.NoErr(o.Update(float64(i)), "update")
				}
				_, _ = o.Rank(0)
				now, _ := tdigest.EncodeDouble(d, true)
				t.Check(bytes.Equal(mark, now), "sharing", "feeding the merged digest changed the result")
			}
		case 5:
			if d.IsEmpty() {
				continue
			}
			if t.IntN(2) == 0 {
				_, err := d.Rank(float64(t.IntN(100)))
				t.NoErr(err, "rank")
			} else {
				b, err := tdigest.EncodeDouble(d, t.IntN(2) == 0)
				t.NoErr(err, "encode")
				d, err = tdigest.DecodeDouble(b)
				t.NoErr(err, "decode")
			}
		}
	}
	return d, vals
}

func tdSize(t *T, k uint16) int {
	switch t.IntN(6) {
	case 0:
		return 1 + t.IntN(5)
	case 1:
		return 1 + t.IntN(int(k))
	case 2:
		return int(k)*8 + t.IntN(200)
	case 3:
		return 1 + t.IntN(20*int(k))
	}
	return 1 + t.IntN(3000)
}

func d01History(t *T) {
	k := tdK(t)
	n := tdSize(t, k)
	d, vals := tdGrow(t, k, n, 2)
	t.Check(d.K() == k, "k", "k %d of %d", d.K(), k)
	lo, hi := slices.Min(vals), slices.Max(vals)
	var probes []float64
	for i := 0; i < 25; i++ {
		probes = append(probes, vals[t.IntN(len(vals))])
	}
	b, err := tdigest.EncodeDouble(d, true)
	t.NoErr(err, "encode")
	im := tdParse(t, b)
	tdCentroids(t, im, vals)
	t.Check(im.min == lo && im.max == hi, "imageextremes", "image [%v, %v], fed [%v, %v]", im.min, im.max, lo, hi)
	tdAnswers(t, d, lo, hi, uint64(len(vals)), probes)
	b, err = tdigest.EncodeDouble(d, true)
	t.NoErr(err, "encode")
	tdCentroids(t, tdParse(t, b), vals)
	tdAnswers(t, d, lo, hi, uint64(len(vals)), probes[:3])
	b2, err := tdigest.EncodeDouble(d, true)
	t.NoErr(err, "encode")
	t.Check(bytes.Equal(b, b2), "queries", "asking questions changed the digest")
	// self-merge doubles the weight
	if t.IntN(5) == 0 {
		t.NoErr(d.Merge(d), "selfmerge")
		tdAnswers(t, d, lo, hi, 2*uint64(len(vals)), probes[:3])
	}
	t.Desc("k=%d n=%d centroids=%d", k, len(vals), len(im.means))
	t.Sig(k, len(vals), len(im.means), vals[0])
	if len(vals) > int(k) {
		t.NonTrivial()
	}
}

// d01Exact: up to k/2 values nothing can be merged, so all answers are exact.
func d01Exact(t *T) {
	k := uint16(10 + t.IntN(400))
	n := 1 + t.IntN(int(k)/2)
	vals, kind := tdStream(t, n)
	d, err := tdigest.NewDouble(k)
	t.NoErr(err, "new")
	parts := []*tdigest.Double{d}
	for i := t.IntN(3); i > 0; i-- {
		p, _ := tdigest.NewDouble(tdK(t))
		parts = append(parts, p)
	}
	// a part may merge values by itself only when its own k is small
	fed := 0
	for _, v := range vals {
		p := parts[t.IntN(len(parts))]
		if p != d && (int(p.TotalWeight()) >= int(p.K())/2) {
			p = d
		}
		t.NoErr(p.Update(v), "update")
		fed++
		if t.IntN(10) == 0 && !d.IsEmpty() {
			_, err := d.Quantile(0.5)
			t.NoErr(err, "quantile")
		}
	}
	for _, p := range parts[1:] {
		if !p.IsEmpty() {
			t.NoErr(d.Merge(p), "merge")
		}
	}
	s := slices.Clone(vals)
	sort.Float64s(s)
	probes := append(slices.Clone(s), s[0]-1, s[n-1]+1)
	for i := 0; i < 10; i++ {
		x := vals[t.IntN(n)]
		probes = append(probes, math.Nextafter(x, math.Inf(1)))
	}
	for _, p := range probes {
		less := sort.SearchFloat64s(s, p)
		leq := sort.Search(n, func(i int) bool { return s[i] > p })
		r, err := d.Rank(p)
		t.NoErr(err, "rank")
		if leq > less || p < s[0] || p > s[n-1] {
			want := (float64(less) + float64(leq-less)/2) / float64(n)
			t.Check(math.Abs(r-want) <= 1e-12, "rank", "k=%d n=%d rank(%v)=%v, exactly %v", k, n, p, r, want)
		} else {
			t.Check(math.Abs(r*float64(n)-float64(less)) <= 0.5+1e-9, "rankbetween", "k=%d n=%d rank(%v)=%v, %d below", k, n, p, r, less)
		}
	}
	for i := 0; i < 60; i++ {
		r := t.Float64()
		if i%4 == 0 {
			r = (float64(t.IntN(n)) + []float64{0.1, 0.3, 0.5, 0.7, 0.9}[t.IntN(5)]) / float64(n)
		}
		q, err := d.Quantile(r)
		t.NoErr(err, "quantile")
		x := r * float64(n)
		a, b := int(math.Floor(x-1e-9)), int(math.Floor(x+1e-9))
		a, b = max(0, min(a, n-1)), max(0, min(b, n-1))
		t.Check(q == s[a] || q == s[b], "quantile", "k=%d n=%d quantile(%v)=%v, value %d is %v", k, n, r, q, a, s[a])
	}
	t.EvN("exact answers", len(probes)+60)
	t.Desc("k=%d n=%d %s parts=%d", k, n, kind, len(parts))
	t.Sig(k, n, kind, vals[0])
	if n > 2 {
		t.NonTrivial()
	}
}

func d01Accuracy(t *T) {
	k := []uint16{10, 20, 50, 100, 200, 400}[t.IntN(6)]
	n := int(k) * (20 + t.IntN(600))
	n = min(n, 60000)
	kind := t.IntN(7)
	order := k03Order(t, n, kind)
	parts := []int{1, 1, 2, 7}[t.IntN(4)]
	ds := make([]*tdigest.Double, parts)
	for i := range ds {
		ds[i], _ = tdigest.NewDouble(k)
	}
	shape := t.IntN(3)
	if shape == 1 && kind > 2 { // strongly skewed values in adversarial orders are outside any promise
		shape = 2
	}
	f := func(i int) float64 {
		switch shape {
		case 1:
			return math.Exp(float64(i) / float64(n) * 4)
		case 2:
			return math.Log(1 + float64(i))
		}
		return float64(i)
	}
	for i, o := range order {
		p := ds[i%parts]
		if i&1 == 0 && parts > 1 {
			p = ds[i*parts/n]
		}
		t.NoErr(p.Update(f(o)), "update")
	}
	for _, p := range ds[1:] {
		if !p.IsEmpty() {
			t.NoErr(ds[0].Merge(p), "merge")
		}
	}
	d := ds[0]
	worst := 0.0
	cluster := func(q float64) float64 {
		return q*(1-q)*(4*math.Log(float64(n)/(2*float64(k)))+24)/(2*float64(k)) + 2/float64(n)
	}
	for i := 0; i < 200; i++ {
		x := t.Float64()
		if i%2 == 0 {
			x = x * x * x * x
			if i%4 == 0 {
				x = 1 - x
			}
		}
		o := min(n-1, int(x*float64(n)))
		r, err := d.Rank(f(o))
		t.NoErr(err, "rank")
		truth := (float64(o) + 0.5) / float64(n)
		lim := max(cluster(truth), 0)
		worst = max(worst, math.Abs(r-truth)/lim)
		t.Check(math.Abs(r-truth) <= tdLimit*lim, "rank", "k=%d n=%d order %d shape %d parts %d: rank of value %d is %v, truly %v (cluster %v)", k, n, kind, shape, parts, o, r, truth, lim)
		q, err := d.Quantile(truth)
		t.NoErr(err, "quantile")
		at := float64(sort.Search(n, func(i int) bool { return f(i) >= q*(1-1e-12) })) / float64(n)
		worst = max(worst, math.Abs(at-truth)/lim)
		t.Check(math.Abs(at-truth) <= tdLimit*lim, "quantile", "k=%d n=%d order %d shape %d parts %d: quantile(%v)=%v has rank %v (cluster %v)", k, n, kind, shape, parts, truth, q, at, lim)
	}
	t.EvN("ranks measured", 400)
	t.Desc("k=%d n=%d order=%d shape=%d parts=%d worst error/cluster=%.2f", k, n, kind, shape, parts, worst)
	t.Sig(k, n, kind, shape, parts)
	t.NonTrivial()
}

// tdLimit is the accepted rank error in units of the largest cluster allowed there.
const tdLimit = 2.5

func d01Refusals(t *T) {
	if k := uint16(t.IntN(10)); true {
		_, err := tdigest.NewDouble(k)
		t.Check(errors.Is(err, tdigest.ErrInvalidK), "k", "NewDouble(%d): %v", k, err)
	}
	d, err := tdigest.NewDouble(tdK(t))
	t.NoErr(err, "new")
	check := func() {
		snap, _ := tdigest.EncodeDouble(d, true)
		t.Check(errors.Is(d.Update(math.NaN()), tdigest.ErrNaN), "nan", "Update(NaN) accepted")
		t.Check(errors.Is(d.Update(math.Inf(1)), tdigest.ErrInfinity) && errors.Is(d.Update(math.Inf(-1)), tdigest.ErrInfinity), "inf", "Update(Inf) accepted")
		o, _ := tdigest.NewDouble(100)
		if err := d.Merge(o); err != nil {
			t.Check(errors.Is(err, tdigest.ErrEmpty), "mergeempty", "merging an empty digest: %v", err)
		}
		b, _ := tdigest.EncodeDouble(d, true)
		if len(b) == len(snap) || !d.IsEmpty() { // merging nothing may compress, but changes no total
			t.Check(d.IsEmpty() == (len(snap) == 8), "mergeempty", "refused values changed the digest")
		}
	}
	check()
	_, e1 := d.MinValue()
	_, e2 := d.MaxValue()
	_, e3 := d.Rank(0)
	_, e4 := d.Quantile(0.5)
	_, e5 := d.CDF([]float64{0})
	_, e6 := d.PMF([]float64{0})
	for i, e := range []error{e1, e2, e3, e4, e5, e6} {
		t.Check(errors.Is(e, tdigest.ErrEmpty), "empty", "question %d on an empty digest: %v", i, e)
	}
	t.Check(d.IsEmpty() && d.TotalWeight() == 0, "empty", "not empty")
	vals, _ := tdStream(t, 1+t.IntN(1000))
	for _, v := range vals {
		t.NoErr(d.Update(v), "update")
	}
	check()
	t.Check(d.TotalWeight() == uint64(len(vals)), "weight", "weight %d of %d", d.TotalWeight(), len(vals))
	for _, r := range []float64{-1e-300, math.Nextafter(1, 2), math.Inf(1), math.Inf(-1), math.NaN()} {
		q, err := d.Quantile(r)
		t.Check(err != nil, "badrank", "Quantile(%v)=%v", r, q)
	}
	_, err = d.Rank(math.NaN())
	t.Check(errors.Is(err, tdigest.ErrNaN), "ranknan", "Rank(NaN): %v", err)
	for _, sp := range [][]float64{{1, 1}, {2, 1}, {math.NaN()}, {1, math.NaN()}} {
		_, e1 := d.CDF(sp)
		_, e2 := d.PMF(sp)
		t.Check(e1 != nil && e2 != nil, "splitpoints", "split points %v accepted", sp)
	}
	t.Sig(len(vals), vals[0])
	t.NonTrivial()
}

func tdSameImage(t *T, key string, a, b []byte) {
	t.Check(bytes.Equal(a, b), key, "images differ: %d and %d bytes\n% x\n% x", len(a), len(b), trim(a, 80), trim(b, 80))
}

func trim(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func d02Round(t *T) {
	k := tdK(t)
	n := tdSize(t, k)
	if t.IntN(10) == 0 {
		n = t.IntN(3)
	}
	d, vals := tdGrow(t, k, n, 1)
	wb := t.IntN(2) == 0
	size := d.SerializedSizeBytes(wb)
	img, err := tdigest.EncodeDouble(d, wb)
	t.NoErr(err, "encode")
	t.Check(len(img) == size, "size", "advertised %d, encoded %d (with buffer %v)", size, len(img), wb)
	var buf bytes.Buffer
	enc := tdigest.NewDoubleEncoder(&buf, wb)
	t.NoErr(enc.Encode(d), "encoder")
	tdSameImage(t, "encoder", img, buf.Bytes())
	im := tdParse(t, img)
	t.Check(im.k == k && im.empty == (n == 0) && im.single == (n == 1), "header", "k %d empty %v single %v for n=%d", im.k, im.empty, im.single, n)
	if !wb {
		t.Check(len(im.buffer) == 0, "buffer", "%d buffered values in an image without buffer", len(im.buffer))
	}
	tdCentroids(t, im, vals)

	raw := slices.Clone(img)
	c1, err := tdigest.DecodeDouble(raw)
	t.NoErr(err, "decode")
	for i := range raw {
		raw[i] = 0xa5
	}
	// two images one after the other in a stream
	r := bytes.NewReader(append(slices.Clone(img), img...))
	dec := tdigest.NewDoubleDecoder()
	c2, err := dec.Decode(r)
	t.NoErr(err, "decoder")
	c3, err := dec.Decode(r)
	t.NoErr(err, "decoder2")
	t.Check(r.Len() == 0, "consumed", "%d bytes left", r.Len())
	copies := []*tdigest.Double{c1, c2, c3}
	for i, c := range copies {
		t.Check(c.K() == k && c.IsEmpty() == (n == 0) && c.TotalWeight() == uint64(n), "fields", "copy %d: k %d empty %v weight %d, n=%d", i, c.K(), c.IsEmpty(), c.TotalWeight(), n)
		b, err := tdigest.EncodeDouble(c, true)
		t.NoErr(err, "encode")
		tdSameImage(t, "reencode", img, b)
	}
	if n > 0 {
		lo, hi := slices.Min(vals), slices.Max(vals)
		for _, c := range copies[:2] {
			tdAnswers(t, c, lo, hi, uint64(n), vals[:min(n, 5)])
		}
		c1, _ = tdigest.DecodeDouble(img)
		copies[0] = c1
		copies[1], _ = tdigest.DecodeDouble(img)
	}
	// same future
	more, _ := tdStream(t, 1+t.IntN(12*int(k)))
	for _, x := range more {
		for _, c := range copies {
			t.NoErr(c.Update(x), "update")
		}
		t.NoErr(d.Update(x), "update")
	}
	if t.IntN(2) == 0 {
		o, ov := tdGrow(t, tdK(t), 1+t.IntN(500), 0)
		for _, c := range append(copies, d) {
			t.NoErr(c.Merge(o), "merge")
		}
		more = append(more, ov...)
	}
	want, err := tdigest.EncodeDouble(d, true)
	t.NoErr(err, "encode")
	all := append(slices.Clone(vals), more...)
	for i, c := range copies {
		b, err := tdigest.EncodeDouble(c, true)
		t.NoErr(err, "encode")
		if n != 1 {
			tdSameImage(t, "future", want, b)
		}
		tdCentroids(t, tdParse(t, b), all)
		if i == 0 {
			tdAnswers(t, c, slices.Min(all), slices.Max(all), uint64(len(all)), all[:min(len(all), 3)])
		}
	}
	t.Ev("round trips")
	t.Desc("k=%d n=%d buffer=%v centroids=%d buffered=%d more=%d", k, n, wb, len(im.means), len(im.buffer), len(more))
	t.Sig(k, n, wb, len(im.means), len(im.buffer))
	t.NonTrivial()
}

// d02Reference builds images of the reference t-digest library.
func d02Reference(t *T) {
	form := t.IntN(3) // 0 verbose, 1 small, 2 the native form with heavy end centroids
	n := 1 + t.IntN(60)
	k := tdK(t)
	means := make([]float64, n)
	for i := range means {
		means[i] = t.NormFloat64() * 100
		if t.IntN(4) == 0 {
			means[i] = float64(t.IntN(5))
		}
	}
	sort.Float64s(means)
	weights := make([]float64, n)
	var w uint64
	for i := range weights {
		weights[i] = float64(1 + t.IntN(1+t.IntN(20)))
		if (i == 0 || i == n-1) && t.IntN(2) == 0 {
			weights[i] = 1
		}
		w += uint64(weights[i])
	}
	if t.IntN(3) == 0 { // more than a stream could reach
		f := uint64(1) << t.IntN(40)
		w *= f
		for i := range weights {
			weights[i] *= float64(f)
		}
	}
	if form == 1 {
		for i := range means {
			means[i] = float64(float32(means[i]))
		}
	}
	lo, hi := means[0], means[n-1]
	if weights[0] > 1 && n > 1 {
		lo -= float64(t.IntN(3)) * 0.37
	}
	if weights[n-1] > 1 && n > 1 {
		hi += float64(t.IntN(3)) * 0.37
	}
	be := binary.BigEndian
	var b []byte
	f8 := func(x float64) { b = be.AppendUint64(b, math.Float64bits(x)) }
	f4 := func(x float64) { b = be.AppendUint32(b, math.Float32bits(float32(x))) }
	switch form {
	case 0:
		b = be.AppendUint32(b, 1)
		f8(lo)
		f8(hi)
		f8(float64(k))
		b = be.AppendUint32(b, uint32(n))
		for i := range means {
			f8(weights[i])
			f8(means[i])
		}
	case 1:
		b = be.AppendUint32(b, 2)
		f8(lo)
		f8(hi)
		f4(float64(k))
		b = be.AppendUint16(b, uint16(2*k))
		b = be.AppendUint16(b, uint16(min(10*int(k), 32767)))
		b = be.AppendUint16(b, uint16(n))
		for i := range means {
			f4(weights[i])
			f4(means[i])
		}
	default:
		le := binary.LittleEndian
		b = []byte{2, 1, 20, byte(k), byte(k >> 8), byte(t.IntN(2) * 4), 0, 0}
		b = le.AppendUint32(b, uint32(n))
		b = le.AppendUint32(b, 0)
		b = le.AppendUint64(b, math.Float64bits(lo))
		b = le.AppendUint64(b, math.Float64bits(hi))
		for i := range means {
			b = le.AppendUint64(b, math.Float64bits(means[i]))
			b = le.AppendUint64(b, uint64(weights[i]))
		}
	}
	d, err := tdigest.DecodeDouble(b)
	t.NoErr(err, "decode")
	r := bytes.NewReader(b)
	dec := tdigest.NewDoubleDecoder()
	d2, err := dec.Decode(r)
	t.NoErr(err, "decoder")
	t.Check(r.Len() == 0, "consumed", "%d bytes left", r.Len())
	i1, _ := tdigest.EncodeDouble(d, true)
	i2, _ := tdigest.EncodeDouble(d2, true)
	tdSameImage(t, "routes", i1, i2)
	im := tdParse(t, i1)
	t.Check(im.k == k && im.min == lo && im.max == hi && (slices.Equal(im.means, means)), "content", "k %d [%v, %v] %v, image k %d [%v, %v] %v", im.k, im.min, im.max, im.means, k, lo, hi, means)
	for i := range weights {
		t.Check(im.weights[i] == uint64(weights[i]), "weights", "weight %d: %d, image %v", i, im.weights[i], weights[i])
	}
	if n > 1 || w == 1 {
		tdAnswers(t, d, lo, hi, w, means)
	}
	if form < 2 { // no digest has such a compression
		x := []float64{0, 9, 9.5, -1, -100, 65536, 70000, 65536 + 100, 1 << 32, 1 << 40, math.NaN(), math.Inf(1), math.Inf(-1)}[t.IntN(13)]
		bad := slices.Clone(b)
		if form == 0 {
			be.PutUint64(bad[20:], math.Float64bits(x))
		} else {
			be.PutUint32(bad[20:], math.Float32bits(float32(x)))
		}
		q, err := tdigest.DecodeDouble(bad)
		t.Check(err != nil, "compression", "a reference image with compression %v was read as k %v", x, q)
		_, err = dec.Decode(bytes.NewReader(bad))
		t.Check(err != nil, "compression", "a reference image with compression %v was read from a stream", x)
		t.Ev("compressions out of range refused")
	}
	// merging it keeps its extremes and weight
	o, ov := tdGrow(t, tdK(t), 1+t.IntN(300), 0)
	if t.IntN(2) == 0 {
		t.NoErr(o.Merge(d), "merge")
		d = o
	} else {
		t.NoErr(d.Merge(o), "merge")
	}
	lo, hi = min(lo, slices.Min(ov)), max(hi, slices.Max(ov))
	if n > 1 || w == 1 {
		// extremes no centroid holds any more may bend the rank by one value
		tdAnswersSlack(t, d, lo, hi, w+uint64(len(ov)), means, max(1e-12, 1/float64(w)))
	}
	t.Ev("reference images")
	t.Desc("form=%d k=%d centroids=%d weight=%d", form, k, n, w)
	t.Sig(form, k, n, w, lo)
	t.NonTrivial()
}
