package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"

	cm "github.com/apache/datasketches-go/count"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("M01", "exact totals of the fed stream compared with estimates and bounds of every item, of items never fed, and of merged sketches against one sketch fed everything",
		core.Family{Name: "stream", Quick: 12000, Thorough: 100000, Run: m01Stream},
		core.Family{Name: "merge", Quick: 10000, Thorough: 80000, Run: m01Merge},
		core.Family{Name: "error-rate", Quick: 24, Thorough: 240, Run: m01Rate},
		core.Family{Name: "sizing", Quick: 400, Thorough: 4000, Run: m01Sizing})
	core.Register("M02", "images read by an independent parser and by the library, compared answer by answer and evolved; damaged and foreign images",
		core.Family{Name: "roundtrip", Quick: 8000, Thorough: 60000, Run: m02Round},
		core.Family{Name: "refusal", Quick: 6000, Thorough: 40000, Run: m02Refuse})
	core.Assume("M01", "total weight below 2^62", "streams are chosen independently of the hash seeds")
}

// cmItem is one item in the form it is fed in.
type cmItem struct {
	kind int // 0 bytes, 1 uint64, 2 string
	b    []byte
}

func (it cmItem) u64() uint64 { return binary.LittleEndian.Uint64(it.b) }

func (it cmItem) update(s *cm.CountMinSketch, w int64) error {
	switch it.kind {
	case 1:
		return s.UpdateUint64(it.u64(), w)
	case 2:
		return s.UpdateString(string(it.b), w)
	}
	return s.Update(it.b, w)
}

func (it cmItem) est(s *cm.CountMinSketch) int64 {
	switch it.kind {
	case 1:
		return s.GetEstimateUint64(it.u64())
	case 2:
		return s.GetEstimateString(string(it.b))
	}
	return s.GetEstimate(it.b)
}

func (it cmItem) bounds(s *cm.CountMinSketch) (lb, ub int64) {
	if it.kind == 1 {
		return s.GetLowerBoundUint64(it.u64()), s.GetUpperBoundUint64(it.u64())
	}
	return s.GetLowerBound(it.b), s.GetUpperBound(it.b)
}

func cmMake(t *T) cmItem {
	switch t.IntN(4) {
	case 0:
		b := make([]byte, 1+t.IntN(40))
		for i := range b {
			b[i] = byte(t.IntN(3)) * 127
		}
		return cmItem{0, b}
	case 1:
		b := []byte(fmt.Sprintf("item-%d", t.IntN(1000)))
		return cmItem{2, b}
	case 2:
		return cmItem{1, ref.U64Bytes(t.Uint64() >> t.IntN(64))}
	}
	return cmItem{1, ref.U64Bytes(uint64(t.IntN(200)))}
}

// cmPool draws distinct items; the same bytes can be fed and asked in several forms.
func cmPool(t *T, n int) []cmItem {
	var out []cmItem
	seen := map[string]bool{}
	for i := 0; len(out) < n && i < 10*n; i++ {
		it := cmMake(t)
		if !seen[string(it.b)] {
			seen[string(it.b)] = true
			out = append(out, it)
		}
	}
	return out
}

func cmOther(t *T, it cmItem) cmItem {
	if len(it.b) == 8 {
		return cmItem{t.IntN(3), it.b}
	}
	return cmItem{2 * t.IntN(2), it.b}
}

func cmSeed(t *T) int64 {
	switch t.IntN(4) {
	case 0:
		return int64(t.IntN(100))
	case 1:
		return 9001
	case 2:
		return -int64(t.Uint64() >> 1 >> t.IntN(60))
	}
	return int64(t.Uint64() >> 1 >> t.IntN(60))
}

func cmShape(t *T) (int8, int32) {
	h := int8(1 + t.IntN(8))
	if t.IntN(12) == 0 {
		h = int8(1 + t.IntN(127))
	}
	b := int32(3 + t.IntN(60))
	switch t.IntN(8) {
	case 0:
		b = 3
	case 1:
		b = int32(3 + t.IntN(3000))
	}
	return h, b
}

func cmWeight(t *T) int64 {
	switch t.IntN(8) {
	case 0:
		return 0
	case 1:
		return int64(t.Uint64() >> (16 + t.IntN(40)))
	case 2, 3:
		return int64(1 + t.IntN(1000))
	}
	return 1
}

func cmCheck(t *T, s *cm.CountMinSketch, truth map[string]int64, total int64, items []cmItem, key string) {
	t.Check(s.GetTotalWeight() == total, key+"/total", "total weight %d, fed %d", s.GetTotalWeight(), total)
	relErr := s.GetRelativeError()
	t.Check(math.Abs(relErr-math.E/float64(s.GetNumBuckets())) < 1e-12, key+"/relerr", "relative error %v with %d buckets", relErr, s.GetNumBuckets())
	for _, it := range items {
		est := it.est(s)
		lb, ub := it.bounds(s)
		tr := truth[string(it.b)]
		t.Check(est >= tr, key+"/under", "item %x: estimate %d below the true %d", it.b, est, tr)
		t.Check(est <= total, key+"/over-total", "item %x: estimate %d above the total %d", it.b, est, total)
		t.Check(ub >= est && ub >= tr, key+"/upper", "item %x: upper bound %d, estimate %d, true %d", it.b, ub, est, tr)
		t.Check(lb <= est, key+"/lower", "item %x: lower bound %d above the estimate %d", it.b, lb, est)
		slack := relErr*float64(total)*(1+1e-9) + 1
		t.Check(float64(ub-est) <= slack, key+"/upper-wide", "item %x: upper bound %d further than the error %v from the estimate %d", it.b, ub, slack, est)
		t.Check(float64(ub-est) >= relErr*float64(total)*(1-1e-9)-1, key+"/upper-narrow", "item %x: upper bound %d nearer than the error %v to the estimate %d", it.b, ub, slack, est)
		o := cmOther(t, it)
		t.Check(o.est(s) == est, key+"/form", "item %x: estimate %d as form %d, %d as form %d", it.b, est, it.kind, o.est(s), o.kind)
		if est > tr {
			t.NonTrivial()
			t.Ev("overestimated")
		}
		t.Ev("answers")
	}
	t.Check(s.GetEstimate(nil) == 0 && s.GetEstimateString("") == 0, key+"/empty-item", "the empty item has an estimate")
}

// cmSole: with one hash row and collision-free placing the counts add up; in general every row adds up to the total.
func cmImage(t *T, s *cm.CountMinSketch) []byte {
	var b bytes.Buffer
	t.NoErr(s.Serialize(&b), "serialize")
	return b.Bytes()
}

// cmSeedOK avoids seeds whose hash is zero, which cannot be serialized.
func cmSeedOK(t *T) int64 {
	for {
		s := cmSeed(t)
		if ref.SeedHash(uint64(s)) != 0 {
			return s
		}
	}
}

func m01Stream(t *T) {
	h, b := cmShape(t)
	seed := cmSeed(t)
	s, err := cm.NewCountMinSketch(h, b, seed)
	t.NoErr(err, "new")
	t.Check(s.GetNumHashes() == h && s.GetNumBuckets() == b && s.GetSeed() == seed, "shape", "shape %d %d %d", s.GetNumHashes(), s.GetNumBuckets(), s.GetSeed())
	pool := cmPool(t, 1+t.IntN(80))
	n := t.IntN(300)
	fed := t.IntN(len(pool) + 1)
	truth := map[string]int64{}
	total := int64(0)
	t.Desc("count-min %dx%d seed %d, %d updates over %d of %d items", h, b, seed, n, fed, len(pool))
	t.Sig(h, b, seed, n, fed)
	for i := 0; i < n && fed > 0; i++ {
		it := pool[t.IntN(fed)]
		w := cmWeight(t)
		keep := slices.Clone(it.b)
		t.NoErr(cmOther(t, it).update(s, w), "update")
		t.Check(bytes.Equal(keep, it.b), "update-modified", "update changed the item")
		truth[string(it.b)] += w
		total += w
		t.Ev("updates")
		if t.IntN(40) == 0 {
			cmCheck(t, s, truth, total, []cmItem{pool[t.IntN(len(pool))]}, "stream")
		}
	}
	cmCheck(t, s, truth, total, pool, "stream")
}

func m01Merge(t *T) {
	h, b := cmShape(t)
	seed := cmSeedOK(t)
	pool := cmPool(t, 1+t.IntN(60))
	k := 2 + t.IntN(3)
	t.Desc("merge of %d count-min %dx%d seed %d", k, h, b, seed)
	t.Sig(h, b, seed, k)
	mk := func() *cm.CountMinSketch {
		s, err := cm.NewCountMinSketch(h, b, seed)
		t.NoErr(err, "new")
		return s
	}
	whole := mk()
	truth := map[string]int64{}
	total := int64(0)
	var parts []*cm.CountMinSketch
	for range k {
		p := mk()
		for range t.IntN(60) {
			it := pool[t.IntN(len(pool))]
			w := cmWeight(t)
			t.NoErr(it.update(p, w), "update")
			t.NoErr(it.update(whole, w), "update")
			truth[string(it.b)] += w
			total += w
		}
		if t.IntN(4) == 0 {
			d, err := p.Deserialize(cmImage(t, p), seed)
			t.NoErr(err, "decode")
			p = d
			t.Ev("decoded inputs")
		}
		parts = append(parts, p)
	}
	acc := parts[0]
	for _, p := range parts[1:] {
		img := cmImage(t, p)
		t.NoErr(acc.Merge(p), "merge")
		t.Check(bytes.Equal(img, cmImage(t, p)), "merge-modified-input", "merge changed its argument")
		t.Ev("merges")
	}
	cmCheck(t, acc, truth, total, pool, "merge")
	for _, it := range pool {
		t.Check(it.est(acc) == it.est(whole), "merge-differs", "item %x: %d after merging, %d in one sketch", it.b, it.est(acc), it.est(whole))
		al, au := it.bounds(acc)
		wl, wu := it.bounds(whole)
		t.Check(al == wl && au == wu, "merge-bounds", "item %x: bounds %d..%d after merging, %d..%d in one sketch", it.b, al, au, wl, wu)
	}
	// continue: the sketches must stay independent
	img := cmImage(t, parts[1])
	for range 5 {
		it := pool[t.IntN(len(pool))]
		t.NoErr(it.update(acc, 3), "update")
		truth[string(it.b)] += 3
		total += 3
	}
	cmCheck(t, acc, truth, total, pool, "continued")
	t.Check(bytes.Equal(img, cmImage(t, parts[1])), "merge-aliased", "updating the merged sketch changed an input")
	// refusals leave the sketch alone
	before := cmImage(t, acc)
	h2, b2, s2 := h, b, seed
	switch t.IntN(4) {
	case 0:
		h2 = h%127 + 1
	case 1:
		b2 = b + 1 + int32(t.IntN(5))
	case 2:
		s2 = seed ^ (1 << t.IntN(62))
	case 3: // same number of counters
		h2, b2 = 6, 10
		if h == 6 && b == 10 {
			h2, b2 = 10, 6
		}
	}
	if h2 == h && b2 == b && s2 == seed {
		return
	}
	o, err := cm.NewCountMinSketch(h2, b2, s2)
	t.NoErr(err, "new")
	t.NoErr(o.UpdateUint64(7, 5), "update")
	t.Check(acc.Merge(o) != nil, "merge-accepted", "merged %dx%d seed %d into %dx%d seed %d", h2, b2, s2, h, b, seed)
	t.Check(acc.Merge(acc) != nil, "self-merge", "merge with itself accepted")
	t.Check(bytes.Equal(before, cmImage(t, acc)), "refusal-changed", "a refused merge changed the sketch")
	t.Ev("refusals")
}

// m01Rate counts, over independently seeded sketches, how often the estimate of
// an item exceeds truth + relative error * total.
func m01Rate(t *T) {
	h := int8(1 + t.Idx%6)
	b := int32([]int{3, 14, 28, 100, 272, 1000}[t.IntN(6)])
	// heavy items each just above the error: a single collision in a row exceeds it
	m := int(float64(b) / math.E * 0.98)
	m = max(m, 1)
	base := t.Uint64() >> 1
	step := []uint64{1, 1, 2, 256, 0x9e3779b97f4a7c15}[t.IntN(5)]
	reps := 4000
	if t.Thorough() {
		reps = 20000
	}
	t.Desc("%d count-min %dx%d with %d equal items", reps, h, b, m)
	t.Sig(h, b, base, step)
	over, asked := 0, 0
	seed0 := int64(t.IntN(1 << 30))
	for r := range reps {
		s, err := cm.NewCountMinSketch(h, b, seed0+int64(r))
		t.NoErr(err, "new")
		for i := range m {
			t.NoErr(s.UpdateUint64(base+uint64(i)*step, 1000), "update")
		}
		limit := s.GetRelativeError() * float64(s.GetTotalWeight())
		q := base + uint64(m)*step
		tr := int64(0)
		if r%2 == 0 { // an item that was fed
			q = base + uint64(r/2%m)*step
			tr = 1000
		}
		if float64(s.GetEstimateUint64(q)-tr) > limit {
			over++
			t.NonTrivial()
		}
		asked++
	}
	t.EvN("over the error", over)
	t.EvN("answers", asked)
	p := math.Exp(-float64(h))
	tail := ref.BinomUpperTail(asked, over, p)
	t.Check(tail > 1e-10, "error-rate", "%d of %d estimates off by more than the error, advertised %.4g (tail %.3g)", over, asked, p, tail)
}

func m01Sizing(t *T) {
	re := math.Exp(-t.Float64() * 12)
	t.Sig(re)
	nb, err := cm.SuggestNumBuckets(re)
	t.NoErr(err, "suggest")
	t.Check(math.E/float64(nb) <= re*(1+1e-12), "buckets", "%d buckets for error %v", nb, re)
	t.Check(nb <= 3 || math.E/float64(nb-1) > re*(1-1e-12), "buckets-many", "%d buckets for error %v", nb, re)
	conf := 1 - math.Exp(-t.Float64()*35)
	if t.IntN(20) == 0 {
		conf = 1
	}
	nh, err := cm.SuggestNumHashes(conf)
	t.NoErr(err, "suggest")
	t.Desc("sizing for error %v confidence %v: %d x %d", re, conf, nh, nb)
	if conf > 1e-9 {
		t.Check(nh >= 1, "hashes", "%d hashes for confidence %v", nh, conf)
	}
	if conf < 1 {
		t.Check(math.Exp(-float64(nh)) <= (1-conf)*(1+1e-9), "hashes", "%d hashes for confidence %v", nh, conf)
		t.Check(math.Exp(-float64(nh)+1) >= (1-conf)*(1-1e-9), "hashes-many", "%d hashes for confidence %v", nh, conf)
	}
	if nb >= 3 && nh >= 1 && int64(nb)*int64(nh) < 1<<18 {
		s, err := cm.NewCountMinSketch(nh, nb, 1)
		t.NoErr(err, "new")
		t.Check(s.GetRelativeError() <= re*(1+1e-12), "relerr", "relative error %v for %v", s.GetRelativeError(), re)
		t.NonTrivial()
	}
	for _, bad := range []float64{0, -re, math.Inf(-1)} {
		_, err := cm.SuggestNumBuckets(bad)
		t.Check(err != nil, "bad-error", "relative error %v accepted", bad)
	}
	for _, bad := range []float64{-re, 1 + re, math.Inf(1)} {
		_, err := cm.SuggestNumHashes(bad)
		t.Check(err != nil, "bad-confidence", "confidence %v accepted", bad)
	}
	for _, bad := range [][2]int{{3, 2}, {3, 0}, {3, -5}, {4, 1 << 28}, {8, 1 << 29}, {127, math.MaxInt32}, {0, 10}, {-1, 10}} {
		s, err := cm.NewCountMinSketch(int8(bad[0]), int32(bad[1]), 1)
		t.Check(err != nil && s == nil, "bad-shape", "shape %v accepted", bad)
	}
	t.Ev("shapes")
}

type cmParsed struct {
	buckets  int32
	hashes   int8
	seedHash uint16
	empty    bool
	total    int64
	counters []int64
}

func cmParse(t *T, b []byte) (p cmParsed) {
	le := binary.LittleEndian
	t.Check(len(b) >= 16, "image", "image of %d bytes", len(b))
	t.Check(b[0] == 2 && b[1] == 1 && b[2] == 18 && b[3]&^1 == 0, "image", "header % x", b[:16])
	t.Check(le.Uint32(b[4:]) == 0 && b[15] == 0, "image", "unused bytes % x", b[:16])
	p.buckets = int32(le.Uint32(b[8:]))
	p.hashes = int8(b[12])
	p.seedHash = le.Uint16(b[13:])
	p.empty = b[3]&1 != 0
	if p.empty {
		t.Check(len(b) == 16, "image", "empty image of %d bytes", len(b))
		return
	}
	t.Check(len(b) == 24+8*int(p.buckets)*int(p.hashes), "image", "image of %d bytes for %dx%d", len(b), p.hashes, p.buckets)
	p.total = int64(le.Uint64(b[16:]))
	for i := 24; i < len(b); i += 8 {
		p.counters = append(p.counters, int64(le.Uint64(b[i:])))
	}
	return
}

func cmFed(t *T) (s *cm.CountMinSketch, seed int64, pool []cmItem, truth map[string]int64, total int64) {
	h, b := cmShape(t)
	seed = cmSeedOK(t)
	s, err := cm.NewCountMinSketch(h, b, seed)
	t.NoErr(err, "new")
	pool = cmPool(t, 1+t.IntN(40))
	truth = map[string]int64{}
	n := t.IntN(80)
	if t.IntN(6) == 0 {
		n = 0
	}
	for range n {
		it := pool[t.IntN(len(pool))]
		w := cmWeight(t)
		t.NoErr(it.update(s, w), "update")
		truth[string(it.b)] += w
		total += w
	}
	t.Desc("count-min %dx%d seed %d total %d", h, b, seed, total)
	t.Sig(h, b, seed, n, total)
	return
}

func m02Round(t *T) {
	s, seed, pool, truth, total := cmFed(t)
	img := cmImage(t, s)
	p := cmParse(t, img)
	t.Check(p.buckets == s.GetNumBuckets() && p.hashes == s.GetNumHashes() && p.total == total, "image-content", "image %d %d %d", p.buckets, p.hashes, p.total)
	t.Check(p.seedHash == ref.SeedHash(uint64(seed)), "image-seed", "image seed hash %x", p.seedHash)
	t.Check(p.empty == (total == 0), "image-empty", "empty flag %v with total %d", p.empty, total)
	for r := range int(p.hashes) {
		if p.empty {
			break
		}
		sum := int64(0)
		for _, c := range p.counters[r*int(p.buckets) : (r+1)*int(p.buckets)] {
			sum += c
		}
		t.Check(sum == total, "row-sum", "row %d adds up to %d of %d", r, sum, total)
		t.NonTrivial()
		t.Ev("rows summed")
	}
	host := &cm.CountMinSketch{}
	if t.IntN(2) == 0 {
		var err error
		host, err = cm.NewCountMinSketch(3, 5, seed)
		t.NoErr(err, "new")
	}
	in := slices.Clone(img)
	d, err := host.Deserialize(in, seed)
	t.NoErr(err, "decode")
	t.Check(bytes.Equal(in, img), "decode-modified", "decoding changed the image")
	t.Check(host.GetTotalWeight() == 0, "decode-host", "decoding changed the receiver")
	for i := range in {
		in[i] = 0xAA
	}
	t.Check(d.GetNumBuckets() == s.GetNumBuckets() && d.GetNumHashes() == s.GetNumHashes() && d.GetSeed() == seed, "shape", "decoded shape %d %d %d", d.GetNumBuckets(), d.GetNumHashes(), d.GetSeed())
	cmCheck(t, d, truth, total, pool, "decoded")
	same := func(when string) {
		for _, it := range pool {
			sl, su := it.bounds(s)
			dl, du := it.bounds(d)
			t.Check(it.est(s) == it.est(d) && sl == dl && su == du, when+"-answers", "item %x: %d originally, %d decoded", it.b, it.est(s), it.est(d))
		}
		t.Check(bytes.Equal(cmImage(t, s), cmImage(t, d)), when+"-bytes", "re-encoding gives other bytes")
	}
	same("decoded")
	for range t.IntN(30) {
		it := pool[t.IntN(len(pool))]
		w := cmWeight(t)
		t.NoErr(it.update(s, w), "update")
		t.NoErr(it.update(d, w), "update")
		truth[string(it.b)] += w
		total += w
	}
	same("continued")
	cmCheck(t, d, truth, total, pool, "continued")
	if t.IntN(2) == 0 {
		t.NoErr(s.Merge(d), "merge")
		for k := range truth {
			truth[k] *= 2
		}
		cmCheck(t, s, truth, 2*total, pool, "remerged")
	}
	t.Ev("round trips")
}

func m02Refuse(t *T) {
	s, seed, pool, _, _ := cmFed(t)
	img := cmImage(t, s)
	dec := func(b []byte, seed int64) (*cm.CountMinSketch, error) {
		return (&cm.CountMinSketch{}).Deserialize(b, seed)
	}
	for range 20 {
		n := t.IntN(len(img))
		if t.IntN(2) == 0 {
			n = max(0, len(img)-1-t.IntN(20))
		}
		d, err := dec(img[:n:n], seed)
		t.Check(err != nil, "prefix", "%d of %d bytes accepted: total %v", n, len(img), d)
		t.Ev("prefixes")
	}
	if ext := append(slices.Clone(img), make([]byte, 1+t.IntN(24))...); true {
		if d, err := dec(ext, seed); err == nil {
			for _, it := range pool {
				t.Check(it.est(d) == it.est(s), "extended", "an extended image answers differently")
			}
		}
	}
	for range 4 {
		s2 := cmSeedOK(t)
		if ref.SeedHash(uint64(s2)) == ref.SeedHash(uint64(seed)) {
			continue
		}
		_, err := dec(img, s2)
		t.Check(err != nil, "seed", "image of seed %d accepted with seed %d", seed, s2)
		t.Ev("seeds")
		t.NonTrivial()
	}
	mut := slices.Clone(img)
	pos := t.IntN(3)
	mut[pos] ^= 1 << t.IntN(8)
	_, err := dec(mut, seed)
	t.Check(err != nil, "header", "header % x accepted", mut[:16])
	mut = slices.Clone(img)
	if len(img) > 16 {
		if t.IntN(2) == 0 {
			mut[12] ^= 1 << t.IntN(8)
		} else {
			mut[8+t.IntN(4)] ^= 1 << t.IntN(8)
		}
		_, err = dec(mut, seed)
		t.Check(err != nil, "shape-mismatch", "shape bytes % x accepted for %d bytes", mut[:16], len(mut))
	}
	t.Ev("damaged images")
}
