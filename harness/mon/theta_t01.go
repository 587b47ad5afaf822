package mon

import (
	"math"
	"slices"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register("T01", "every case is one history of updates (mixed item types, duplicates, crafted hashes), trims and resets on one theta update sketch, compared with the set of reference hashes after every step batch; distinct = distinct histories that forced at least one resize, rebuild, trim or reset",
		core.Family{Name: "history", Quick: 8000, Thorough: 200000, Run: t01History},
		core.Family{Name: "crafted", Quick: 6000, Thorough: 150000, Run: t01Crafted},
		core.Family{Name: "large", Quick: 16, Thorough: 300, Run: t01Large},
		core.Family{Name: "options", Quick: 1, Thorough: 1, Run: t01Options},
	)
}

// thetaModel shadows one theta update sketch.
type thetaModel struct {
	s      *theta.QuickSelectUpdateSketch
	k      int
	p      float32
	seed   uint64
	seen   map[uint64]struct{}
	fed    bool // some item was hashed since the last reset
	prev   uint64
	startT uint64
}

func newThetaModel(t *T, lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) *thetaModel {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf),
		theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed))
	t.NoErr(err, "new")
	return &thetaModel{s: s, k: 1 << lgK, p: p, seed: seed, seen: map[uint64]struct{}{}}
}

func (m *thetaModel) reset(t *T) {
	m.s.Reset()
	m.seen = map[uint64]struct{}{}
	m.fed = false
	t.Check(m.s.IsEmpty() && m.s.NumRetained() == 0 && m.s.Theta64() == theta.MaxTheta, "reset", "sketch after reset: empty=%v retained=%d theta=%d", m.s.IsEmpty(), m.s.NumRetained(), m.s.Theta64())
	t.Ev("reset")
}

// feed updates the sketch with one item and checks the returned error against the model.
func (m *thetaModel) feed(t *T, it item, h uint64) {
	before := m.s.Theta64()
	if !m.fed {
		before = 0
	}
	nBefore := m.s.NumRetained()
	err := it.feed(m.s)
	after := m.s.Theta64()
	if !m.fed {
		m.fed = true
		m.startT = after
		before = after
		if m.p >= 1 {
			t.Check(after == theta.MaxTheta, "start-theta", "first theta %d with p=1", after)
		} else {
			t.Check(math.Abs(float64(after)/math.MaxInt64-float64(m.p)) < 1e-6, "start-theta", "first theta %d with p=%v", after, m.p)
		}
	}
	t.Check(!m.s.IsEmpty(), "nonempty", "sketch still empty after an update")
	t.Check(after <= before, "theta-rise", "theta rose from %d to %d", before, after)
	_, dup := m.seen[h]
	switch {
	case h == 0:
		t.Check(isErr(err, theta.ErrZeroHashValue), "err-zero", "zero hash: error %v", err)
		t.Ev("zero-hash")
	case h >= before:
		t.Check(isErr(err, theta.ErrHashExceedsTheta), "err-exceeds", "hash %d >= theta %d: error %v", h, before, err)
		t.Ev("above-theta")
	case dup:
		t.Check(isErr(err, theta.ErrDuplicateKey), "err-dup", "duplicate hash %d (theta %d): error %v", h, before, err)
		t.Ev("duplicate")
	default:
		t.Check(err == nil, "err-new", "new hash %d below theta %d: error %v", h, before, err)
		t.Ev("inserted")
	}
	if h != 0 {
		m.seen[h] = struct{}{}
	}
	if err != nil {
		t.Check(m.s.NumRetained() == nBefore && after == before, "noop", "rejected update changed the sketch: retained %d->%d theta %d->%d", nBefore, m.s.NumRetained(), before, after)
	} else if after == before {
		t.Check(m.s.NumRetained() == nBefore+1, "insert-count", "accepted update: retained %d->%d", nBefore, m.s.NumRetained())
	}
	if after != before {
		t.Ev("rebuild")
		t.NonTrivial()
		_, ok := m.seen[after]
		t.Check(ok, "theta-origin", "new theta %d is not the hash of a seen item", after)
		t.Check(int(m.s.NumRetained()) >= m.k, "below-k", "rebuild left %d < k=%d entries", m.s.NumRetained(), m.k)
	}
}

// full compares the whole retained set.
func (m *thetaModel) full(t *T) {
	th := m.s.Theta64()
	got := wellFormed(t, m.s, "state")
	want := 0
	for h := range m.seen {
		if h < th {
			want++
		}
	}
	if m.fed {
		for _, h := range got.hashes {
			_, ok := m.seen[h]
			t.Check(ok, "phantom", "retained hash %d was never fed", h)
		}
		t.Check(want == len(got.hashes), "retained-set", "retained %d entries, but %d seen hashes are below theta %d", len(got.hashes), want, th)
		if th < m.startT {
			t.Check(len(got.hashes) >= m.k, "below-k", "estimation mode with %d < k=%d entries", len(got.hashes), m.k)
		}
		t.Check(len(got.hashes) <= 2*m.k, "over-capacity", "%d entries retained with k=%d", len(got.hashes), m.k)
		if m.p >= 1 && len(m.seen) <= m.k {
			t.Check(th == theta.MaxTheta || th == m.startT, "exact-until-k", "theta %d after only %d <= k=%d distinct items", th, len(m.seen), m.k)
		}
	} else {
		t.Check(len(got.hashes) == 0 && got.empty, "state-empty", "unfed sketch is not empty")
	}
	t.Check(got.seed == ref.SeedHash(m.seed), "seedhash", "seed hash %d, want %d", got.seed, ref.SeedHash(m.seed))
	t.Ev("full-compare")
}

func (m *thetaModel) trim(t *T) {
	n, th := int(m.s.NumRetained()), m.s.Theta64()
	var before []uint64
	for h := range m.s.All() {
		before = append(before, h)
	}
	slices.Sort(before)
	m.s.Trim()
	t.Ev("trim")
	if n <= m.k {
		t.Check(int(m.s.NumRetained()) == n && m.s.Theta64() == th, "trim-noop", "trim changed a sketch with %d <= k entries", n)
		return
	}
	t.NonTrivial()
	t.Check(int(m.s.NumRetained()) == m.k && m.s.Theta64() == before[m.k], "trim-k", "trim of %d entries left %d, theta %d; want %d and %d", n, m.s.NumRetained(), m.s.Theta64(), m.k, before[m.k])
}

func t01History(t *T) {
	lgK := uint8(5 + t.IntN(6))
	if t.IntN(3) == 0 {
		lgK = 5
	}
	rf := theta.ResizeFactor(t.IntN(4))
	p := float32(1)
	if t.IntN(3) == 0 {
		p = []float32{0.5, 0.1, 0.9, 0.01, 0.999}[t.IntN(5)]
	}
	seed := seedsPool[t.IntN(len(seedsPool))]
	m := newThetaModel(t, lgK, rf, p, seed)
	pool := 1 + t.IntN(8<<lgK)
	n := t.IntN(6 << lgK)
	t.Desc("lgK=%d rf=%d p=%v seed=%d pool=%d updates=%d", lgK, rf, p, seed, pool, n)
	t.Sig(lgK, rf, p, seed, pool, n)
	t.Check(m.s.LgK() == lgK && m.s.ResizeFactor() == rf, "config", "LgK/ResizeFactor lost")
	m.full(t)
	every := 1 + t.IntN(n+1)
	for i := 0; i < n; i++ {
		it := randItem(t, pool)
		m.feed(t, it, it.hash(seed))
		if i%every == 0 {
			m.full(t)
		}
		switch t.IntN(4 * (1 << lgK)) {
		case 0:
			m.trim(t)
			m.full(t)
		case 1:
			if t.IntN(2) == 0 {
				m.reset(t)
				m.full(t)
				t.NonTrivial()
			}
		}
	}
	m.full(t)
	m.trim(t)
	m.full(t)
}

// t01Crafted drives the table with hashes chosen to collide, to sit at the
// ends of the range, or to arrive in monotone order.
func t01Crafted(t *T) {
	lgK := uint8(5 + t.IntN(4))
	rf := theta.ResizeFactor(t.IntN(4))
	p := float32(1)
	if t.IntN(4) == 0 {
		p = 0.5
	}
	seed := seedsPool[t.IntN(len(seedsPool))]
	m := newThetaModel(t, lgK, rf, p, seed)
	mode := t.IntN(7)
	n := 16 + t.IntN(5<<lgK)
	t.Desc("crafted mode=%d lgK=%d rf=%d p=%v updates=%d", mode, lgK, rf, p, n)
	t.Sig(mode, lgK, rf, p, seed, n)
	low := t.Uint64() & 0x3ff
	base := t.Uint64() >> 1
	for i := 0; i < n; i++ {
		var h uint64
		switch mode {
		case 0: // same low bits: same first slot in every table size
			h = (t.Uint64()>>1)&^0xffff | low
		case 1: // same low bits and same stride bits
			h = (t.Uint64()>>1)&^0xffffffff | low
		case 2: // descending: every insert near theta's low end
			h = math.MaxInt64 - uint64(i)*(math.MaxInt64/uint64(n+1)) - 1
		case 3: // ascending
			h = 1 + uint64(i)*(math.MaxInt64/uint64(n+1))
		case 4: // extremes
			h = []uint64{0, 1, 2, math.MaxInt64 - 1, math.MaxInt64, 3, 1 << 62, 1<<62 - 1}[t.IntN(8)]
			if t.IntN(3) > 0 {
				h = t.Uint64() >> 1
			}
		case 5: // dense cluster
			h = (base + uint64(t.IntN(n))) & math.MaxInt64
		default: // tiny values
			h = uint64(t.IntN(2 * n))
		}
		m.feed(t, craft(t, h, seed), h)
		if i%64 == 0 {
			m.full(t)
		}
	}
	m.full(t)
	m.trim(t)
	m.full(t)
	t.NonTrivial()
}

func t01Large(t *T) {
	lgK := uint8(12 + t.IntN(4))
	if t.Thorough() {
		lgK = uint8(12 + t.IntN(10))
	}
	if t.Idx == 0 {
		lgK = 26
	}
	rf := theta.ResizeFactor(t.IntN(4))
	m := newThetaModel(t, lgK, rf, 1, 9001)
	n := int(float64(uint(1)<<lgK) * (0.5 + 4*t.Float64()))
	if n > 3_000_000 {
		n = 3_000_000
	}
	if lgK == 26 && !t.Thorough() {
		n = 100_000
	}
	t.Desc("lgK=%d rf=%d n=%d", lgK, rf, n)
	t.Sig(lgK, rf, n)
	t.NonTrivial()
	base := int64(t.Uint64() >> 8)
	for i := 0; i < n; i++ {
		it := item{kind: itInt64, i: base + int64(i)}
		m.feed(t, it, it.hash(9001))
	}
	m.full(t)
}

func t01Options(t *T) {
	t.Sig("options")
	t.NonTrivial()
	for lgK := 0; lgK < 256; lgK++ {
		if lgK >= 5 && lgK <= 26 && lgK > 16 {
			continue
		}
		_, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)))
		t.Check((err == nil) == (lgK >= 5 && lgK <= 26), "lgk", "lgK=%d: error %v", lgK, err)
	}
	for _, p := range []float32{0, -1, 1.0001, float32(math.Inf(1)), 2} {
		_, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchP(p))
		t.Check(err != nil, "p", "sampling probability %v accepted", p)
	}
	s, _ := theta.NewQuickSelectUpdateSketch()
	t.Check(isErr(s.UpdateString(""), theta.ErrUpdateEmptyString) && s.IsEmpty(), "empty-string", "empty string not refused")
}
