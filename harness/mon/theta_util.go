// Package mon holds the monitors: workloads over the public API of
// datasketches-go with independent oracles.
package mon

import (
	"errors"
	"math"
	"slices"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
	"verif/harness/ref"
)

// T is the case context.
type T = core.T

// snap is the observable content of a theta sketch.
type snap struct {
	theta   uint64
	hashes  []uint64 // sorted
	order   []uint64 // as iterated
	empty   bool
	ordered bool
	seed    uint16
}

func snapOf(s theta.Sketch) snap {
	var o []uint64
	for h := range s.All() {
		o = append(o, h)
	}
	h := slices.Clone(o)
	slices.Sort(h)
	sh, _ := s.SeedHash()
	return snap{s.Theta64(), h, o, s.IsEmpty(), s.IsOrdered(), sh}
}

func sameSnap(a, b snap) bool {
	return a.theta == b.theta && a.empty == b.empty && a.seed == b.seed && slices.Equal(a.hashes, b.hashes)
}

// wellFormed checks what every sketch promises about its own content.
func wellFormed(t *T, s theta.Sketch, key string) snap {
	n := snapOf(s)
	t.Check(int(s.NumRetained()) == len(n.order), key+"-count", "NumRetained %d but iteration yields %d", s.NumRetained(), len(n.order))
	for i, h := range n.hashes {
		t.Check(h != 0 && h < n.theta, key+"-range", "retained hash %d not in (0, theta=%d)", h, n.theta)
		if i > 0 {
			t.Check(h != n.hashes[i-1], key+"-dup", "hash %d retained twice", h)
		}
	}
	if n.ordered {
		t.Check(slices.IsSorted(n.order), key+"-order", "sketch says ordered but iterates unordered")
	}
	if n.empty {
		t.Check(len(n.order) == 0 && n.theta == theta.MaxTheta, key+"-empty", "empty sketch with %d entries, theta %d", len(n.order), n.theta)
	}
	return n
}

// item is one theta/tuple style update item.
type item struct {
	kind int
	i    int64
	s    string
	b    []byte
	f    float64
}

const (
	itInt64 = iota
	itUint64
	itInt32
	itUint32
	itInt16
	itUint16
	itInt8
	itUint8
	itF64
	itF32
	itString
	itBytes
	itKinds
)

// thetaUpdater is implemented by theta update sketches.
type thetaUpdater interface {
	UpdateInt64(int64) error
	UpdateUint64(uint64) error
	UpdateInt32(int32) error
	UpdateUint32(uint32) error
	UpdateInt16(int16) error
	UpdateUint16(uint16) error
	UpdateInt8(int8) error
	UpdateUint8(uint8) error
	UpdateFloat64(float64) error
	UpdateFloat32(float32) error
	UpdateString(string) error
	UpdateBytes([]byte) error
}

func (it item) feed(s thetaUpdater) error {
	switch it.kind {
	case itInt64:
		return s.UpdateInt64(it.i)
	case itUint64:
		return s.UpdateUint64(uint64(it.i))
	case itInt32:
		return s.UpdateInt32(int32(it.i))
	case itUint32:
		return s.UpdateUint32(uint32(it.i))
	case itInt16:
		return s.UpdateInt16(int16(it.i))
	case itUint16:
		return s.UpdateUint16(uint16(it.i))
	case itInt8:
		return s.UpdateInt8(int8(it.i))
	case itUint8:
		return s.UpdateUint8(uint8(it.i))
	case itF64:
		return s.UpdateFloat64(it.f)
	case itF32:
		return s.UpdateFloat32(float32(it.f))
	case itString:
		return s.UpdateString(it.s)
	default:
		return s.UpdateBytes(it.b)
	}
}

// hash of an item: the reference hash where the cross-language definition is
// settled (8-byte integers, floats, bytes); otherwise the hash a fresh sketch
// shows for the item alone (history independence is then what is tested).
func (it item) hash(seed uint64) uint64 {
	var h uint64
	switch it.kind {
	case itInt64, itUint64:
		h, _ = ref.Murmur128(ref.U64Bytes(uint64(it.i)), seed)
	case itF64:
		h, _ = ref.Murmur128(ref.U64Bytes(ref.CanonDouble(it.f)), seed)
	case itF32:
		h, _ = ref.Murmur128(ref.U64Bytes(ref.CanonDouble(float64(float32(it.f)))), seed)
	case itBytes:
		h, _ = ref.Murmur128(it.b, seed)
	default:
		return probeHash(it, seed)
	}
	return h >> 1
}

func probeHash(it item, seed uint64) uint64 {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchSeed(seed), theta.WithUpdateSketchLgK(5))
	if err != nil {
		panic(err)
	}
	if err := it.feed(s); err != nil {
		return 0
	}
	for h := range s.All() {
		return h
	}
	return 0
}

// craft returns a bytes item with the given 63-bit theta hash.
func craft(t *T, h uint64, seed uint64) item {
	b := ref.Invert128(h<<1|t.Uint64()&1, t.Uint64(), seed)
	return item{kind: itBytes, b: b[:]}
}

func randFloat(t *T) float64 {
	switch t.IntN(8) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.NaN()
	case 3:
		return math.Float64frombits(0x7ff8000000000000 | t.Uint64()>>13 | t.Uint64()<<63)
	case 4:
		return math.Inf(1 - 2*t.IntN(2))
	case 5:
		return math.Float64frombits(t.Uint64())
	}
	return float64(t.IntN(1000))
}

func randItem(t *T, pool int) item {
	switch k := t.IntN(20); {
	case k < 8:
		return item{kind: itInt64, i: int64(t.IntN(pool))}
	case k < 12:
		it := item{kind: t.IntN(8), i: int64(t.Uint64())}
		if t.IntN(2) == 0 {
			it.i = int64(t.IntN(pool)) - int64(pool/2)
		}
		return it
	case k < 14:
		return item{kind: itF64 + t.IntN(2), f: randFloat(t)}
	case k < 16:
		b := make([]byte, 1+t.IntN(40))
		for i := range b {
			b[i] = byte(t.IntN(256))
		}
		if t.IntN(2) == 0 {
			return item{kind: itBytes, b: b}
		}
		return item{kind: itString, s: string(b)}
	default:
		return item{kind: itInt64, i: int64(t.IntN(pool))}
	}
}

var seedsPool = []uint64{9001, 9001, 9001, 1, 123, 0x123456789abcdef, math.MaxUint64, 42}

func isErr(err, target error) bool { return errors.Is(err, target) }
