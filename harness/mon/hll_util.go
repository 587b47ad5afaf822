package mon

import (
	"encoding/binary"
	"math"
	"slices"

	"github.com/apache/datasketches-go/hll"

	"verif/harness/ref"
)

// hllItem is one update of an HLL sketch or union, with its coupon.
type hllItem struct {
	kind byte // 0 u64, 1 i64, 2 bytes, 3 string
	u    uint64
	b    []byte
}

type hllUpdater interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

func (it hllItem) feed(s hllUpdater) error {
	switch it.kind {
	case 0:
		return s.UpdateUInt64(it.u)
	case 1:
		return s.UpdateInt64(int64(it.u))
	case 2:
		return s.UpdateSlice(slices.Clone(it.b))
	}
	return s.UpdateString(string(it.b))
}

func (it hllItem) coupon() (uint32, bool) {
	if it.kind < 2 {
		return ref.HllCoupon(ref.U64Bytes(it.u)), true
	}
	if len(it.b) == 0 {
		return 0, false
	}
	return ref.HllCoupon(it.b), true
}

// craftedHll builds the bytes of an item with the given coupon.
func craftedHll(t *T, addr uint32, value int) hllItem {
	h1 := t.Uint64()&^uint64(1<<26-1) | uint64(addr&(1<<26-1))
	lz := value - 1
	h2 := t.Uint64()
	if lz >= 63 {
		h2 = 0
	} else {
		h2 = (h2 | 1<<63) >> lz
	}
	d := ref.Invert128(h1, h2, 9001)
	return hllItem{kind: byte(2 + t.IntN(2)), b: d[:]}
}

// hllStream generates n items (with repeats); hot makes high values and
// colliding addresses common.
func hllStream(t *T, lgK, n int, hot float64, universe uint64) []hllItem {
	its := make([]hllItem, 0, n)
	base := t.Uint64()
	for i := 0; i < n; i++ {
		r := t.Float64()
		switch {
		case r < hot:
			v := 1 + t.IntN(24)
			switch t.IntN(4) {
			case 0:
				v = 1 + t.IntN(63)
			case 1:
				v = 14 + t.IntN(5)
			}
			addr := t.Uint32()
			if t.IntN(3) == 0 { // collide in the small table, differ above
				addr = addr&^uint32(1<<lgK-1) | uint32(t.IntN(min(1<<lgK, 8)))
			}
			its = append(its, craftedHll(t, addr, v))
		case r < hot+0.1 && len(its) > 0:
			its = append(its, its[t.IntN(len(its))])
		case r < hot+0.12:
			l := t.IntN(20)
			b := make([]byte, l)
			for j := range b {
				b[j] = byte(t.Uint32())
			}
			its = append(its, hllItem{kind: byte(2 + t.IntN(2)), b: b})
		default:
			its = append(its, hllItem{kind: byte(t.IntN(2)), u: base + t.Uint64N(universe)})
		}
	}
	return its
}

type hllSet map[uint32]struct{}

func (s hllSet) add(it hllItem) {
	if c, ok := it.coupon(); ok {
		s[c] = struct{}{}
	}
}

func (s hllSet) sorted() []uint32 {
	o := make([]uint32, 0, len(s))
	for c := range s {
		o = append(o, c)
	}
	slices.Sort(o)
	return o
}

func kxq(b []byte) float64 {
	var lo, hi float64
	for _, v := range b {
		if v < 32 {
			lo += 1 / float64(uint64(1)<<v)
		} else {
			hi += 1 / float64(uint64(1)<<v)
		}
	}
	return lo + hi
}

// hllSer is what sketches and unions share for observation.
type hllSer interface {
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
	GetUpdatableSerializationBytes() int
	GetLgConfigK() int
	GetTgtHllType() hll.TgtHllType
	IsEmpty() bool
	GetEstimate() (float64, error)
	GetCompositeEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
}

func relEq(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

// hllContent checks that both images of s hold exactly the content of set and
// are internally consistent, and returns the parsed images.
func hllContent(t *T, s hllSer, set hllSet, key string) ref.HllImage {
	var first ref.HllImage
	for form := 0; form < 2; form++ {
		f := key + []string{"-compact", "-updatable"}[form]
		var b []byte
		var err error
		if form == 0 {
			b, err = s.ToCompactSlice()
		} else {
			b, err = s.ToUpdatableSlice()
		}
		t.NoErr(err, f)
		im, err := ref.ParseHll(b)
		t.Check(err == nil, f+"-format", "image does not parse: %v", err)
		t.Check(im.LgK == s.GetLgConfigK() && im.Tgt == int(s.GetTgtHllType()), f+"-config", "image lgK %d tgt %d, sketch %d %d", im.LgK, im.Tgt, s.GetLgConfigK(), s.GetTgtHllType())
		t.Check(im.Flags&^(4|8|16|32) == 0, f+"-flags", "flags %#x: a bit the format does not define", im.Flags)
		t.Check(im.Empty == (len(set) == 0) && s.IsEmpty() == im.Empty, f+"-empty", "empty flag %v, IsEmpty %v, coupons %d", im.Empty, s.IsEmpty(), len(set))
		if form == 1 {
			t.Check(len(b) == s.GetUpdatableSerializationBytes(), f+"-size", "GetUpdatableSerializationBytes %d, image %d", s.GetUpdatableSerializationBytes(), len(b))
			if !(im.Mode == 2 && im.Tgt == 0 && im.Aux == 0) {
				t.Check(len(b) == im.Size, f+"-len", "image of %d bytes, format says %d", len(b), im.Size)
			}
		} else {
			t.Check(len(b) == im.Size, f+"-len", "image of %d bytes, format says %d", len(b), im.Size)
		}
		if im.Mode < 2 {
			c := slices.Clone(im.Coupons)
			slices.Sort(c)
			want := set.sorted()
			t.Check(slices.Equal(c, want), f+"-coupons", "mode %d lgK %d tgt %d: %d coupons held, stream has %d; first diff %s", im.Mode, im.LgK, im.Tgt, len(c), len(want), hllDiff(c, want))
		} else {
			want := ref.HllBuckets(set, im.LgK)
			for i := range want {
				if want[i] != im.Buckets[i] {
					t.Check(false, f+"-bucket", "lgK %d tgt %d: bucket %d holds %d, stream's maximum is %d", im.LgK, im.Tgt, i, im.Buckets[i], want[i])
				}
			}
			k := kxq(want)
			t.Check(relEq(im.Kxq0+im.Kxq1, k, 1e-12), f+"-kxq", "kxq %v+%v, registers give %v", im.Kxq0, im.Kxq1, k)
			cm := 0
			if im.Tgt == 0 {
				cm = int(slices.Min(want))
			}
			n := 0
			for _, v := range want {
				if int(v) == cm {
					n++
				}
			}
			t.Check(im.CurMin == cm || im.Tgt != 0, f+"-curmin", "curMin %d, registers' minimum %d", im.CurMin, cm)
			if im.Tgt != 0 && im.CurMin != 0 { // a rebuilt union records some minimum; only "no zeros left" matters
				t.Check(im.CurMin <= int(slices.Min(want)), f+"-curmin", "curMin %d, registers' minimum %d", im.CurMin, slices.Min(want))
			} else {
				t.Check(im.NumAtCurMin == n, f+"-numatcurmin", "lgK %d tgt %d: numAtCurMin %d (curMin %d), registers say %d", im.LgK, im.Tgt, im.NumAtCurMin, im.CurMin, n)
			}
			t.Check(!im.Rebuild, f+"-rebuild", "image still flagged for rebuild")
			est, err := s.GetEstimate()
			t.NoErr(err, f+"-estimate")
			num := im.Hip // in order: the image carries the number a reader will report
			if im.OOO {
				num, err = s.GetCompositeEstimate()
				t.NoErr(err, f+"-estimate")
				t.Ev("register images out of order")
			}
			t.Check(est == num, f+"-estimate", "the sketch reports %v, a reader of the image (out of order %v) reports %v", est, im.OOO, num)
			t.Ev("register images")
			if im.Aux > 0 {
				t.Ev("images with exceptions")
			}
			if im.Tgt == 0 && im.CurMin > 0 {
				t.Ev("images with raised minimum")
			}
		}
		if form == 0 {
			first = im
		} else {
			t.Check(first.Mode == im.Mode && first.Hip == im.Hip && first.OOO == im.OOO, f+"-forms", "compact and updatable images disagree")
		}
		t.Ev("images parsed")
	}
	return first
}

func hllDiff(a, b []uint32) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return "held " + u32s(a[i])
		}
	}
	if len(b) > len(a) {
		return "missing " + u32s(b[len(a)])
	}
	return "none"
}

func u32s(v uint32) string {
	return "value " + itoa(int(v>>26)) + " addr " + itoa(int(v&(1<<26-1)))
}

func itoa(i int) string {
	b := []byte{}
	if i == 0 {
		return "0"
	}
	for ; i > 0; i /= 10 {
		b = append(b, byte('0'+i%10))
	}
	slices.Reverse(b)
	return string(b)
}

// hllNums is every number a sketch reports.
func hllNums(t *T, s hllSer, key string) []float64 {
	var o []float64
	g := func(v float64, err error) {
		t.NoErr(err, key+"-numbers")
		o = append(o, v)
	}
	g(s.GetEstimate())
	g(s.GetCompositeEstimate())
	for k := 1; k <= 3; k++ {
		g(s.GetLowerBound(k))
		g(s.GetUpperBound(k))
	}
	return o
}

// hllOrder checks lb3<=lb2<=lb1<=est<=ub1<=ub2<=ub3.
func hllOrder(t *T, n []float64, key string) {
	est := n[0]
	for _, v := range n {
		t.Check(!math.IsNaN(v) && v >= 0 && !math.IsInf(v, 0), key+"-finite", "numbers %v", n)
	}
	if hllOccupied(n) { // the recorded finding, see h04Occupied
		t.Ev("occupied registers exceed the estimate")
		est = n[2]
	}
	t.Check(n[6] <= n[4] && n[4] <= n[2] && n[2] <= est && est <= n[3] && n[3] <= n[5] && n[5] <= n[7], key+"-bracket",
		"estimate %v composite %v, bounds 1sd [%v,%v] 2sd [%v,%v] 3sd [%v,%v]", n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7])
}

// hllOccupied recognizes numbers n (as from hllNums) whose lower bounds are the number of occupied registers and whose
// estimate is the composite one, slightly below it.
func hllOccupied(n []float64) bool {
	return n[0] == n[1] && n[2] > n[0] && n[2] <= 1.1*n[0] && n[2] == n[4] && n[4] == n[6] && n[2] == math.Trunc(n[2])
}

// lgKPick picks lgK, mostly small.
func lgKPick(t *T) int {
	switch t.IntN(12) {
	case 0:
		return 13 + t.IntN(5)
	case 1:
		return 11 + t.IntN(3)
	case 2, 3:
		return 8
	default:
		return 4 + t.IntN(7)
	}
}

var hllTypes = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}

func leU32(b []byte, o int) uint32 { return binary.LittleEndian.Uint32(b[o:]) }
