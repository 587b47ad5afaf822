package ref

import (
	"encoding/binary"
	"fmt"
	"math"
)

// reader walks an image and fails by panicking past its end.
type reader struct {
	b []byte
	o int
}

func (r *reader) n(n int) []byte {
	x := r.b[r.o : r.o+n]
	r.o += n
	return x
}
func (r *reader) u8() byte    { return r.n(1)[0] }
func (r *reader) u16() uint16 { return binary.LittleEndian.Uint16(r.n(2)) }
func (r *reader) u32() uint32 { return binary.LittleEndian.Uint32(r.n(4)) }
func (r *reader) u64() uint64 { return binary.LittleEndian.Uint64(r.n(8)) }

func guard(err *error) {
	if e := recover(); e != nil {
		*err = fmt.Errorf("image too short or malformed: %v", e)
	}
}

// ItemReader reads the raw bytes of one item at the head of b.
type ItemReader func(b []byte) int

// Fixed is the reader of items of n bytes.
func Fixed(n int) ItemReader { return func([]byte) int { return n } }

// LenString reads a string preceded by its 32-bit length.
func LenString(b []byte) int { return 4 + int(binary.LittleEndian.Uint32(b)) }

func (r *reader) item(f ItemReader) string { return string(r.n(f(r.b[r.o:]))) }

// KllImage is the content of a KLL items sketch image; items are raw bytes.
type KllImage struct {
	K, MinK    uint16
	M          byte
	Flags      byte
	N          uint64
	Min, Max   string
	Levels     [][]string // level 0 first
	L0Sorted   bool
	NumLevels  int
	FirstIndex uint32
}

// KllLevelCap is the nominal capacity of a level at a depth below the top.
func KllLevelCap(k, depth, m int) int {
	c := func(k, d int) int {
		p3 := 1
		for range d {
			p3 *= 3
		}
		return ((k<<1<<d)/p3 + 1) >> 1
	}
	w := 0
	if depth <= 30 {
		w = c(k, depth)
	} else {
		w = c(c(k, depth/2), depth-depth/2)
	}
	return max(m, w)
}

// ParseKll reads serial versions 1 and 2 of the format.
func ParseKll(b []byte, it ItemReader) (im KllImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	pre, ver, fam := r.u8(), r.u8(), r.u8()
	im.Flags = r.u8()
	im.K, im.M = r.u16(), r.u8()
	pad := r.u8()
	if fam != 15 || pad != 0 || im.Flags&^7 != 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	im.L0Sorted = im.Flags&2 != 0
	im.MinK = im.K
	switch {
	case im.Flags&1 != 0:
		if pre != 2 || ver != 1 {
			err = fmt.Errorf("empty header % x", b[:8])
		}
	case im.Flags&4 != 0:
		if pre != 2 || ver != 2 {
			return im, fmt.Errorf("single header % x", b[:8])
		}
		im.N, im.NumLevels = 1, 1
		im.Min = r.item(it)
		im.Max = im.Min
		im.Levels = [][]string{{im.Min}}
	default:
		if pre != 5 || ver != 1 {
			return im, fmt.Errorf("full header % x", b[:8])
		}
		im.N, im.MinK = r.u64(), r.u16()
		im.NumLevels = int(r.u8())
		if x := r.u8(); x != 0 {
			return im, fmt.Errorf("byte 19 is %d", x)
		}
		total := 0
		for d := range im.NumLevels {
			total += KllLevelCap(int(im.K), d, int(im.M))
		}
		lv := make([]uint32, im.NumLevels+1)
		for i := range im.NumLevels {
			lv[i] = r.u32()
		}
		lv[im.NumLevels] = uint32(total)
		im.FirstIndex = lv[0]
		im.Min, im.Max = r.item(it), r.item(it)
		for i := range im.NumLevels {
			if lv[i+1] < lv[i] {
				return im, fmt.Errorf("levels %v", lv)
			}
			var l []string
			for range lv[i+1] - lv[i] {
				l = append(l, r.item(it))
			}
			im.Levels = append(im.Levels, l)
		}
	}
	if err == nil && r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}

// TupleImage is the content of a compact tuple image; summaries are raw bytes.
type TupleImage struct {
	Theta          uint64
	Empty, Ordered bool
	SeedHash       uint16
	Keys           []uint64
	Sums           []string
	NumValues      int // array-of-doubles images only
}

// ParseTuple reads a compact tuple image of serial version 3.
func ParseTuple(b []byte, sum ItemReader) (im TupleImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	pre, ver, fam, typ, pad, flags := r.u8(), r.u8(), r.u8(), r.u8(), r.u8(), r.u8()
	im.SeedHash, im.Theta = r.u16(), math.MaxInt64
	if ver != 3 || fam != 9 || typ != 1 || pad != 0 || flags&8 == 0 || flags&1 != 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	im.Empty, im.Ordered = flags&4 != 0, flags&16 != 0
	n := 0
	switch {
	case im.Empty && pre == 1:
	case pre == 1:
		n = 1
	case pre == 2 || pre == 3:
		n = int(r.u32())
		_ = r.u32()
		if pre == 3 {
			im.Theta = r.u64()
		}
	default:
		return im, fmt.Errorf("preamble of %d longs", pre)
	}
	for range n {
		im.Keys = append(im.Keys, r.u64())
		im.Sums = append(im.Sums, r.item(sum))
	}
	if r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}

// ParseAod reads a compact array-of-doubles image with values of width bytes.
func ParseAod(b []byte, width int) (im TupleImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	pre, ver, fam, typ, flags, nv := r.u8(), r.u8(), r.u8(), r.u8(), r.u8(), r.u8()
	im.SeedHash, im.Theta, im.NumValues = r.u16(), r.u64(), int(nv)
	if pre != 1 || ver != 1 || fam != 9 || typ != 3 || flags&1 != 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	im.Empty, im.Ordered = flags&4 != 0, flags&16 != 0
	if flags&8 != 0 { // has entries
		n := int(r.u32())
		if x := r.u32(); x != 0 {
			return im, fmt.Errorf("bytes 20..23 are %#x", x)
		}
		for range n {
			im.Keys = append(im.Keys, r.u64())
		}
		for range n {
			im.Sums = append(im.Sums, string(r.n(int(nv)*width)))
		}
	}
	if r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}

// FreqImage is the content of a frequent-items image; items are raw bytes.
type FreqImage struct {
	LgMax, LgCur   int
	Empty          bool
	Weight, Offset int64
	Counts         map[string]int64
}

// ParseFreq reads a frequent-items image.
func ParseFreq(b []byte, it ItemReader) (im FreqImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	pre, ver, fam := r.u8(), r.u8(), r.u8()
	im.LgMax, im.LgCur = int(r.u8()), int(r.u8())
	flags := r.u8()
	_ = r.u16()
	if ver != 1 || fam != 10 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	im.Empty = flags&5 != 0
	im.Counts = map[string]int64{}
	if im.Empty {
		if pre != 1 {
			err = fmt.Errorf("empty with %d preamble longs", pre)
		}
		return
	}
	if pre != 4 {
		return im, fmt.Errorf("%d preamble longs", pre)
	}
	n := int(r.u32())
	_ = r.u32()
	im.Weight, im.Offset = int64(r.u64()), int64(r.u64())
	cs := make([]int64, n)
	for i := range cs {
		cs[i] = int64(r.u64())
	}
	for _, c := range cs {
		k := r.item(it)
		if _, ok := im.Counts[k]; ok {
			return im, fmt.Errorf("item %q twice", k)
		}
		im.Counts[k] = c
	}
	if r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}

// ReservoirImage is the content of a reservoir sketch or union image.
type ReservoirImage struct {
	K     int
	RF    int
	N     int64
	Empty bool
	Items []string
	Inner []byte // of a union: the sketch inside
}

// ParseReservoir reads a reservoir sketch image.
func ParseReservoir(b []byte, it ItemReader) (im ReservoirImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	p, ver, fam, flags := r.u8(), r.u8(), r.u8(), r.u8()
	im.RF, im.K = int(p>>6), int(r.u32())
	im.Empty = flags&4 != 0
	if ver != 2 || fam != 11 || flags&^4 != 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	if im.Empty {
		if p&63 != 1 || r.o != len(b) {
			err = fmt.Errorf("empty image % x", b)
		}
		return
	}
	if p&63 != 2 {
		return im, fmt.Errorf("%d preamble longs", p&63)
	}
	im.N = int64(r.u64())
	for range min(im.N, int64(im.K)) {
		im.Items = append(im.Items, r.item(it))
	}
	if r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}

// ParseReservoirUnion reads the header of a union and returns the sketch inside.
func ParseReservoirUnion(b []byte) (im ReservoirImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	p, ver, fam, flags := r.u8(), r.u8(), r.u8(), r.u8()
	im.K = int(r.u32())
	im.Empty = flags&4 != 0
	if p&63 != 1 || ver != 2 || fam != 12 || flags&^4 != 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	if im.Empty != (len(b) == 8) {
		return im, fmt.Errorf("empty %v in %d bytes", im.Empty, len(b))
	}
	im.Inner = b[8:]
	return
}

// CpcImage is a serialized CPC sketch with its compressed streams left alone.
type CpcImage struct {
	LgK, FirstCol, Flags int
	SeedHash             uint16
	Coupons              uint32
	TableEntries         uint32
	Kxp, Hip             float64
	Window, Table        []byte
}

// ParseCpc reads the preamble of a CPC image and splits off its streams.
func ParseCpc(b []byte) (im CpcImage, err error) {
	defer guard(&err)
	r := &reader{b: b}
	pre, ver, fam := int(r.u8()), r.u8(), r.u8()
	im.LgK, im.FirstCol, im.Flags = int(r.u8()), int(r.u8()), int(r.u8())
	im.SeedHash = r.u16()
	hip, table, window := im.Flags&4 != 0, im.Flags&8 != 0, im.Flags&16 != 0
	if ver != 1 || fam != 16 || im.Flags&^0x1e != 0 || im.Flags&2 == 0 {
		return im, fmt.Errorf("header % x", b[:8])
	}
	var tw, ww uint32
	floats := func() {
		im.Kxp, im.Hip = math.Float64frombits(r.u64()), math.Float64frombits(r.u64())
	}
	if table || window {
		im.Coupons = r.u32()
		im.TableEntries = im.Coupons
		if table && window {
			im.TableEntries = r.u32()
			if hip {
				floats()
			}
		}
		if table {
			tw = r.u32()
		} else {
			im.TableEntries = 0
		}
		if window {
			ww = r.u32()
		}
		if hip && !(table && window) {
			floats()
		}
	}
	if r.o != 4*pre {
		return im, fmt.Errorf("%d preamble ints for %d bytes of preamble", pre, r.o)
	}
	im.Window = r.n(4 * int(ww))
	im.Table = r.n(4 * int(tw))
	if r.o != len(b) {
		err = fmt.Errorf("%d bytes left over", len(b)-r.o)
	}
	return
}
