package ref

import (
	_ "embed"
	"encoding/binary"
	"fmt"
	"math/bits"
)

// The code tables of the published CPC format: 22 prefix codes for window
// bytes, one for column gaps, and the column orders of the 16 phases.
//
//go:embed cpc_tables.bin
var cpcTables []byte

type cpcCode struct{ sym, n [4096]uint8 } // 12 bits looked at -> symbol and code length

var (
	cpcBytes [22]cpcCode
	cpcGap   cpcCode
	cpcPerm  [16][56]uint8 // column as written -> distance behind the window
)

func init() {
	o := 0
	load := func(c *cpcCode, n int) {
		for s := range n {
			v := binary.LittleEndian.Uint16(cpcTables[o:])
			o += 2
			l := int(v >> 12)
			for x := int(v & 0xfff); x < 4096; x += 1 << l {
				if c.n[x] != 0 {
					panic("code tables are not prefix codes")
				}
				c.sym[x], c.n[x] = uint8(s), uint8(l)
			}
		}
		for x := range c.n {
			if c.n[x] == 0 {
				panic("code tables are incomplete")
			}
		}
	}
	for i := range cpcBytes {
		load(&cpcBytes[i], 256)
	}
	load(&cpcGap, 65)
	for i := range cpcPerm {
		for c := range 56 {
			cpcPerm[i][cpcTables[o]] = uint8(c)
			o++
		}
	}
	if o != len(cpcTables) {
		panic("code tables have another size")
	}
}

type bitReader struct {
	b []byte
	o int
}

func (r *bitReader) peek(n int) (v int) {
	for i := range n {
		if p := r.o + i; p < 8*len(r.b) && r.b[p>>3]>>(p&7)&1 != 0 {
			v |= 1 << i
		}
	}
	return
}

func (r *bitReader) bits(n int) int {
	if r.o+n > 8*len(r.b) {
		panic("stream is too short")
	}
	v := r.peek(n)
	r.o += n
	return v
}

func (r *bitReader) code(c *cpcCode) int {
	x := r.peek(12)
	r.bits(int(c.n[x]))
	return int(c.sym[x])
}

func (r *bitReader) unary() (n int) {
	for r.bits(1) == 0 {
		n++
	}
	return
}

// cpcPhase selects the code tables by the number of coupons c in k rows.
func cpcPhase(c, k int) int {
	x := float64(c) / float64(k)
	for i, lim := range []float64{0.75, 1.1, 1.32, 5. / 3, 1.965, 2.275} {
		if x < lim {
			return 16 + i
		}
	}
	if x < 2.375 {
		return 6
	}
	return c * 16 / k % 16
}

// CpcUnpack decodes the compressed streams of an image to its coupon matrix.
func CpcUnpack(im CpcImage) (m []uint64, err error) {
	defer guard(&err)
	k, c := 1<<im.LgK, int(im.Coupons)
	m = make([]uint64, k)
	if c == 0 {
		return
	}
	off := 0
	if 8*c >= 27*k {
		off = (8*c - 19*k) / (8 * k)
	}
	window := 2*c >= k
	for i := range m {
		m[i] = 1<<off - 1
	}
	phase := cpcPhase(c, k)
	if window {
		r := &bitReader{b: im.Window}
		for i := range m {
			m[i] |= uint64(r.code(&cpcBytes[phase])) << off
		}
		if pad := 8*len(im.Window) - r.o; pad < 11 || pad >= 11+32 {
			return nil, fmt.Errorf("window stream ends %d bits before its words", pad)
		}
	}
	n := int(im.TableEntries)
	if n > 0 {
		base := 0
		if q := k / n; q > 0 {
			base = bits.Len(uint(q)) - 1
		}
		r := &bitReader{b: im.Table}
		row, col := 0, 0
		for range n {
			gap := r.code(&cpcGap)
			dy := r.unary() << base
			dy |= r.bits(base)
			if dy > 0 {
				row += dy
				col = 0
			}
			col += gap
			at := col
			switch {
			case off > 0: // rotated and reordered by phase
				at = (int(cpcPerm[phase][col]) + off + 8) & 63
			case window:
				at = col + 8
			}
			if m[row]>>at&1 != b2i(at < off) {
				return nil, fmt.Errorf("row %d column %d is listed twice or within the window", row, at)
			}
			m[row] ^= 1 << at
			col++
		}
		if pad := 8*len(im.Table) - r.o; pad < max(0, 10-base) || pad >= max(0, 10-base)+32 {
			return nil, fmt.Errorf("table stream ends %d bits before its words", pad)
		}
	}
	if got := CountMatrix(m); got != c {
		return nil, fmt.Errorf("streams hold %d coupons, the preamble says %d", got, c)
	}
	return
}

func b2i(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
