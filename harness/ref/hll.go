package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
)

// HllCoupon is the 32-bit coupon of an item given its bytes: the low 26 bits
// of the first hash word and one plus the leading zeros of the second.
func HllCoupon(item []byte) uint32 {
	h1, h2 := Murmur128(item, 9001)
	v := bits.LeadingZeros64(h2)
	if v > 62 {
		v = 62
	}
	return uint32(v+1)<<26 | uint32(h1&(1<<26-1))
}

// HllImage is a parsed serialized HLL sketch.
type HllImage struct {
	Mode, Tgt, LgK, LgArr, Flags int
	Empty, Compact, OOO, Rebuild bool
	Coupons                      []uint32 // list / set
	Buckets                      []byte   // HLL
	Hip, Kxq0, Kxq1              float64
	CurMin, NumAtCurMin, Aux     int
	Size                         int // bytes the format accounts for
}

// ParseHll decodes an image from the format definition, strictly.
func ParseHll(b []byte) (im HllImage, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("image too short or malformed: %v", r)
		}
	}()
	pre := int(b[0])
	if b[1] != 1 || b[2] != 7 {
		return im, fmt.Errorf("serVer %d family %d", b[1], b[2])
	}
	im.LgK, im.LgArr, im.Flags = int(b[3]), int(b[4]), int(b[5])
	im.Empty, im.Compact, im.OOO, im.Rebuild = b[5]&4 != 0, b[5]&8 != 0, b[5]&16 != 0, b[5]&32 != 0
	im.Mode, im.Tgt = int(b[7]&3), int(b[7]>>2&3)
	want := []int{2, 3, 10}[im.Mode]
	if pre != want {
		return im, fmt.Errorf("preInts %d for mode %d", pre, im.Mode)
	}
	switch im.Mode {
	case 0, 1:
		n, start := int(b[6]), 8
		if im.Mode == 1 {
			n, start = int(binary.LittleEndian.Uint32(b[8:])), 12
		}
		slots := n
		if !im.Compact {
			slots = 1 << im.LgArr
		}
		for i := 0; i < slots; i++ {
			c := binary.LittleEndian.Uint32(b[start+4*i:])
			if c != 0 {
				im.Coupons = append(im.Coupons, c)
			} else if im.Compact {
				return im, fmt.Errorf("zero coupon in compact image")
			}
		}
		if len(im.Coupons) != n {
			return im, fmt.Errorf("count %d but %d coupons", n, len(im.Coupons))
		}
		im.Size = start + 4*slots
	case 2:
		k := 1 << im.LgK
		f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
		im.Hip, im.Kxq0, im.Kxq1 = f(8), f(16), f(24)
		im.CurMin = int(b[6])
		im.NumAtCurMin = int(binary.LittleEndian.Uint32(b[32:]))
		im.Aux = int(binary.LittleEndian.Uint32(b[36:]))
		im.Buckets = make([]byte, k)
		switch im.Tgt {
		case 0:
			start := 40 + k/2
			aux := map[int]byte{}
			slots := im.Aux
			if !im.Compact {
				slots = 1 << im.LgArr
				if im.Aux == 0 {
					slots = 0
				}
			}
			for i := 0; i < slots; i++ {
				c := binary.LittleEndian.Uint32(b[start+4*i:])
				if c == 0 {
					continue
				}
				slot := int(c) & (k - 1)
				if _, dup := aux[slot]; dup {
					return im, fmt.Errorf("aux slot %d twice", slot)
				}
				aux[slot] = byte(c >> 26)
			}
			if len(aux) != im.Aux {
				return im, fmt.Errorf("aux count %d but %d entries", im.Aux, len(aux))
			}
			im.Size = start + 4*slots
			used := 0
			for i := range im.Buckets {
				nib := b[40+i/2] >> (4 * (i & 1)) & 15
				if nib == 15 {
					v, ok := aux[i]
					if !ok {
						return im, fmt.Errorf("slot %d is an exception without entry", i)
					}
					if int(v) < im.CurMin+15 {
						return im, fmt.Errorf("slot %d exception value %d below curMin %d + 15", i, v, im.CurMin)
					}
					used++
					im.Buckets[i] = v
				} else {
					im.Buckets[i] = nib + byte(im.CurMin)
				}
			}
			if used != len(aux) {
				return im, fmt.Errorf("%d exception entries, %d used", len(aux), used)
			}
		case 1:
			bit := 0
			for i := range im.Buckets {
				o := 40 + bit/8
				w := uint16(b[o])
				if o+1 < len(b) {
					w |= uint16(b[o+1]) << 8
				}
				im.Buckets[i] = byte(w >> (bit % 8) & 63)
				bit += 6
			}
			im.Size = 40 + k*3/4 + 1
		case 2:
			copy(im.Buckets, b[40:40+k])
			im.Size = 40 + k
		default:
			return im, fmt.Errorf("target type %d", im.Tgt)
		}
	}
	return im, nil
}

// HllBuckets folds coupons into 2^lgK bucket maxima.
func HllBuckets(coupons map[uint32]struct{}, lgK int) []byte {
	b := make([]byte, 1<<lgK)
	for c := range coupons {
		HllPut(b, c)
	}
	return b
}

// HllPut applies one coupon to bucket maxima, reporting whether it changed.
func HllPut(b []byte, c uint32) bool {
	s, v := int(c)&(len(b)-1), byte(c>>26)
	if v > b[s] {
		b[s] = v
		return true
	}
	return false
}
