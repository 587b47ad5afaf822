package ref

import (
	"encoding/binary"
	"fmt"
	"math"
)

// ThetaImage is the content of a serialized compact theta sketch.
type ThetaImage struct {
	Theta          uint64
	Hashes         []uint64
	Empty, Ordered bool
	SeedHash       uint16
	Version        int
}

// ParseTheta reads serial versions 3 and 4 by the published layout.
func ParseTheta(b []byte) (im ThetaImage, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("image too short: %v", e)
		}
	}()
	im.Theta = math.MaxInt64
	pre := int(b[0] & 0x3f)
	im.Version = int(b[1])
	if b[2] != 3 {
		return im, fmt.Errorf("family %d", b[2])
	}
	flags := b[5]
	im.SeedHash = binary.LittleEndian.Uint16(b[6:])
	im.Empty = flags&4 != 0
	im.Ordered = flags&16 != 0
	if flags&8 == 0 || flags&2 == 0 || flags&1 != 0 {
		return im, fmt.Errorf("flags %#x", flags)
	}
	switch im.Version {
	case 3:
		off := 8
		n := 0
		switch {
		case im.Empty:
			if pre != 1 || len(b) != 8 {
				return im, fmt.Errorf("empty image: %d preamble longs, %d bytes", pre, len(b))
			}
			return im, nil
		case pre == 1:
			n = 1
		default:
			n = int(binary.LittleEndian.Uint32(b[8:]))
			off = 16
			if pre == 3 {
				im.Theta = binary.LittleEndian.Uint64(b[16:])
				off = 24
			}
		}
		if len(b) != off+8*n {
			return im, fmt.Errorf("length %d for %d entries after %d bytes", len(b), n, off)
		}
		for i := 0; i < n; i++ {
			im.Hashes = append(im.Hashes, binary.LittleEndian.Uint64(b[off+8*i:]))
		}
	case 4:
		bitsPer := int(b[3])
		nb := int(b[4])
		off := 8
		if pre == 2 {
			im.Theta = binary.LittleEndian.Uint64(b[8:])
			off = 16
		} else if pre != 1 {
			return im, fmt.Errorf("v4 preamble %d", pre)
		}
		n := 0
		for i := 0; i < nb; i++ {
			n |= int(b[off+i]) << (8 * i)
		}
		off += nb
		// all deltas as one big-endian bit stream
		bit := 0
		data := b[off:]
		if len(data) != (bitsPer*n+7)/8 {
			return im, fmt.Errorf("v4 data %d bytes for %d x %d bits", len(data), n, bitsPer)
		}
		prev := uint64(0)
		for i := 0; i < n; i++ {
			var v uint64
			for j := 0; j < bitsPer; j++ {
				v = v<<1 | uint64(data[bit>>3]>>(7-bit&7)&1)
				bit++
			}
			prev += v
			im.Hashes = append(im.Hashes, prev)
		}
	default:
		return im, fmt.Errorf("version %d", im.Version)
	}
	return im, nil
}

// ThetaV12 writes serial versions 1 and 2.
func ThetaV12(version int, theta uint64, hashes []uint64, seedHash uint16) []byte {
	put := func(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }
	empty := len(hashes) == 0 && theta == math.MaxInt64
	if version == 1 {
		b := []byte{3, 1, 3, 0, 0, 0, 0, 0}
		b = binary.LittleEndian.AppendUint32(b, uint32(len(hashes)))
		b = append(b, 0, 0, 0, 0)
		b = put(b, theta)
		for _, h := range hashes {
			b = put(b, h)
		}
		return b
	}
	pre := byte(3)
	if theta == math.MaxInt64 {
		pre = 2
		if empty {
			pre = 1
		}
	}
	b := []byte{pre, 2, 3, 0, 0, 0x0a}
	b = binary.LittleEndian.AppendUint16(b, seedHash)
	if pre > 1 {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(hashes)))
		b = append(b, 0, 0, 0, 0)
	}
	if pre > 2 {
		b = put(b, theta)
	}
	for _, h := range hashes {
		b = put(b, h)
	}
	return b
}
