// Package ref holds independent reference implementations and models: nothing
// here calls the library under test.
package ref

import (
	"encoding/binary"
	"math"
	"math/bits"
)

const (
	mc1 = 0x87c37b91114253d5
	mc2 = 0x4cf5ad432745937f
)

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// Murmur128 is MurmurHash3_x64_128 with h1=h2=seed.
func Murmur128(data []byte, seed uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	n := len(data) / 16
	for i := 0; i < n; i++ {
		k1 := binary.LittleEndian.Uint64(data[i*16:])
		k2 := binary.LittleEndian.Uint64(data[i*16+8:])
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
	}
	tail := data[n*16:]
	var k1, k2 uint64
	for i := len(tail) - 1; i >= 8; i-- {
		k2 = k2<<8 | uint64(tail[i])
	}
	m := len(tail)
	if m > 8 {
		m = 8
	}
	for i := m - 1; i >= 0; i-- {
		k1 = k1<<8 | uint64(tail[i])
	}
	if len(tail) > 8 {
		k2 *= mc2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= mc1
		h2 ^= k2
	}
	if len(tail) > 0 {
		k1 *= mc1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= mc2
		h1 ^= k1
	}
	h1 ^= uint64(len(data))
	h2 ^= uint64(len(data))
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func inv64(a uint64) uint64 { // modular inverse of an odd number
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func unfmix(k uint64) uint64 {
	k ^= k >> 33
	k *= inv64(0xc4ceb9fe1a85ec53)
	k ^= k >> 33
	k *= inv64(0xff51afd7ed558ccd)
	k ^= k >> 33
	return k
}

// Invert128 returns the 16-byte input whose Murmur128 with the seed is (t1,t2).
func Invert128(t1, t2, seed uint64) [16]byte {
	h1, h2 := t1, t2
	h2 -= h1
	h1 -= h2
	h1 = unfmix(h1)
	h2 = unfmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	// undo the body for one block
	x := (h2 - 0x38495ab5) * inv64(5)
	x -= h1
	x = bits.RotateLeft64(x, -31)
	k2 := x ^ seed
	k2 *= inv64(mc1)
	k2 = bits.RotateLeft64(k2, -33)
	k2 *= inv64(mc2)
	y := (h1 - 0x52dce729) * inv64(5)
	y -= seed
	y = bits.RotateLeft64(y, -27)
	k1 := y ^ seed
	k1 *= inv64(mc2)
	k1 = bits.RotateLeft64(k1, -31)
	k1 *= inv64(mc1)
	var out [16]byte
	binary.LittleEndian.PutUint64(out[:], k1)
	binary.LittleEndian.PutUint64(out[8:], k2)
	return out
}

// Invert128Longs is Invert128 as two int64 values.
func Invert128Longs(t1, t2, seed uint64) []int64 {
	b := Invert128(t1, t2, seed)
	return []int64{int64(binary.LittleEndian.Uint64(b[:])), int64(binary.LittleEndian.Uint64(b[8:]))}
}

// SeedHash is the 16-bit fingerprint of a seed.
func SeedHash(seed uint64) uint16 {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h, _ := Murmur128(b[:], 0)
	return uint16(h & 0xffff)
}

// U64Bytes is the little-endian form of v.
func U64Bytes(v uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return b[:]
}

// CanonDouble merges the two zeros and all NaNs.
func CanonDouble(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if math.IsNaN(f) {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

const (
	xp1 = 11400714785074694791
	xp2 = 14029467366897019727
	xp3 = 1609587929392839161
	xp4 = 9650029242287828579
	xp5 = 2870177450012600261
)

func xround(acc, in uint64) uint64 {
	acc += in * xp2
	return bits.RotateLeft64(acc, 31) * xp1
}

// XXHash64 is the reference XXH64.
func XXHash64(b []byte, seed uint64) uint64 {
	p, n := b, len(b)
	var h uint64
	if n >= 32 {
		s := seed
		a, bb, c, d := s, s, s, s
		a += xp1
		a += xp2
		bb += xp2
		d -= xp1
		for len(p) >= 32 {
			a = xround(a, binary.LittleEndian.Uint64(p))
			bb = xround(bb, binary.LittleEndian.Uint64(p[8:]))
			c = xround(c, binary.LittleEndian.Uint64(p[16:]))
			d = xround(d, binary.LittleEndian.Uint64(p[24:]))
			p = p[32:]
		}
		h = bits.RotateLeft64(a, 1) + bits.RotateLeft64(bb, 7) + bits.RotateLeft64(c, 12) + bits.RotateLeft64(d, 18)
		for _, v := range []uint64{a, bb, c, d} {
			h ^= xround(0, v)
			h = h*xp1 + xp4
		}
	} else {
		h = seed + xp5
	}
	h += uint64(n)
	for len(p) >= 8 {
		h ^= xround(0, binary.LittleEndian.Uint64(p))
		h = bits.RotateLeft64(h, 27)*xp1 + xp4
		p = p[8:]
	}
	if len(p) >= 4 {
		h ^= uint64(binary.LittleEndian.Uint32(p)) * xp1
		h = bits.RotateLeft64(h, 23)*xp2 + xp3
		p = p[4:]
	}
	for _, c := range p {
		h ^= uint64(c) * xp5
		h = bits.RotateLeft64(h, 11) * xp1
	}
	h ^= h >> 33
	h *= xp2
	h ^= h >> 29
	h *= xp3
	h ^= h >> 32
	return h
}

// MurmurChars is the char-array variant of the hash applied to single bytes, as
// this library's theta and tuple sketches hash strings: four characters make a word.
func MurmurChars(s []byte, seed uint64) uint64 {
	word := func(b []byte) (w uint64) {
		for i, c := range b {
			w |= uint64(c) << (8 * i)
		}
		return
	}
	h1, h2 := seed, seed
	n := len(s) / 8
	mix := func(k, a, b uint64, r int) uint64 { return bits.RotateLeft64(k*a, r) * b }
	for i := 0; i < n; i++ {
		k1, k2 := word(s[8*i:8*i+4]), word(s[8*i+4:8*i+8])
		h1 = (bits.RotateLeft64(h1^mix(k1, mc1, mc2, 31), 27)+h2)*5 + 0x52dce729
		h2 = (bits.RotateLeft64(h2^mix(k2, mc2, mc1, 33), 31)+h1)*5 + 0x38495ab5
	}
	tail := s[8*n:]
	if len(tail) > 4 {
		h2 ^= mix(word(tail[4:]), mc2, mc1, 33)
		tail = tail[:4]
	}
	h1 ^= mix(word(tail), mc1, mc2, 31)
	h1 ^= uint64(2 * len(s))
	h2 ^= uint64(2 * len(s))
	h1 += h2
	h2 += h1
	h1, h2 = fmix(h1), fmix(h2)
	return h1 + h2
}
