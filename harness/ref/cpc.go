package ref

import "math/bits"

// CpcCell is the (row, column) coupon of an item at 2^lgK rows.
func CpcCell(item []byte, seed uint64, lgK int) (row, col int) {
	h1, h2 := Murmur128(item, seed)
	c := bits.LeadingZeros64(h2)
	if c > 63 {
		c = 63
	}
	return int(h1 & (1<<lgK - 1)), c
}

// FoldMatrix ORs the rows of a matrix into fewer rows.
func FoldMatrix(m []uint64, lgK int) []uint64 {
	o := make([]uint64, 1<<lgK)
	for i, w := range m {
		o[i&(len(o)-1)] |= w
	}
	return o
}

// CountMatrix counts coupons.
func CountMatrix(m []uint64) int {
	n := 0
	for _, w := range m {
		n += bits.OnesCount64(w)
	}
	return n
}

// Kxp is the probability mass not yet collected times K: each empty cell of
// column c contributes 2^-(c+1).
func Kxp(m []uint64) float64 {
	var s float64
	for _, w := range m {
		for c := 0; c < 64; c++ {
			if w>>c&1 == 0 {
				s += 1 / float64(uint64(1)<<c) / 2
			}
		}
	}
	return s
}
