package mon

import (
	"encoding/binary"
	"fmt"
	"io"
	"slices"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// intSum is the integer summary of the reference images.
type intSum struct{ v int32 }

func (s *intSum) Reset()               { s.v = 0 }
func (s *intSum) Clone() tuple.Summary { return &intSum{s.v} }
func (s *intSum) Update(x int64)       { s.v += int32(x) }

func kindInt() tkind {
	return gkind[*intSum, int64]{
		nm: "int", mk: func(v int64) int64 { return v },
		newSum: func() *intSum { return &intSum{} },
		policy: policyF[*intSum](func(a, b *intSum) { a.v += b.v }),
		canon:  func(s *intSum) string { return fmt.Sprint(s.v) },
		mut:    func(s *intSum) { s.v = -77 },
		foldF: func(v []int64) string {
			var n int32
			for _, x := range v {
				n += int32(x)
			}
			return fmt.Sprint(n)
		},
		w: func(w io.Writer, s *intSum) error { return binary.Write(w, binary.LittleEndian, s.v) },
		r: func(r io.Reader) (*intSum, error) {
			s := &intSum{}
			return s, binary.Read(r, binary.LittleEndian, &s.v)
		},
		wlen: func(string) int { return 4 },
	}
}

func x2tsnap(n tsnap) string {
	s := x2snap(n.snap)
	var ks []uint64
	for k := range n.sum {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	for _, k := range ks {
		s += fmt.Sprintf("|%d=%q", k, n.sum[k])
	}
	return s
}

func x2tuple(mk func() tkind, merge func(tsk) bool) func(b []byte, u bool) (string, error) {
	return func(b []byte, u bool) (string, error) {
		k := mk()
		s, err := k.decode(b, theta.DefaultSeed)
		x2mark()
		if err != nil {
			return "", err
		}
		c := x2tsnap(s.snap())
		_, _, _, _ = s.est()
		_, _ = s.subset(uint32(s.numRetained() / 2))
		_ = s.str()
		for _, o := range []bool{true, false} {
			if z, err := k.compactOf(s, o); err == nil {
				_ = z.snap()
				if e, err := k.encode(z); err == nil {
					_, _ = k.decode(e, theta.DefaultSeed)
				}
			}
		}
		_, _ = k.filterOf(s, func(x string) bool { return len(x)%2 == 0 })
		if !merge(s) {
			return c, nil
		}
		p, err := k.newUpdate(5, theta.ResizeX2, 1, theta.DefaultSeed)
		if err != nil {
			panic(err)
		}
		for i := range 40 {
			_ = p.feed(item{kind: itInt64, i: int64(i)}, int64(i))
		}
		o := p.sk()
		if z, err := k.union(5, theta.ResizeX2, 1, theta.DefaultSeed); err == nil {
			_ = z.update(s)
			_ = z.update(o)
			_ = z.update(s)
			if r, err := z.result(true); err == nil {
				_ = r.snap()
			}
		}
		for _, l := range [][]tsk{{s, o, s}, {o, s}} {
			x := k.inter(theta.DefaultSeed)
			for _, a := range l {
				_ = x.update(a)
			}
			if r, err := x.result(true); err == nil {
				_ = r.snap()
			}
		}
		_, _ = k.diff(s, o, theta.DefaultSeed, true)
		_, _ = k.diff(o, s, theta.DefaultSeed, false)
		_, _, _ = k.jaccard(s, o, theta.DefaultSeed)
		return c, nil
	}
}

func x2tupleImages(mk func() tkind) func(t *T) [][]byte {
	return func(t *T) (out [][]byte) {
		k := mk()
		for range 3 {
			for _, p := range tuplePool(t, k, theta.DefaultSeed, 1+t.IntN(200)) {
				c, err := k.compactOf(p.sk, t.IntN(3) > 0)
				t.NoErr(err, "harness-compact")
				b, err := k.encode(c)
				t.NoErr(err, "harness-encode")
				if len(b) < 60000 {
					out = append(out, b)
				}
			}
		}
		return
	}
}

func init() {
	all := func(tsk) bool { return true }
	reg := func(name string, k func() tkind, merge func(tsk) bool, files ...string) {
		x2register(&x2driver{name: "tuple-" + name, files: files, gen: x2tupleImages(k), hdr: 48, run: x2tuple(k, merge)}, 9, 120)
	}
	reg("int", kindInt, all, "serialization_test_data/*/tuple_int_*.sk")
	reg("strings", kindAoS, all, "serialization_test_data/*/aos_*.sk")
	reg("strings-inline", kindAoSInline, all, "serialization_test_data/*/aos_*.sk")
	f1 := akind[float64]{1, floatMk[float64], "f64"}
	reg("numbers-f64", func() tkind { return f1 }, func(s tsk) bool { return f1.raw(s).NumValuesInSummary() == 1 }, "serialization_test_data/*/aod_1_*.sk")
	f3 := akind[float64]{3, floatMk[float64], "f64"}
	reg("numbers-f64-3", func() tkind { return f3 }, func(s tsk) bool { return f3.raw(s).NumValuesInSummary() == 3 }, "serialization_test_data/*/aod_3_*.sk")
	u8 := akind[uint8]{2, intMk[uint8], "u8"}
	reg("numbers-u8", func() tkind { return u8 }, func(s tsk) bool { return u8.raw(s).NumValuesInSummary() == 2 })
	i64 := akind[int64]{0, intMk[int64], "i64"}
	reg("numbers-i64-0", func() tkind { return i64 }, func(s tsk) bool { return i64.raw(s).NumValuesInSummary() == 0 })
}
