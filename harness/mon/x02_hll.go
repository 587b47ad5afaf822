package mon

import (
	"fmt"

	"github.com/apache/datasketches-go/hll"
)

type hllAny interface {
	GetCompositeEstimate() (float64, error)
	GetEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	UpdateInt64(int64) error
	UpdateString(string) error
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
	IsEmpty() bool
	GetUpdatableSerializationBytes() int
}

func x2hllQuery(s hllAny) {
	_, _ = s.GetCompositeEstimate()
	_, _ = s.GetEstimate()
	for k := 1; k <= 3; k++ {
		_, _ = s.GetLowerBound(k)
		_, _ = s.GetUpperBound(k)
	}
	_ = s.IsEmpty()
	_ = s.GetUpdatableSerializationBytes()
}

// x2hll exercises an accepted sketch or union.
func x2hll(s hllAny, again func(b []byte)) string {
	u, err := s.ToUpdatableSlice()
	c := fmt.Sprintf("%x %v", u, err)
	x2hllQuery(s)
	b, err := s.ToCompactSlice()
	if err == nil {
		again(b)
	}
	if sk, ok := s.(hll.HllSketch); ok {
		for _, tt := range hllTypes {
			if z, err := sk.CopyAs(tt); err == nil {
				x2hllQuery(z)
				_ = z.UpdateInt64(5)
			}
		}
		if z, err := sk.Copy(); err == nil {
			for i := range 200 {
				_ = z.UpdateInt64(int64(i))
			}
			x2hllQuery(z)
			_, _ = z.ToCompactSlice()
		}
		for _, lg := range []int{4, 8, 12} {
			un, _ := hll.NewUnion(lg)
			for i := range int64(lg * lg) {
				_ = un.UpdateInt64(i)
			}
			_ = un.UpdateSketch(sk)
			x2hllQuery(un)
			_ = un.UpdateSketch(sk)
			if r, err := un.GetResult(hllTypes[lg/5]); err == nil {
				x2hllQuery(r)
			}
		}
	}
	for i := range 60 {
		_ = s.UpdateInt64(int64(i) * 77)
		_ = s.UpdateString(fmt.Sprint(i))
	}
	x2hllQuery(s)
	_, _ = s.ToCompactSlice()
	_, _ = s.ToUpdatableSlice()
	if un, ok := s.(hll.Union); ok {
		for _, tt := range hllTypes {
			if r, err := un.GetResult(tt); err == nil {
				x2hllQuery(r)
			}
		}
	}
	return c
}

func x2hllImages(t *T) (out [][]byte) {
	for range 8 {
		lgK := 4 + t.IntN(6)
		if t.IntN(4) == 0 {
			lgK = 10 + t.IntN(2)
		}
		s := hllNew(t, lgK, hllTypes[t.IntN(3)])
		hot := []float64{0, 0, 0.01, 0.3}[t.IntN(4)]
		n := hllSize(t, lgK)
		for _, it := range hllStream(t, lgK, min(n, 3000), hot, uint64(n)*4+1) {
			t.NoErr(it.feed(s), "harness-update")
		}
		var b []byte
		var err error
		if t.IntN(2) == 0 {
			b, err = s.ToCompactSlice()
		} else {
			b, err = s.ToUpdatableSlice()
		}
		t.NoErr(err, "harness-encode")
		out = append(out, b)
	}
	return
}

func init() {
	extra := func(b []byte) int64 {
		if len(b) > 3 && b[3] <= 21 {
			return 16 << b[3]
		}
		return 0
	}
	files := []string{"serialization_test_data/*/hll[468]_*.sk"}
	x2register(&x2driver{name: "hll-sketch", files: files, gen: x2hllImages, hdr: 48, extra: extra, run: func(b []byte, _ bool) (string, error) {
		s, err := hll.NewHllSketchFromSlice(b, len(b)%2 == 0)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2hll(s, func(b []byte) { _, _ = hll.NewHllSketchFromSlice(b, true) }), nil
	}}, 30, 400)
	x2register(&x2driver{name: "hll-union", files: files, gen: x2hllImages, hdr: 48, extra: extra, run: func(b []byte, _ bool) (string, error) {
		s, err := hll.NewUnionFromSlice(b)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2hll(s, func(b []byte) { _, _ = hll.NewUnionFromSlice(b) }), nil
	}}, 15, 200)
}
