package mon

import (
	"fmt"

	"github.com/apache/datasketches-go/cpc"
)

func x2cpcQuery(s *cpc.CpcSketch) {
	_ = s.GetEstimate()
	for k := 1; k <= 3; k++ {
		_ = s.GetLowerBound(k)
		_ = s.GetUpperBound(k)
	}
	_ = s.GetLgK()
	_ = s.String()
}

func x2cpc(s *cpc.CpcSketch) string {
	b, err := s.ToCompactSlice()
	c := fmt.Sprintf("%x %v", b, err)
	x2cpcQuery(s)
	if err == nil {
		if z, err := cpc.NewCpcSketchFromSlice(b, 9001); err == nil {
			x2cpcQuery(z)
		}
	}
	lg := s.GetLgK()
	for _, uk := range []int{4, max(lg-1, 4), lg, min(lg+2, 20)} {
		u, err := cpc.NewCpcUnionSketch(uk, 9001)
		if err != nil {
			continue
		}
		_ = u.Update(s)
		o, _ := cpc.NewCpcSketch(uk, 9001)
		for i := range min(4<<uk, 2000) {
			_ = o.UpdateInt64(int64(i))
		}
		_ = u.Update(o)
		_ = u.Update(s)
		_, _ = u.GetBitMatrix()
		if r, err := u.GetResult(); err == nil {
			x2cpcQuery(r)
			_, _ = r.ToCompactSlice()
		}
	}
	z, err := s.Copy()
	if err != nil {
		return c
	}
	for i := range 200 {
		_ = z.UpdateInt64(int64(i) * 31)
		_ = z.UpdateString(fmt.Sprint(i))
	}
	if lg <= 8 { // cross several flavors
		for i := range 8 << lg {
			_ = z.UpdateInt64(int64(i) * 1337)
		}
	}
	x2cpcQuery(z)
	_, _ = z.ToCompactSlice()
	return c
}

func x2cpcImages(t *T) (out [][]byte) {
	for range 8 {
		lgK := cpcLgK(t)
		if lgK > 11 {
			lgK = 5
		}
		s := cpcNew(t, lgK, 9001)
		hot := []float64{0, 0, 0.02, 0.3}[t.IntN(4)]
		for _, it := range cpcStream(t, lgK, min(cpcSize(t, lgK), 4000), 9001, hot) {
			t.NoErr(it.feed(s), "harness-update")
		}
		if t.IntN(3) == 0 {
			u, err := cpc.NewCpcUnionSketch(lgK, 9001)
			t.NoErr(err, "harness-union")
			t.NoErr(u.Update(s), "harness-union")
			s, err = u.GetResult()
			t.NoErr(err, "harness-union")
		}
		out = append(out, cpcBytes(t, s, "harness-encode"))
	}
	return
}

func init() {
	extra := func(b []byte) int64 {
		if len(b) > 3 && b[3] <= 26 {
			return 16 << b[3]
		}
		return 0
	}
	heavy := func(b []byte) bool { return len(b) > 3 && b[3] > 18 && b[3] <= 26 }
	files := []string{"serialization_test_data/*/cpc_*.sk"}
	x2register(&x2driver{name: "cpc-sketch", files: files, gen: x2cpcImages, extra: extra, heavy: heavy, run: func(b []byte, _ bool) (string, error) {
		s, err := cpc.NewCpcSketchFromSlice(b, 9001)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2cpc(s), nil
	}}, 24, 300)
	x2register(&x2driver{name: "cpc-wrapper", files: files, gen: x2cpcImages, extra: extra, heavy: heavy, run: func(b []byte, _ bool) (string, error) {
		w, err := cpc.NewCpcWrapperFromBytes(b)
		x2mark()
		if err != nil {
			return "", err
		}
		c := fmt.Sprint(w.GetEstimate(), w.GetLgK(), w.GetFamily())
		for k := 1; k <= 3; k++ {
			c += fmt.Sprint(w.GetLowerBound(k), w.GetUpperBound(k))
		}
		return c, nil
	}}, 12, 150)
	x2register(&x2driver{name: "cpc-dump", files: files, gen: x2cpcImages, heavy: heavy, raw: true, run: func(b []byte, _ bool) (string, error) {
		_, err := cpc.CpcSketchToString(b, false)
		if err != nil {
			return "", err
		}
		x2mark()
		_, err = cpc.CpcSketchToString(b, true)
		return "", err
	}}, 6, 60)
}
