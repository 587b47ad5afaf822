package mon

import (
	"fmt"
	"math"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
)

func x2kllQuery[C comparable](s *kll.ItemsSketch[C], probe C) {
	_ = s.GetN()
	_ = s.GetNumRetained()
	_ = s.IsEstimationMode()
	_, _ = s.GetMinItem()
	_, _ = s.GetMaxItem()
	_, _ = s.GetQuantile(0.3, true)
	_, _ = s.GetQuantiles([]float64{0, 0.2, 1}, false)
	_, _ = s.GetRank(probe, true)
	_, _ = s.GetRanks([]C{probe}, false)
	_, _ = s.GetCDF([]C{probe}, true)
	_, _ = s.GetPMF([]C{probe}, false)
	_, _ = s.GetSortedView()
	_, _ = s.GetPartitionBoundaries(3, true)
	for it := s.GetIterator(); it.Next(); {
		_ = it.GetWeight()
		_ = it.GetQuantile()
	}
}

func x2kll[C comparable](s *kll.ItemsSketch[C], kd *kllKind[C]) string {
	b, err := s.ToSlice()
	c := fmt.Sprintf("%x %v", b, err)
	probe := kd.of(17)
	x2kllQuery(s, probe)
	if err == nil {
		if z, err := kll.NewKllItemsSketchFromSlice[C](b, kd.less, kd.serde); err == nil {
			x2kllQuery(z, probe)
		}
	}
	o, _ := kll.NewKllItemsSketch[C](20, 8, kd.less, kd.serde)
	for i := range int64(90) {
		o.Update(kd.of(i))
	}
	o.Merge(s)
	x2kllQuery(o, probe)
	_, _ = o.ToSlice()
	o.Merge(s)
	for i := range int64(300) {
		s.Update(kd.of(i * 3))
	}
	x2kllQuery(s, probe)
	s.Merge(o)
	x2kllQuery(s, probe)
	_, _ = s.ToSlice()
	s.Reset()
	x2kllQuery(s, probe)
	return c
}

func x2kllReg[C comparable](name string, files []string, kd *kllKind[C], quick, thorough int) {
	x2register(&x2driver{name: "kll-" + name, files: files, hdr: 48,
		extra: func(b []byte) int64 {
			if len(b) > 5 {
				return (int64(b[4]) | int64(b[5])<<8) * 48
			}
			return 0
		},
		gen: func(t *T) (out [][]byte) {
			for range 6 {
				k, m := kllK(t)
				s, mm := kllNew(t, kd, min(k, 300), m)
				if n := t.IntN(6); n > 0 {
					kllFeed(t, s, mm, min([]int{0, 1, 2 + t.IntN(30), t.IntN(400), t.IntN(4000), kllSize(t, min(k, 300))}[n], 4000))
				}
				out = append(out, kllBytes(t, s))
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			s, err := kll.NewKllItemsSketchFromSlice[C](b, kd.less, kd.serde)
			x2mark()
			if err != nil {
				return "", err
			}
			return x2kll(s, kd), nil
		}}, quick, thorough)
}

func init() {
	fx := func(n string) []string { return []string{"serialization_test_data/*/kll_" + n + "_*.sk"} }
	x2kllReg("double", fx("double"), &kllKind[float64]{"double", common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, func(x int64) float64 { return float64(x) / 3 }}, 10, 120)
	x2kllReg("float", fx("float"), &kllKind[float32]{"float", common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(x int64) float32 { return float32(math.Trunc(float64(x) / 3)) }}, 8, 100)
	x2kllReg("long", fx("long"), &kllKind[int64]{"long", common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(x int64) int64 { return x }}, 8, 100)
	x2kllReg("string", fx("string"), &kllKind[string]{"string", common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, func(x int64) string { return strings.Repeat("s", int(uint64(x)%5)) + fmt.Sprint(x) }}, 16, 200)
}
