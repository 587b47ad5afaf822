package mon

import (
	"fmt"
	"strconv"
	"strings"

	fq "github.com/apache/datasketches-go/frequencies"
)

func x2freqQuery[C comparable](x *fqBox[C], key func(int) C) {
	for i := range 12 {
		_, _ = x.GetEstimate(key(i))
		_, _ = x.GetLowerBound(key(i))
		_, _ = x.GetUpperBound(key(i))
	}
	_ = x.GetMaximumError()
	_ = x.GetStreamLength()
	_ = x.GetNumActiveItems()
	_ = x.GetCurrentMapCapacity()
	_ = x.GetMaximumMapCapacity()
	for _, p := range []bool{false, true} {
		_, _ = x.rows(0, false, p)
		_, _ = x.rows(5, true, p)
	}
}

func x2freq[C comparable](s fqCommon[C], k *fqKind[C]) string {
	x := k.wrap(s)
	b, err := x.image()
	c := fmt.Sprintf("%x %v", b, err)
	x2freqQuery(x, k.key)
	if err == nil {
		if z, err := k.decode(b); err == nil {
			x2freqQuery(k.wrap(z), k.key)
		}
	}
	o, _ := k.make(6, 3)
	ob := k.wrap(o)
	for i := range 60 {
		_ = o.UpdateMany(k.key(i), int64(i))
	}
	_ = ob.merge(x)
	x2freqQuery(ob, k.key)
	_, _ = ob.image()
	for i := range 200 {
		_ = x.Update(k.key(i))
		_ = x.UpdateMany(k.key(i*3), 1000)
	}
	_ = x.merge(ob)
	x2freqQuery(x, k.key)
	_, _ = x.image()
	_ = x.reset()
	x2freqQuery(x, k.key)
	return c
}

func x2freqReg[C comparable](k *fqKind[C], files []string, quick, thorough int) {
	x2register(&x2driver{name: "freq-" + k.name, files: files,
		extra: func(b []byte) int64 {
			if len(b) > 4 && b[4] <= 30 {
				return 24 << b[4]
			}
			return 0
		},
		heavy: func(b []byte) bool { return len(b) > 4 && b[4] > 18 && b[4] <= 30 },
		gen: func(t *T) (out [][]byte) {
			for range 6 {
				x := fqGrown(t, k)
				b, err := x.image()
				t.NoErr(err, "harness-encode")
				if len(b) < 100000 {
					out = append(out, b)
				}
			}
			if len(out) == 0 {
				s, _ := k.make(4, 3)
				b, _ := k.wrap(s).image()
				out = append(out, b)
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			s, err := k.decode(b)
			x2mark()
			if err != nil {
				return "", err
			}
			return x2freq(s, k), nil
		}}, quick, thorough)
}

func init() {
	fx := func(n string) []string { return []string{"serialization_test_data/*/frequent_" + n + "_*.sk"} }
	x2freqReg(fqLongs(), fx("long"), 12, 150)
	x2freqReg(fqStrings(), fx("string"), 12, 150)
	x2freqReg(fqDoubles(), nil, 5, 50)
	x2freqReg(fqLongItems(), nil, 5, 50)
	k := fqLongs()
	length := func(b []byte) int64 {
		f := strings.Split(string(b), ",")
		if len(f) < 8 {
			return 0
		}
		n, _ := strconv.ParseInt(f[7], 10, 64)
		return n
	}
	x2register(&x2driver{name: "freq-text", raw: true, hdr: 60,
		extra: func(b []byte) int64 { return max(length(b), 0) * 24 },
		heavy: func(b []byte) bool { n := length(b); return n > 1<<18 && n <= 1<<30 },
		gen: func(t *T) (out [][]byte) {
			for range 6 {
				x := fqGrown(t, k)
				s, err := x.fqCommon.(*fq.LongsSketch).ToString()
				t.NoErr(err, "harness-encode")
				if len(s) < 30000 {
					out = append(out, []byte(s))
				}
			}
			out = append(out, []byte("1,10,4,0,60,0,3,8,11,10,22,20,33,30,"))
			return
		},
		more: func(t *T, base []byte) (out [][]byte) { // replaced numbers
			for range 600 {
				f := strings.Split(string(base), ",")
				for range 1 + t.IntN(2) {
					f[t.IntN(min(len(f), 12))] = []string{fmt.Sprint(int64(x2ints[t.IntN(len(x2ints))])), "", "-1", "99999999999999999999", "x"}[max(0, t.IntN(12)-7)]
				}
				out = append(out, []byte(strings.Join(f, ",")))
			}
			for n := 5; n <= 17; n++ { // fuller and fuller maps
				f := fmt.Sprintf("1,10,4,0,60,0,%d,%d,", n, 8<<t.IntN(2))
				for i := range n {
					f += fmt.Sprintf("%d,%d,", i*7, i+1)
				}
				out = append(out, []byte(f))
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			s, err := fq.NewLongsSketchFromString(string(b))
			x2mark()
			if err != nil {
				return "", err
			}
			return x2freq[int64](s, k), nil
		}}, 12, 150)
}
