package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/tdigest"
)

func x2tdQuery(d *tdigest.Double) {
	_, _ = d.MinValue()
	_, _ = d.MaxValue()
	_ = d.TotalWeight()
	_ = d.K()
	_ = d.String(true)
	for _, x := range []float64{-1e300, -1, 0, 0.5, 3, 1e300} {
		_, _ = d.Rank(x)
	}
	for _, r := range []float64{0, 0.001, 0.3, 0.5, 0.99, 1} {
		_, _ = d.Quantile(r)
	}
	_, _ = d.PMF([]float64{-1, 0, 7})
	_, _ = d.CDF([]float64{-1, 0, 7})
}

func x2td(d *tdigest.Double) string {
	b, err := tdigest.EncodeDouble(d, true)
	c := fmt.Sprintf("%x %v", b, err)
	if err == nil {
		if z, err := tdigest.DecodeDouble(b); err == nil {
			x2tdQuery(z)
		}
	}
	var w bytes.Buffer
	e := tdigest.NewDoubleEncoder(&w, true)
	_ = e.Encode(d)
	x2tdQuery(d)
	_ = d.SerializedSizeBytes(true)
	_ = d.SerializedSizeBytes(false)
	o, _ := tdigest.NewDouble(20)
	for i := range 700 {
		_ = o.Update(float64(i) / 7)
	}
	_ = o.Merge(d)
	x2tdQuery(o)
	for i := range 1500 {
		_ = d.Update(float64(i))
	}
	x2tdQuery(d)
	_ = d.Merge(o)
	x2tdQuery(d)
	_, _ = tdigest.EncodeDouble(d, false)
	return c
}

// x2tdRef writes an image in one of the two reference formats.
func x2tdRef(t *T, small bool) []byte {
	var w bytes.Buffer
	put := func(x any) { _ = binary.Write(&w, binary.BigEndian, x) }
	n := t.IntN(30)
	if small {
		put(uint32(2))
	} else {
		put(uint32(1))
	}
	lo, hi := 0.0, float64(n)
	if n == 0 {
		lo, hi = math.Inf(1), math.Inf(-1)
	}
	put(lo)
	put(hi)
	k := 10 + t.IntN(190)
	if small {
		put(float32(k))
		put(uint32(0))
		put(uint16(n))
	} else {
		put(float64(k))
		put(uint32(n))
	}
	for i := range n {
		wt := 1 + t.IntN(50)
		if small {
			put(float32(wt))
			put(float32(i))
		} else {
			put(float64(wt))
			put(float64(i))
		}
	}
	return w.Bytes()
}

func init() {
	for _, stream := range []bool{false, true} {
		name := "tdigest"
		if stream {
			name = "tdigest-stream"
		}
		x2register(&x2driver{name: name, hdr: 48,
			files: []string{"serialization_test_data/*/tdigest_double_*.sk", "tdigest/tdigest_ref_*.sk"},
			extra: func(b []byte) int64 {
				switch {
				case len(b) > 5 && b[2] != 0:
					return (int64(b[3]) | int64(b[4])<<8) * 96
				case len(b) > 27: // reference formats
					k := float64(math.Float32frombits(binary.BigEndian.Uint32(b[20:])))
					if b[3] == 1 {
						k = math.Float64frombits(binary.BigEndian.Uint64(b[20:]))
					}
					if k > 0 && k < 65536 {
						return int64(k) * 96
					}
				}
				return 0
			},
			gen: func(t *T) (out [][]byte) {
				for range 6 {
					k := tdK(t)
					if k > 400 {
						k = uint16(10 + t.IntN(90))
					}
					d, _ := tdGrow(t, k, []int{0, 1, 2, t.IntN(60), t.IntN(3000), t.IntN(900)}[t.IntN(6)], t.IntN(3))
					b, err := tdigest.EncodeDouble(d, t.IntN(3) > 0)
					t.NoErr(err, "harness-encode")
					out = append(out, b)
				}
				return append(out, x2tdRef(t, true), x2tdRef(t, false))
			},
			run: func(b []byte, _ bool) (string, error) {
				var d *tdigest.Double
				var err error
				if stream {
					dec := tdigest.NewDoubleDecoder()
					d, err = dec.Decode(bytes.NewReader(b))
				} else {
					d, err = tdigest.DecodeDouble(b)
				}
				x2mark()
				if err != nil {
					return "", err
				}
				return x2td(d), nil
			}}, 10, 120)
	}
}
