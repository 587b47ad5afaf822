package mon

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/ref"
)

var errX2 = errors.New("refused")

func x2snap(n snap) string {
	return fmt.Sprint(n.theta, n.empty, n.ordered, n.seed, n.order)
}

// x2theta exercises an accepted theta sketch.
func x2theta(s theta.Sketch) string {
	n := snapOf(s)
	c := x2snap(n)
	_ = s.Estimate()
	for k := uint8(1); k <= 3; k++ {
		_, _ = s.LowerBound(k)
		_, _ = s.UpperBound(k)
	}
	_ = s.String(true)
	o, _ := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5))
	for i := range 40 {
		_ = o.UpdateInt64(int64(i))
	}
	cs := theta.NewCompactSketch(s, true)
	_, _ = cs.MarshalBinary()
	for _, z := range []bool{false, true} {
		var b bytes.Buffer
		e := theta.NewEncoder(&b, z)
		if e.Encode(cs) == nil {
			_, _ = theta.Decode(b.Bytes(), theta.DefaultSeed)
		}
	}
	if u, err := theta.NewUnion(theta.WithUnionLgK(5)); err == nil {
		_ = u.Update(s)
		_ = u.Update(o)
		_ = u.Update(s)
		if r, err := u.Result(true); err == nil {
			_ = snapOf(r)
		}
	}
	x := theta.NewIntersection()
	for _, a := range []theta.Sketch{s, o, s} {
		_ = x.Update(a)
	}
	if x.HasResult() {
		_, _ = x.Result(true)
	}
	x = theta.NewIntersection()
	_ = x.Update(o)
	_ = x.Update(s)
	if x.HasResult() {
		_, _ = x.Result(false)
	}
	_, _ = theta.ANotB(s, o, theta.DefaultSeed, true)
	_, _ = theta.ANotB(o, s, theta.DefaultSeed, false)
	_, _ = theta.Jaccard(s, o, theta.DefaultSeed)
	return c
}

func x2thetaImages(t *T) (out [][]byte) {
	for range 6 {
		lg := uint8(5 + t.IntN(3))
		s := buildTheta(t, lg, theta.DefaultSeed, 1+t.IntN(400))
		c := s.Compact(t.IntN(3) > 0)
		out = append(out, encodeTheta(t, c, t.IntN(2) == 0))
		n := snapOf(s)
		sh, _ := s.SeedHash()
		out = append(out, ref.ThetaV12(1+t.IntN(2), n.theta, n.hashes, sh))
	}
	e, _ := theta.NewQuickSelectUpdateSketch()
	out = append(out, encodeTheta(t, e.Compact(true), false))
	return
}

func init() {
	files := []string{"serialization_test_data/*/theta_*.sk", "theta/*.sk"}
	x2register(&x2driver{name: "theta-decode", files: files, gen: x2thetaImages, hdr: 32, run: func(b []byte, u bool) (string, error) {
		s, err := theta.Decode(b, theta.DefaultSeed)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2theta(s), nil
	}}, 24, 300)
	x2register(&x2driver{name: "theta-wrap", files: files, gen: x2thetaImages, hdr: 32, run: func(b []byte, u bool) (string, error) {
		s, err := theta.WrapCompactSketch(b, theta.DefaultSeed)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2theta(s), nil
	}}, 24, 300)
	_ = strings.ToLower
}
