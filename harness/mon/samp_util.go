package mon

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/common"
	sp "github.com/apache/datasketches-go/sampling"
)

// spKind is an item type with an injective numbering of its items.
type spKind[I comparable] struct {
	name  string
	key   func(i int) I
	serde common.ItemSketchSerde[I]
}

var (
	spLong   = spKind[int64]{"long", func(i int) int64 { return int64(i)*7919 - 1000 }, common.ItemSketchLongSerDe{}}
	spDouble = spKind[float64]{"double", func(i int) float64 { return float64(i)*0.5 - 3 }, common.ItemSketchDoubleSerDe{}}
	spFloat  = spKind[float32]{"float", func(i int) float32 { return float32(i)*0.25 - 3 }, common.ItemSketchFloatSerDe{}}
	spString = spKind[string]{"string", func(i int) string {
		if i == 5 {
			return ""
		}
		return fmt.Sprintf("é%d-%s", i, "xxxxxxxxxxxxxxxxxxxx"[:i%20])
	}, common.ItemSketchStringSerDe{}}
)

func spRun(l func(t *T, k *spKind[int64]), d func(t *T, k *spKind[float64]), f func(t *T, k *spKind[float32]), s func(t *T, k *spKind[string])) func(t *T) {
	return func(t *T) {
		switch t.Idx % 4 {
		case 0:
			l(t, &spLong)
		case 1:
			d(t, &spDouble)
		case 2:
			f(t, &spFloat)
		default:
			s(t, &spString)
		}
	}
}

var spRFs = []sp.ResizeFactor{sp.ResizeX1, sp.ResizeX2, sp.ResizeX4, sp.ResizeX8}

// spTau solves sum(min(1, w/tau)) = k for more than k weights: the threshold of
// variance-optimal sampling of the whole stream.
func spTau(ws []float64, k int) float64 {
	s := append([]float64(nil), ws...)
	sort.Float64s(s)
	n := len(s)
	// the h heaviest are above tau; tau = (sum of the others) / (k-h)
	light := 0.0
	for _, w := range s[:n-k+1] {
		light += w
	}
	// start with h = k-1 heavy items and shrink
	for h := k - 1; ; h-- {
		tau := light / float64(k-h)
		if h == 0 || s[n-h] >= tau {
			return tau
		}
		light += s[n-h]
	}
}

func spClose(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

// spChi2Tail is an approximation (Wilson-Hilferty) of P(chi2_dof >= x).
func spChi2Tail(x float64, dof int) float64 {
	if dof <= 0 {
		return 1
	}
	d := float64(dof)
	z := (math.Cbrt(x/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
	return 0.5 * math.Erfc(z/math.Sqrt2)
}

// spUniform checks retention counts of reps runs against equal probability p: each
// position against the binomial distribution and all together by chi-square.
func spUniform(t *T, counts []int, reps int, p float64, key string) {
	n := len(counts)
	if p >= 1 {
		for i, c := range counts {
			t.Check(c == reps, key, "position %d kept %d of %d times although everything fits", i, c, reps)
		}
		return
	}
	sd := math.Sqrt(float64(reps) * p * (1 - p))
	exp := float64(reps) * p
	x := 0.0
	worst, at := 0.0, 0
	for i, c := range counts {
		d := (float64(c) - exp) / sd
		x += d * d
		if math.Abs(d) > worst {
			worst, at = math.Abs(d), i
		}
	}
	// retention is negatively correlated because the sample size is fixed
	x *= float64(n-1) / float64(n)
	t.Logf("chi2 %.1f over %d positions, worst %.2f at %d", x, n, worst, at)
	t.Check(worst < 8, key, "position %d of %d kept %d of %d times, expected %.1f (%.1f standard deviations)", at, n, counts[at], reps, exp, worst)
	t.Check(spChi2Tail(x, n-1) > 1e-12, key, "retention is not uniform: chi-square %.1f over %d positions (expected kept %.1f each): %v", x, n, exp, trimString(fmt.Sprint(counts)))
	t.Ev("uniformity tests")
}

func vwImage[I comparable](t *T, s *sp.VarOptItemsSketch[I], serde common.ItemSketchSerde[I]) []byte {
	var b bytes.Buffer
	e := sp.NewVarOptItemsSketchEncoder[I](&b, serde)
	t.NoErr(e.Encode(s), "encode")
	return b.Bytes()
}

func vuImage[I comparable](t *T, s *sp.VarOptItemsUnion[I], serde common.ItemSketchSerde[I]) []byte {
	var b bytes.Buffer
	e := sp.NewVarOptItemsUnionEncoder[I](&b, serde)
	t.NoErr(e.Encode(s), "encode")
	return b.Bytes()
}
