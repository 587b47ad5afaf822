package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/apache/datasketches-go/common"
	cm "github.com/apache/datasketches-go/count"
	bf "github.com/apache/datasketches-go/filters"
	sp "github.com/apache/datasketches-go/sampling"
)

func x2u32(b []byte, at int) int64 {
	if len(b) < at+4 {
		return 0
	}
	return int64(binary.LittleEndian.Uint32(b[at:]))
}

func x2cm(s *cm.CountMinSketch, seed int64) string {
	var w bytes.Buffer
	err := s.Serialize(&w)
	c := fmt.Sprintf("%x %v", w.Bytes(), err)
	q := func(s *cm.CountMinSketch) {
		for i := range uint64(20) {
			_ = s.GetEstimateUint64(i)
			_ = s.GetUpperBoundUint64(i)
			_ = s.GetLowerBoundUint64(i)
		}
		_ = s.GetEstimateString("abc")
		_ = s.GetRelativeError()
		_ = s.GetTotalWeight()
	}
	q(s)
	if err == nil {
		if z, err := s.Deserialize(w.Bytes(), seed); err == nil {
			q(z)
		}
	}
	o, err := cm.NewCountMinSketch(s.GetNumHashes(), s.GetNumBuckets(), seed)
	if err != nil {
		return c
	}
	for i := range uint64(100) {
		_ = o.UpdateUint64(i, int64(i))
		_ = s.UpdateUint64(i, 3)
	}
	_ = o.Merge(s)
	q(o)
	_ = s.Merge(o)
	q(s)
	_ = s.Serialize(&w)
	return c
}

func x2bloom(f bf.BloomFilter) string {
	b, err := f.ToCompactSlice()
	c := fmt.Sprintf("%x %v", b, err)
	q := func(f bf.BloomFilter) {
		for i := range uint64(20) {
			_ = f.QueryUInt64(i)
		}
		_ = f.QueryString("abc")
		_ = f.IsEmpty()
		_ = f.BitsUsed()
		_ = f.Capacity()
	}
	q(f)
	if err == nil {
		if z, err := bf.NewBloomFilterFromSlice(b); err == nil {
			q(z)
		}
	}
	if f.Capacity() > 0 && f.Capacity() < 1<<26 && f.NumHashes() > 0 {
		o, err := bf.NewBloomFilterBySize(f.Capacity(), f.NumHashes(), bf.WithSeed(f.Seed()))
		if err == nil {
			for i := range uint64(60) {
				_ = o.UpdateUInt64(i)
			}
			_ = o.Union(f)
			q(o)
			_ = o.Intersect(f)
			q(o)
			_ = f.Union(o)
		}
	}
	for i := range int64(60) {
		_ = f.UpdateInt64(i)
		_ = f.QueryAndUpdateInt64(i * 3)
	}
	_ = f.Invert()
	q(f)
	_, _ = f.ToCompactSlice()
	_ = f.Reset()
	q(f)
	return c
}

func x2resQuery[I comparable](s *sp.ReservoirItemsSketch[I]) {
	if s == nil {
		return
	}
	_ = s.K()
	_ = s.N()
	_ = s.Samples()
	_ = s.NumSamples()
	_, _ = s.EstimateSubsetSum(func(I) bool { return true })
	_ = s.String()
}

func x2rsv[I comparable](s *sp.ReservoirItemsSketch[I], kd *spKind[I]) string {
	b, err := s.ToSlice(kd.serde)
	c := fmt.Sprintf("%x %v", b, err)
	x2resQuery(s)
	if err == nil {
		if z, err := sp.NewReservoirItemsSketchFromSlice[I](b, kd.serde); err == nil {
			x2resQuery(z)
		}
	}
	u, _ := sp.NewReservoirItemsUnion[I](40)
	for i := range 100 {
		_ = u.Update(kd.key(i))
	}
	_ = u.UpdateSketch(s)
	r, _ := u.Result()
	x2resQuery(r)
	for i := range 300 {
		_ = s.Update(kd.key(i))
	}
	x2resQuery(s)
	_ = u.UpdateSketch(s)
	r, _ = u.Result()
	x2resQuery(r)
	_, _ = s.ToSlice(kd.serde)
	s.Reset()
	x2resQuery(s)
	return c
}

func x2resu[I comparable](u *sp.ReservoirItemsUnion[I], kd *spKind[I]) string {
	b, err := u.ToSlice(kd.serde)
	c := fmt.Sprintf("%x %v", b, err)
	_ = u.String()
	_ = u.MaxK()
	r, _ := u.Result()
	x2resQuery(r)
	s, _ := sp.NewReservoirItemsSketch[I](10)
	for i := range 50 {
		_ = u.Update(kd.key(i))
		_ = s.Update(kd.key(i))
	}
	_ = u.UpdateSketch(s)
	r, _ = u.Result()
	x2resQuery(r)
	_, _ = u.ToSlice(kd.serde)
	u.Reset()
	_ = u.Update(kd.key(1))
	return c
}

func x2voQuery[I comparable](s *sp.VarOptItemsSketch[I]) {
	if s == nil {
		return
	}
	_ = s.K()
	_ = s.N()
	_ = s.NumSamples()
	_ = s.String()
	for range s.All() {
	}
	_, _ = s.EstimateSubsetSum(func(I) bool { return true })
	_, _ = s.EstimateSubsetSum(func(I) bool { return false })
}

func x2vo[I comparable](s *sp.VarOptItemsSketch[I], kd *spKind[I]) string {
	var w bytes.Buffer
	e := sp.NewVarOptItemsSketchEncoder[I](&w, kd.serde)
	err := e.Encode(s)
	c := fmt.Sprintf("%x %v", w.Bytes(), err)
	x2voQuery(s)
	if err == nil {
		if z, err := sp.DecodeVarOptItemsSketch[I](w.Bytes(), kd.serde); err == nil {
			x2voQuery(z)
		}
	}
	u, _ := sp.NewVarOptItemsUnion[I](40)
	o, _ := sp.NewVarOptItemsSketch[I](30)
	for i := range 80 {
		_ = o.Update(kd.key(i), float64(1+i%7))
	}
	_ = u.Update(o)
	_ = u.Update(s)
	r, _ := u.Result()
	x2voQuery(r)
	for i := range 300 {
		_ = s.Update(kd.key(i), float64(1+i%5))
	}
	x2voQuery(s)
	_ = u.Update(s)
	r, _ = u.Result()
	x2voQuery(r)
	_ = e.Encode(s)
	s.Reset()
	x2voQuery(s)
	return c
}

func x2vou[I comparable](u *sp.VarOptItemsUnion[I], kd *spKind[I]) string {
	var w bytes.Buffer
	e := sp.NewVarOptItemsUnionEncoder[I](&w, kd.serde)
	err := e.Encode(u)
	c := fmt.Sprintf("%x %v", w.Bytes(), err)
	_ = u.String()
	r, _ := u.Result()
	x2voQuery(r)
	o, _ := sp.NewVarOptItemsSketch[I](30)
	for i := range 80 {
		_ = o.Update(kd.key(i), float64(1+i%7))
	}
	_ = u.Update(o)
	r, _ = u.Result()
	x2voQuery(r)
	_ = u.Update(o)
	_ = e.Encode(u)
	u.Reset()
	_ = u.Update(o)
	r, _ = u.Result()
	x2voQuery(r)
	return c
}

func x2sp[I comparable](kd *spKind[I], fx string, quick, thorough int) {
	word := int64(16)
	if kd.name == "string" {
		word = 24
	}
	k := func(t *T) int { return 2 + t.IntN([]int{5, 40, 300}[t.IntN(3)]) }
	n := func(t *T) int { return []int{0, 1, t.IntN(20), t.IntN(200), t.IntN(900)}[t.IntN(5)] }
	// the capacity of an empty image with resize factor 1 is allocated at once
	heavy := func(inner int) func(b []byte) bool {
		at := func(b []byte) bool {
			return len(b) > 7 && (b[0]>>6 == 0 || b[3]&4 != 0 || b[1] == 1) && x2u32(b, 4) > 1<<18
		}
		return func(b []byte) bool { return at(b) || inner > 0 && len(b) > inner+7 && at(b[inner:]) }
	}
	extra := func(b []byte) int64 {
		return min(x2u32(b, 4)+x2u32(b, 12)+x2u32(b, 36), 1<<20) * 2 * word
	}
	reg := func(name, glb string, inner int, gen func(t *T) []byte, run func(b []byte) (string, error)) {
		var files []string
		if fx != "" {
			files = []string{"serialization_test_data/[cj]*/" + fmt.Sprintf(glb, fx) + "_*.sk"}
		}
		x2register(&x2driver{name: name + "-" + kd.name, files: files, hdr: 60, extra: extra, heavy: heavy(inner),
			gen: func(t *T) (out [][]byte) {
				for range 6 {
					out = append(out, gen(t))
				}
				return
			},
			run: func(b []byte, _ bool) (string, error) { return run(b) }}, quick, thorough)
	}
	reg("reservoir", "reservoir_items_%s", 0, func(t *T) []byte {
		s, _ := s01New[I](t, k(t))
		for i := range n(t) {
			t.NoErr(s.Update(kd.key(i)), "harness-update")
		}
		b, err := s.ToSlice(kd.serde)
		t.NoErr(err, "harness-encode")
		return b
	}, func(b []byte) (string, error) {
		s, err := sp.NewReservoirItemsSketchFromSlice[I](b, kd.serde)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2rsv(s, kd), nil
	})
	reg("reservoir-union", "reservoir_items_union_%s", 8, func(t *T) []byte {
		mk := k(t)
		u, _, _ := s02Run(t, kd, mk, s02Steps(t, mk, 1+t.IntN(4)), false)
		b, err := u.ToSlice(kd.serde)
		t.NoErr(err, "harness-encode")
		return b
	}, func(b []byte) (string, error) {
		s, err := sp.NewReservoirItemsUnionFromSlice[I](b, kd.serde)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2resu(s, kd), nil
	})
	reg("varopt", "varopt_sketch_%s", 0, func(t *T) []byte {
		s, _ := s03New[I](t, k(t))
		for i := range n(t) {
			t.NoErr(s.Update(kd.key(i), math.Exp(t.NormFloat64())), "harness-update")
		}
		return vwImage(t, s, kd.serde)
	}, func(b []byte) (string, error) {
		s, err := sp.DecodeVarOptItemsSketch[I](b, kd.serde)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2vo(s, kd), nil
	})
	reg("varopt-union", "varopt_union_%s", 32, func(t *T) []byte {
		mk := k(t)
		u, _, _ := s04Run(t, kd, mk, s04Steps(t, mk, 1+t.IntN(4)), false)
		return vuImage(t, u, kd.serde)
	}, func(b []byte) (string, error) {
		s, err := sp.DecodeVarOptItemsUnion[I](b, kd.serde)
		x2mark()
		if err != nil {
			return "", err
		}
		return x2vou(s, kd), nil
	})
}

func x2serde[I comparable](name string, sd common.ItemSketchSerde[I], of func(i int) I) {
	x2register(&x2driver{name: "serde-" + name, raw: true, hdr: 24,
		gen: func(t *T) (out [][]byte) { // offset, count, bytes
			for range 6 {
				n := t.IntN(20)
				var items []I
				for i := range n {
					items = append(items, of(i))
				}
				off := t.IntN(10)
				b := binary.LittleEndian.AppendUint32(nil, uint32(off))
				b = binary.LittleEndian.AppendUint32(b, uint32(n))
				b = append(b, make([]byte, off)...)
				out = append(out, append(b, sd.SerializeManyToSlice(items)...))
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			if len(b) < 8 {
				return "", fmt.Errorf("short")
			}
			off, n := int(int32(binary.LittleEndian.Uint32(b))), int(int32(binary.LittleEndian.Uint32(b[4:])))
			b = b[8:]
			sz, err1 := sd.SizeOfMany(b, off, n)
			items, err := sd.DeserializeManyFromSlice(b, off, n)
			x2mark()
			if err != nil {
				return "", err
			}
			if len(items) != n && n >= 0 {
				panic(fmt.Sprintf("%d items for %d", len(items), n))
			}
			if err1 == nil && sz > len(b)-off && n > 0 {
				panic(fmt.Sprintf("size %d of items in %d bytes", sz, len(b)-off))
			}
			for _, i := range items {
				_ = sd.SizeOf(i)
				_ = sd.SerializeOneToSlice(i)
			}
			_ = sd.SerializeManyToSlice(items)
			return "ok", nil
		}}, 4, 40)
}

func init() {
	x2register(&x2driver{name: "count", hdr: 60, raw: true,
		extra: func(b []byte) int64 {
			if len(b) > 12 {
				return min(max(0, int64(int32(x2u32(b, 8)))*int64(int8(b[12]))), 1<<26) * 8
			}
			return 0
		},
		heavy: func(b []byte) bool {
			return len(b) > 12 && b[3]&1 != 0 && int64(int32(x2u32(b, 8)))*int64(int8(b[12])) > 1<<20
		},
		gen: func(t *T) (out [][]byte) {
			for range 6 {
				for {
					s, seed, _, _, _ := cmFed(t)
					if b := cmImage(t, s); len(b) < 40000 {
						out = append(out, binary.LittleEndian.AppendUint64(b, uint64(seed)))
						break
					}
				}
			}
			return
		},
		more: func(t *T, base []byte) (out [][]byte) { // truncated before the seed
			if len(base) < 8 {
				return
			}
			n := len(base) - 8
			for i := range min(n, 64) {
				for _, l := range []int{i, n - 1 - i} {
					out = append(out, append(bytes.Clone(base[:l]), base[n:]...))
				}
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			if len(b) < 8 {
				return "", fmt.Errorf("short")
			}
			seed := int64(binary.LittleEndian.Uint64(b[len(b)-8:]))
			s, err := (&cm.CountMinSketch{}).Deserialize(b[:len(b)-8], seed)
			x2mark()
			if err != nil {
				return "", err
			}
			return x2cm(s, seed), nil
		}}, 8, 80)
	x2register(&x2driver{name: "bloom", hdr: 60,
		files: []string{"serialization_test_data/*/bf_*.sk"},
		extra: func(b []byte) int64 { return min(x2u32(b, 16), 1<<25) * 8 },
		heavy: func(b []byte) bool { return len(b) > 20 && b[3]&4 != 0 && x2u32(b, 16) > 1<<20 },
		gen: func(t *T) (out [][]byte) {
			for range 6 {
				f, _, _, _ := blNew(t)
				blFill(t, f)
				out = append(out, blImage(t, f))
			}
			return
		},
		run: func(b []byte, _ bool) (string, error) {
			f, err := bf.NewBloomFilterFromSlice(b)
			x2mark()
			if err != nil {
				return "", err
			}
			return x2bloom(f), nil
		}}, 8, 80)
	x2sp(&spLong, "long", 10, 60)
	x2sp(&spDouble, "double", 8, 40)
	x2sp(&spString, "string", 12, 80)
	x2serde("long", common.ItemSketchSerde[int64](common.ItemSketchLongSerDe{}), func(i int) int64 { return int64(i) })
	x2serde("double", common.ItemSketchSerde[float64](common.ItemSketchDoubleSerDe{}), func(i int) float64 { return float64(i) })
	x2serde("float", common.ItemSketchSerde[float32](common.ItemSketchFloatSerDe{}), func(i int) float32 { return float32(i) })
	x2serde("string", common.ItemSketchSerde[string](common.ItemSketchStringSerDe{}), func(i int) string { return strings.Repeat("ab", i%5) })
}
