package mon

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"strconv"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

// tsnap is the observable content of a tuple sketch: keys, theta and the
// canonical content of every summary.
type tsnap struct {
	snap
	sum map[uint64]string
}

func sameT(a, b tsnap) bool { return sameSnap(a.snap, b.snap) && maps.Equal(a.sum, b.sum) }

// tsk is a tuple sketch of some kind with its summary type erased.
type tsk interface {
	snap() tsnap
	numRetained() int
	est() (e float64, lb, ub [4]float64, errs int)
	subset(n uint32) (lb, ub float64)
	poke() // mutate every summary in place (pointer summaries only)
	str() string
}

type tskG[S tuple.Summary] struct {
	s     tuple.Sketch[S]
	canon func(S) string
	mut   func(S)
}

func (g tskG[S]) snap() tsnap {
	var o []uint64
	m := map[uint64]string{}
	for h, s := range g.s.All() {
		o = append(o, h)
		m[h] = g.canon(s)
	}
	h := slices.Clone(o)
	slices.Sort(h)
	sh, _ := g.s.SeedHash()
	return tsnap{snap{g.s.Theta64(), h, o, g.s.IsEmpty(), g.s.IsOrdered(), sh}, m}
}
func (g tskG[S]) numRetained() int { return int(g.s.NumRetained()) }
func (g tskG[S]) est() (e float64, lb, ub [4]float64, errs int) {
	e = g.s.Estimate()
	for k := uint8(1); k <= 3; k++ {
		var e1, e2 error
		lb[k], e1 = g.s.LowerBound(k)
		ub[k], e2 = g.s.UpperBound(k)
		if e1 != nil || e2 != nil {
			errs++
		}
	}
	return
}
func (g tskG[S]) subset(n uint32) (float64, float64) {
	a, _ := g.s.LowerBoundFromSubset(2, n)
	b, _ := g.s.UpperBoundFromSubset(2, n)
	return a, b
}
func (g tskG[S]) poke() {
	if g.mut != nil {
		for _, s := range g.s.All() {
			g.mut(s)
		}
	}
}
func (g tskG[S]) str() string { return g.s.String(true) }

// tupd is an update sketch of some kind.
type tupd interface {
	feed(it item, v int64) error
	sk() tsk
	trim()
	reset()
	compact(ordered bool) (tsk, error)
	filter(pred func(string) bool) (tsk, error) // nil, nil when the kind has no filter
}

// tset is a union or intersection.
type tset interface {
	update(tsk) error
	result(ordered bool) (tsk, error)
	reset()
}

type tkind interface {
	name() string
	fold(vals []int64) string
	merge(a, b string) string
	newUpdate(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tupd, error)
	union(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tset, error)
	inter(seed uint64) tset
	diff(a, b tsk, seed uint64, ordered bool) (tsk, error)
	diffTheta(a tsk, b theta.Sketch, seed uint64, ordered bool) (tsk, error) // nil,nil if unsupported
	fromTheta(s theta.Sketch, v int64, ordered bool) (tsk, error)            // nil,nil if unsupported
	encode(tsk) ([]byte, error)
	decode(b []byte, seed uint64) (tsk, error)
	encodeTo(w io.Writer, ss []tsk) error                     // with one encoder
	decodeFrom(r io.Reader, seed uint64) (tsk, error)         // with the stream decoder
	encodeBad(s tsk, at int, bad error) error                 // the summary writer fails at its at'th call
	decodeBad(b []byte, seed uint64, at int, bad error) error // the summary reader does
	compactOf(s tsk, ordered bool) (tsk, error)
	filterOf(s tsk, pred func(string) bool) (tsk, error)
	jaccard(a, b tsk, seed uint64) (tuple.JaccardSimilarityResult, bool, error)
	similar(a, b tsk, th float64, seed uint64) (equal, sim, dis bool, err error) // where jaccard is supported
	wireLen(m map[uint64]string, pre int) int
}

// gkind is a kind built on the generic tuple sketch.
type gkind[S tuple.UpdatableSummary[V], V any] struct {
	nm     string
	mk     func(int64) V
	newSum func() S
	upd    func(S, V) S
	policy tuple.Policy[S]
	mergeF func(S, S) S
	canon  func(S) string
	mut    func(S)
	foldF  func([]int64) string
	mergeC func(a, b string) string
	w      tuple.SummaryWriter[S]
	r      tuple.SummaryReader[S]
	wlen   func(string) int
}

type policyF[S tuple.Summary] func(a, b S)

func (f policyF[S]) Apply(a, b S) { f(a, b) }

func (k gkind[S, V]) name() string             { return k.nm }
func (k gkind[S, V]) fold(v []int64) string    { return k.foldF(v) }
func (k gkind[S, V]) merge(a, b string) string { return k.mergeC(a, b) }
func (k gkind[S, V]) wrap(s tuple.Sketch[S]) tsk {
	return tskG[S]{s, k.canon, k.mut}
}
func (k gkind[S, V]) raw(s tsk) tuple.Sketch[S] { return s.(tskG[S]).s }

type gupd[S tuple.UpdatableSummary[V], V any] struct {
	k gkind[S, V]
	s *tuple.UpdateSketch[S, V]
}

func (k gkind[S, V]) newUpdate(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tupd, error) {
	opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed)}
	var s *tuple.UpdateSketch[S, V]
	var err error
	if k.upd != nil {
		s, err = tuple.NewUpdateSketchWithSummaryUpdateFunc(k.newSum, k.upd, opts...)
	} else {
		s, err = tuple.NewUpdateSketch[S, V](k.newSum, opts...)
	}
	if err != nil {
		return nil, err
	}
	return gupd[S, V]{k, s}, nil
}
func (g gupd[S, V]) feed(it item, v int64) error {
	x := g.k.mk(v)
	err := feedTuple[V](it, g.s, x)
	if l, ok := any(x).([]string); ok && g.k.nm == "strings" { // the inline kind documents that it keeps the slice
		for i := range l {
			l[i] = "overwritten by the caller"
		}
	}
	return err
}
func (g gupd[S, V]) sk() tsk { return g.k.wrap(g.s) }
func (g gupd[S, V]) trim()   { g.s.Trim() }
func (g gupd[S, V]) reset()  { g.s.Reset() }
func (g gupd[S, V]) compact(o bool) (tsk, error) {
	c, err := g.s.Compact(o)
	if err != nil {
		return nil, err
	}
	return g.k.wrap(c), nil
}
func (g gupd[S, V]) filter(pred func(string) bool) (tsk, error) {
	c, err := g.s.Filter(func(s S) bool { return pred(g.k.canon(s)) })
	if err != nil {
		return nil, err
	}
	return g.k.wrap(c), nil
}

type tupleUpdater[V any] interface {
	UpdateInt64(int64, V) error
	UpdateUint64(uint64, V) error
	UpdateInt32(int32, V) error
	UpdateUint32(uint32, V) error
	UpdateInt16(int16, V) error
	UpdateUint16(uint16, V) error
	UpdateInt8(int8, V) error
	UpdateUint8(uint8, V) error
	UpdateFloat64(float64, V) error
	UpdateFloat32(float32, V) error
	UpdateString(string, V) error
	UpdateBytes([]byte, V) error
}

func feedTuple[V any](it item, s tupleUpdater[V], v V) error {
	switch it.kind {
	case itInt64:
		return s.UpdateInt64(it.i, v)
	case itUint64:
		return s.UpdateUint64(uint64(it.i), v)
	case itInt32:
		return s.UpdateInt32(int32(it.i), v)
	case itUint32:
		return s.UpdateUint32(uint32(it.i), v)
	case itInt16:
		return s.UpdateInt16(int16(it.i), v)
	case itUint16:
		return s.UpdateUint16(uint16(it.i), v)
	case itInt8:
		return s.UpdateInt8(int8(it.i), v)
	case itUint8:
		return s.UpdateUint8(uint8(it.i), v)
	case itF64:
		return s.UpdateFloat64(it.f, v)
	case itF32:
		return s.UpdateFloat32(float32(it.f), v)
	case itString:
		return s.UpdateString(it.s, v)
	default:
		return s.UpdateBytes(it.b, v)
	}
}

type gunion[S tuple.UpdatableSummary[V], V any] struct {
	k gkind[S, V]
	u *tuple.Union[S]
}

func (k gkind[S, V]) union(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tset, error) {
	opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(lgK), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed)}
	var u *tuple.Union[S]
	var err error
	if k.mergeF != nil {
		u, err = tuple.NewUnionWithSummaryMergeFunc[S](k.mergeF, opts...)
	} else {
		u, err = tuple.NewUnion[S](k.policy, opts...)
	}
	if err != nil {
		return nil, err
	}
	return gunion[S, V]{k, u}, nil
}
func (g gunion[S, V]) update(s tsk) error { return g.u.Update(g.k.raw(s)) }
func (g gunion[S, V]) result(o bool) (tsk, error) {
	r, err := g.u.Result(o)
	if err != nil {
		return nil, err
	}
	return g.k.wrap(r), nil
}
func (g gunion[S, V]) reset() { g.u.Reset() }

type ginter[S tuple.UpdatableSummary[V], V any] struct {
	k gkind[S, V]
	x *tuple.Intersection[S]
}

func (k gkind[S, V]) inter(seed uint64) tset {
	if k.mergeF != nil {
		return ginter[S, V]{k, tuple.NewIntersectionWithSummaryMergeFunc[S](k.mergeF, tuple.WithIntersectionSeed(seed))}
	}
	return ginter[S, V]{k, tuple.NewIntersection[S](k.policy, tuple.WithIntersectionSeed(seed))}
}
func (g ginter[S, V]) update(s tsk) error { return g.x.Update(g.k.raw(s)) }
func (g ginter[S, V]) result(o bool) (tsk, error) {
	r, err := g.x.Result(o)
	if err != nil {
		return nil, err
	}
	return g.k.wrap(r), nil
}
func (g ginter[S, V]) reset() {}

func (k gkind[S, V]) w1(c *tuple.CompactSketch[S], err error) (tsk, error) {
	if err != nil {
		return nil, err
	}
	return k.wrap(c), nil
}
func (k gkind[S, V]) diff(a, b tsk, seed uint64, o bool) (tsk, error) {
	return k.w1(tuple.ANotB[S](k.raw(a), k.raw(b), seed, o))
}
func (k gkind[S, V]) diffTheta(a tsk, b theta.Sketch, seed uint64, o bool) (tsk, error) {
	return k.w1(tuple.TupleANotThetaB[S](k.raw(a), b, seed, o))
}
func (k gkind[S, V]) fromTheta(s theta.Sketch, v int64, o bool) (tsk, error) {
	sum := k.newSum()
	if k.upd != nil {
		sum = k.upd(sum, k.mk(v))
	} else {
		sum.Update(k.mk(v))
	}
	return k.w1(tuple.NewCompactSketchFromThetaSketch[S](s, sum, o))
}
func (k gkind[S, V]) compactOf(s tsk, o bool) (tsk, error) {
	return k.w1(tuple.NewCompactSketch[S](k.raw(s), o))
}
func (k gkind[S, V]) filterOf(s tsk, pred func(string) bool) (tsk, error) {
	return k.w1(k.raw(s).(*tuple.CompactSketch[S]).Filter(func(x S) bool { return pred(k.canon(x)) }))
}
func (k gkind[S, V]) encode(s tsk) ([]byte, error) {
	var b bytes.Buffer
	e := tuple.NewEncoder[S](&b, k.w)
	err := e.Encode(k.raw(s).(*tuple.CompactSketch[S]))
	return b.Bytes(), err
}
func (k gkind[S, V]) decode(b []byte, seed uint64) (tsk, error) {
	if len(b)%2 == 0 {
		return k.w1(tuple.Decode[S](b, seed, k.r))
	}
	d := tuple.NewDecoder[S](seed, k.r)
	return k.w1(d.Decode(bytes.NewReader(b)))
}
func (k gkind[S, V]) encodeTo(w io.Writer, ss []tsk) error {
	e := tuple.NewEncoder[S](w, k.w)
	for _, s := range ss {
		if err := e.Encode(k.raw(s).(*tuple.CompactSketch[S])); err != nil {
			return err
		}
	}
	return nil
}
func (k gkind[S, V]) decodeFrom(r io.Reader, seed uint64) (tsk, error) {
	d := tuple.NewDecoder[S](seed, k.r)
	c, err := d.Decode(r)
	if err != nil {
		return nil, err
	}
	return k.w1(c, nil)
}
func (k gkind[S, V]) encodeBad(s tsk, at int, bad error) error {
	n := 0
	var b bytes.Buffer
	e := tuple.NewEncoder[S](&b, func(w io.Writer, x S) error {
		if n++; n == at {
			return bad
		}
		return k.w(w, x)
	})
	return e.Encode(k.raw(s).(*tuple.CompactSketch[S]))
}
func (k gkind[S, V]) decodeBad(b []byte, seed uint64, at int, bad error) error {
	n := 0
	_, err := tuple.Decode[S](b, seed, func(r io.Reader) (S, error) {
		x, err := k.r(r)
		if n++; n == at {
			return x, bad
		}
		return x, err
	})
	return err
}
func (k gkind[S, V]) jaccard(a, b tsk, seed uint64) (tuple.JaccardSimilarityResult, bool, error) {
	if k.policy == nil {
		return tuple.JaccardSimilarityResult{}, false, nil
	}
	r, err := tuple.Jaccard[S](k.raw(a), k.raw(b), k.policy, seed)
	return r, true, err
}
func (k gkind[S, V]) similar(a, b tsk, th float64, seed uint64) (equal, sim, dis bool, err error) {
	equal, e1 := tuple.IsExactlyEqual[S](k.raw(a), k.raw(b), k.policy, seed)
	sim, e2 := tuple.IsSimilar[S](k.raw(a), k.raw(b), k.policy, th, seed)
	dis, e3 := tuple.IsDissimilar[S](k.raw(a), k.raw(b), k.policy, th, seed)
	return equal, sim, dis, errors.Join(e1, e2, e3)
}
func (k gkind[S, V]) wireLen(m map[uint64]string, pre int) int {
	n := pre * 8
	for _, c := range m {
		n += 8 + k.wlen(c)
	}
	return n
}

// logSum records every value in order.
type logSum struct{ v []int64 }

func (l *logSum) Reset()               { l.v = nil }
func (l *logSum) Clone() tuple.Summary { return &logSum{slices.Clone(l.v)} }
func (l *logSum) Update(x int64)       { l.v = append(l.v, x) }

// valSum is an immutable value-type summary.
type valSum struct{ s string }

func (v valSum) Reset()               {}
func (v valSum) Clone() tuple.Summary { return v }
func (v valSum) Update(int64)         {}

func joinInts(v []int64) string {
	var b strings.Builder
	for _, x := range v {
		fmt.Fprintf(&b, "%d,", x)
	}
	return b.String()
}

func kindLog() tkind {
	return gkind[*logSum, int64]{
		nm: "log", mk: func(v int64) int64 { return v },
		newSum: func() *logSum { return &logSum{} },
		policy: policyF[*logSum](func(a, b *logSum) { a.v = append(append(a.v, -1), b.v...) }),
		canon:  func(s *logSum) string { return joinInts(s.v) },
		mut:    func(s *logSum) { s.v = append(s.v[:0], -77) },
		foldF:  joinInts,
		mergeC: func(a, b string) string { return a + "-1," + b },
		w: func(w io.Writer, s *logSum) error {
			if err := binary.Write(w, binary.LittleEndian, uint32(len(s.v))); err != nil {
				return err
			}
			return binary.Write(w, binary.LittleEndian, s.v)
		},
		r: func(r io.Reader) (*logSum, error) {
			var n uint32
			if err := binary.Read(r, binary.LittleEndian, &n); err != nil {
				return nil, err
			}
			if n > 1<<20 {
				return nil, fmt.Errorf("too long")
			}
			s := &logSum{make([]int64, n)}
			return s, binary.Read(r, binary.LittleEndian, s.v)
		},
		wlen: func(c string) int { return 4 + 8*strings.Count(c, ",") },
	}
}

func kindVal() tkind {
	return gkind[valSum, int64]{
		nm: "value", mk: func(v int64) int64 { return v },
		newSum: func() valSum { return valSum{"^"} },
		upd:    func(s valSum, v int64) valSum { return valSum{fmt.Sprintf("%s%d,", s.s, v)} },
		mergeF: func(a, b valSum) valSum { return valSum{a.s + "&" + b.s} },
		canon:  func(s valSum) string { return s.s },
		foldF:  func(v []int64) string { return "^" + joinInts(v) },
		mergeC: func(a, b string) string { return a + "&" + b },
		w: func(w io.Writer, s valSum) error {
			_, err := fmt.Fprintf(w, "%06d%s", len(s.s), s.s)
			return err
		},
		r: func(r io.Reader) (valSum, error) {
			h := make([]byte, 6)
			if _, err := io.ReadFull(r, h); err != nil {
				return valSum{}, err
			}
			n := 0
			if _, err := fmt.Sscanf(string(h), "%d", &n); err != nil || n < 0 {
				return valSum{}, fmt.Errorf("bad length")
			}
			b := make([]byte, n)
			_, err := io.ReadFull(r, b)
			return valSum{string(b)}, err
		},
		wlen: func(c string) int { return 6 + len(c) },
	}
}

// array of strings: content is only observable through the writer.
func aosVals(v int64) []string {
	if v < 0 {
		v = -v
	}
	n := int(v % 4)
	if v%97 == 3 {
		n = 127
	}
	out := make([]string, n)
	for i := range out {
		switch (v + int64(i)) % 5 {
		case 0:
			out[i] = ""
		case 1:
			out[i] = "\x00\xff,"
		case 2:
			out[i] = "日本語"
		default:
			out[i] = fmt.Sprint(v, ":", i)
		}
	}
	return out
}

// aosCanon parses the bytes a strings-summary writer produced by the published layout.
func aosParse(b []byte) ([]string, error) {
	if len(b) < 5 {
		return nil, fmt.Errorf("short summary image")
	}
	if int(binary.LittleEndian.Uint32(b)) != len(b) {
		return nil, fmt.Errorf("total length %d but %d bytes written", binary.LittleEndian.Uint32(b), len(b))
	}
	n := int(b[4])
	b = b[5:]
	var out []string
	for i := 0; i < n; i++ {
		if len(b) < 4 {
			return nil, fmt.Errorf("short summary image")
		}
		l := int(binary.LittleEndian.Uint32(b))
		if len(b) < 4+l {
			return nil, fmt.Errorf("short summary image")
		}
		out = append(out, string(b[4:4+l]))
		b = b[4+l:]
	}
	if len(b) > 0 {
		return nil, fmt.Errorf("trailing bytes in summary image")
	}
	return out, nil
}

func aosStr(v []string) string { return fmt.Sprintf("%d%q", len(v), v) }

func aosOf(write func(io.Writer) error) []string {
	var b bytes.Buffer
	if err := write(&b); err != nil {
		panic(&core.Failure{Key: "strings-writer", Msg: err.Error()})
	}
	v, err := aosParse(b.Bytes())
	if err != nil {
		panic(&core.Failure{Key: "strings-layout", Msg: err.Error()})
	}
	return v
}

func aosMerge(a, b []string) []string {
	r := append(slices.Clone(a), b...)
	if len(r) > 127 {
		r = r[len(r)-127:]
	}
	return r
}

// aosUn reads the canonical form back.
func aosUn(c string) (out []string) {
	c = c[strings.IndexByte(c, '[')+1:]
	for c != "]" {
		q, err := strconv.QuotedPrefix(c)
		if err != nil {
			panic(err)
		}
		v, _ := strconv.Unquote(q)
		out = append(out, v)
		c = strings.TrimPrefix(c[len(q):], " ")
	}
	return
}

func aosKindParts() (canon func([]string) string, fold func([]int64) string, merge func(a, b string) string, wlen func(string) int) {
	canon = aosStr
	fold = func(v []int64) string { return canon(aosVals(v[len(v)-1])) }
	merge = func(a, b string) string { return canon(aosMerge(aosUn(a), aosUn(b))) }
	wlen = func(c string) int {
		n := 5
		for _, s := range aosUn(c) {
			n += 4 + len(s)
		}
		return n
	}
	return
}

func kindAoS() tkind {
	canon, fold, merge, wlen := aosKindParts()
	get := func(s *tuple.ArrayOfStringsSummary) []string {
		return aosOf(func(w io.Writer) error { return tuple.ArrayOfStringsSummaryWriter(w, s) })
	}
	return gkind[*tuple.ArrayOfStringsSummary, []string]{
		nm: "strings", mk: aosVals, newSum: tuple.NewArrayOfStringsSummaryFunc,
		policy: policyF[*tuple.ArrayOfStringsSummary](func(a, b *tuple.ArrayOfStringsSummary) { a.Update(aosMerge(get(a), get(b))) }),
		canon:  func(s *tuple.ArrayOfStringsSummary) string { return canon(get(s)) },
		mut:    func(s *tuple.ArrayOfStringsSummary) { s.Reset() },
		foldF:  fold, mergeC: merge,
		w: tuple.ArrayOfStringsSummaryWriter, r: tuple.ArrayOfStringsSummaryReader, wlen: wlen,
	}
}

func kindAoSInline() tkind {
	canon, fold, merge, wlen := aosKindParts()
	get := func(s tuple.ArrayOfStringsInlineSummary) []string {
		return aosOf(func(w io.Writer) error { return tuple.ArrayOfStringsInlineSummaryWriter(w, s) })
	}
	return gkind[tuple.ArrayOfStringsInlineSummary, []string]{
		nm: "strings-inline", mk: aosVals, newSum: tuple.NewArrayOfStringsInlineSummary,
		upd: tuple.ArrayOfStringsInlineSummaryUpdateFunc,
		mergeF: func(a, b tuple.ArrayOfStringsInlineSummary) tuple.ArrayOfStringsInlineSummary {
			return tuple.ArrayOfStringsInlineSummaryUpdateFunc(a, aosMerge(get(a), get(b)))
		},
		canon: func(s tuple.ArrayOfStringsInlineSummary) string { return canon(get(s)) },
		foldF: fold, mergeC: merge,
		w: tuple.ArrayOfStringsInlineSummaryWriter, r: tuple.ArrayOfStringsInlineSummaryReader, wlen: wlen,
	}
}

// akind is the array-of-numbers kind.
type akind[V tuple.Number] struct {
	n  uint8
	mk func(int64, int) V
	nm string
}

func (k akind[V]) name() string { return fmt.Sprintf("numbers-%s-%d", k.nm, k.n) }
func (k akind[V]) vals(v int64) []V {
	out := make([]V, k.n)
	for i := range out {
		out[i] = k.mk(v, i)
	}
	return out
}
func (k akind[V]) canon(v []V) string {
	var b bytes.Buffer
	_ = binary.Write(&b, binary.LittleEndian, v)
	return b.String()
}
func (k akind[V]) parse(s string) []V {
	v := make([]V, k.n)
	_ = binary.Read(strings.NewReader(s), binary.LittleEndian, v)
	return v
}
func (k akind[V]) fold(vals []int64) string {
	acc := make([]V, k.n)
	for _, x := range vals {
		for i, y := range k.vals(x) {
			acc[i] += y
		}
	}
	return k.canon(acc)
}
func (k akind[V]) merge(a, b string) string {
	x, y := k.parse(a), k.parse(b)
	for i := range x {
		x[i] = x[i] + y[i] + y[i] + y[i]
	}
	return k.canon(x)
}

type aSum[V tuple.Number] = *tuple.ArrayOfNumbersSummary[V]

func (k akind[V]) apply(a, b aSum[V]) {
	x, y := a.Values(), b.Values()
	for i := range x {
		x[i] = x[i] + y[i] + y[i] + y[i]
	}
}
func (k akind[V]) wrap(s tuple.ArrayOfNumbersSketch[V]) tsk {
	return askG[V]{tskG[aSum[V]]{s, func(x aSum[V]) string { return k.canon(x.Values()) }, func(x aSum[V]) {
		for i := range x.Values() {
			x.Values()[i] = 99
		}
	}}, s}
}

type askG[V tuple.Number] struct {
	tskG[aSum[V]]
	a tuple.ArrayOfNumbersSketch[V]
}

type aupd[V tuple.Number] struct {
	k akind[V]
	s *tuple.ArrayOfNumbersUpdateSketch[V]
}

func (k akind[V]) newUpdate(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tupd, error) {
	s, err := tuple.NewArrayOfNumbersUpdateSketch[V](k.n, tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
	return aupd[V]{k, s}, err
}
func (u aupd[V]) feed(it item, v int64) error {
	x := u.k.vals(v)
	err := feedTuple[[]V](it, u.s, x)
	for i := range x {
		x[i] = 99
	}
	return err
}
func (u aupd[V]) sk() tsk                     { return u.k.wrap(u.s) }
func (u aupd[V]) trim()                       { u.s.Trim() }
func (u aupd[V]) reset()                      { u.s.Reset() }
func (u aupd[V]) compact(o bool) (tsk, error) { return u.k.w1(u.s.Compact(o)) }
func (u aupd[V]) filter(func(string) bool) (tsk, error) {
	return nil, nil
}
func (k akind[V]) w1(c *tuple.ArrayOfNumbersCompactSketch[V], err error) (tsk, error) {
	if err != nil {
		return nil, err
	}
	return k.wrap(c), nil
}
func (k akind[V]) raw(s tsk) tuple.ArrayOfNumbersSketch[V] { return s.(askG[V]).a }

type aunion[V tuple.Number] struct {
	k akind[V]
	u *tuple.ArrayOfNumbersSketchUnion[V]
}

func (k akind[V]) union(lgK uint8, rf theta.ResizeFactor, p float32, seed uint64) (tset, error) {
	u, err := tuple.NewArrayOfNumbersSketchUnion[V](policyF[aSum[V]](k.apply), k.n, tuple.WithUnionLgK(lgK), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed))
	return aunion[V]{k, u}, err
}
func (u aunion[V]) update(s tsk) error         { return u.u.Update(u.k.raw(s)) }
func (u aunion[V]) result(o bool) (tsk, error) { return u.k.w1(u.u.Result(o)) }
func (u aunion[V]) reset()                     { u.u.Reset() }

type ainter[V tuple.Number] struct {
	k akind[V]
	u *tuple.ArrayOfNumbersSketchIntersection[V]
}

func (k akind[V]) inter(seed uint64) tset {
	return ainter[V]{k, tuple.NewArrayOfNumbersSketchIntersection[V](policyF[aSum[V]](k.apply), k.n, tuple.WithIntersectionSeed(seed))}
}
func (u ainter[V]) update(s tsk) error         { return u.u.Update(u.k.raw(s)) }
func (u ainter[V]) result(o bool) (tsk, error) { return u.k.w1(u.u.Result(o)) }
func (u ainter[V]) reset()                     {}
func (k akind[V]) diff(a, b tsk, seed uint64, o bool) (tsk, error) {
	return k.w1(tuple.ArrayOfNumbersSketchANotB[V](k.raw(a), k.raw(b), seed, o))
}
func (k akind[V]) diffTheta(tsk, theta.Sketch, uint64, bool) (tsk, error) { return nil, nil }
func (k akind[V]) fromTheta(theta.Sketch, int64, bool) (tsk, error)       { return nil, nil }
func (k akind[V]) compactOf(s tsk, o bool) (tsk, error) {
	return k.w1(tuple.NewArrayOfNumbersCompactSketch[V](k.raw(s), o))
}
func (k akind[V]) filterOf(tsk, func(string) bool) (tsk, error) { return nil, nil }
func (k akind[V]) encode(s tsk) ([]byte, error) {
	var b bytes.Buffer
	e := tuple.NewArrayOfNumbersSketchEncoder[V](&b)
	err := e.Encode(k.raw(s).(*tuple.ArrayOfNumbersCompactSketch[V]))
	return b.Bytes(), err
}
func (k akind[V]) decode(b []byte, seed uint64) (tsk, error) {
	if len(b)%16 == 0 {
		return k.w1(tuple.DecodeArrayOfNumbersCompactSketch[V](b, seed))
	}
	d := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](seed)
	return k.w1(d.Decode(bytes.NewReader(b)))
}
func (k akind[V]) encodeTo(w io.Writer, ss []tsk) error {
	e := tuple.NewArrayOfNumbersSketchEncoder[V](w)
	for _, s := range ss {
		if err := e.Encode(k.raw(s).(*tuple.ArrayOfNumbersCompactSketch[V])); err != nil {
			return err
		}
	}
	return nil
}
func (k akind[V]) decodeFrom(r io.Reader, seed uint64) (tsk, error) {
	d := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](seed)
	c, err := d.Decode(r)
	if err != nil {
		return nil, err
	}
	return k.w1(c, nil)
}
func (k akind[V]) encodeBad(tsk, int, error) error            { return nil }
func (k akind[V]) decodeBad([]byte, uint64, int, error) error { return nil }
func (k akind[V]) jaccard(a, b tsk, seed uint64) (tuple.JaccardSimilarityResult, bool, error) {
	r, err := tuple.Jaccard[aSum[V]](k.raw(a), k.raw(b), policyF[aSum[V]](k.apply), seed)
	return r, true, err
}
func (k akind[V]) similar(a, b tsk, th float64, seed uint64) (equal, sim, dis bool, err error) {
	pol := policyF[aSum[V]](k.apply)
	equal, e1 := tuple.IsExactlyEqual[aSum[V]](k.raw(a), k.raw(b), pol, seed)
	sim, e2 := tuple.IsSimilar[aSum[V]](k.raw(a), k.raw(b), pol, th, seed)
	dis, e3 := tuple.IsDissimilar[aSum[V]](k.raw(a), k.raw(b), pol, th, seed)
	return equal, sim, dis, errors.Join(e1, e2, e3)
}
func (k akind[V]) wireLen(m map[uint64]string, _ int) int {
	if len(m) == 0 {
		return 16
	}
	return 24 + len(m)*(8+binary.Size(make([]V, k.n)))
}

func intMk[V ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64](v int64, i int) V {
	return V(v*int64(i*i+1) + int64(i)<<(7*i))
}

// floatMk makes small integers so sums and merges are exact, whatever their grouping.
func floatMk[V ~float32 | ~float64](v int64, i int) V { return V((v+int64(i)*31)%64 - 20) }

func tupleKinds(t *T) tkind {
	switch n := uint8(t.IntN(4)); t.IntN(12) {
	case 0, 1:
		return kindLog()
	case 2, 3:
		return kindVal()
	case 4:
		return kindAoS()
	case 5:
		return kindAoSInline()
	case 6:
		return akind[float64]{n + 1, floatMk[float64], "f64"}
	case 7:
		return akind[float32]{n, floatMk[float32], "f32"}
	case 8:
		return akind[int64]{n + 1, intMk[int64], "i64"}
	case 9:
		return akind[uint8]{n, intMk[uint8], "u8"}
	case 10:
		return akind[int32]{n + 1, intMk[int32], "i32"}
	default:
		switch t.IntN(5) {
		case 0:
			return akind[int16]{n, intMk[int16], "i16"}
		case 1:
			return akind[uint16]{n, intMk[uint16], "u16"}
		case 2:
			return akind[uint32]{n, intMk[uint32], "u32"}
		case 3:
			return akind[uint64]{n, intMk[uint64], "u64"}
		}
		return akind[int8]{255, intMk[int8], "i8"}
	}
}

// wellT checks what every tuple sketch promises about its own content.
func wellT(t *T, s tsk, key string) tsnap {
	n := s.snap()
	t.Check(s.numRetained() == len(n.order), key+"-count", "NumRetained %d but iteration yields %d", s.numRetained(), len(n.order))
	for i, h := range n.hashes {
		t.Check(h != 0 && h < n.theta, key+"-range", "retained hash %d not in (0, theta=%d)", h, n.theta)
		if i > 0 {
			t.Check(h != n.hashes[i-1], key+"-dup", "hash %d retained twice", h)
		}
	}
	if n.ordered {
		t.Check(slices.IsSorted(n.order), key+"-order", "sketch says ordered but iterates unordered")
	}
	return n
}

func checkT(t *T, s tsk, want tsnap, key string) tsnap {
	g := wellT(t, s, key)
	t.Check(g.theta == want.theta, key+"-theta", "theta %d, want %d (retained %d, want %d)", g.theta, want.theta, len(g.hashes), len(want.hashes))
	t.Check(slices.Equal(g.hashes, want.hashes), key+"-hashes", "retained %d hashes, want %d; first difference %s", len(g.hashes), len(want.hashes), firstDiff(g.hashes, want.hashes))
	t.Check(g.empty == want.empty, key+"-empty", "empty=%v, want %v", g.empty, want.empty)
	t.Check(g.seed == want.seed, key+"-seed", "seed hash %d, want %d", g.seed, want.seed)
	for h, c := range g.sum {
		t.Check(c == want.sum[h], key+"-summary", "summary of key %d is %q, want %q", h, c, want.sum[h])
	}
	return g
}
