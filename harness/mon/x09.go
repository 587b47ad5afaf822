package mon

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/apache/datasketches-go/common"
	cm "github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/kll"
	sp "github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

// X09: encoders write the same image to any writer, one after the other, and
// report its failures; decoders read it from any reader, however fragmented, leave
// what follows it unread, and report its failures and those of the caller's own
// item and summary code.

func init() {
	const non = "non-trivial: at least one image went through a failing or fragmenting stream (or the caller's serialization code failed); distinct by the images"
	for _, k := range []struct {
		name string
		make func(t *T) *strm
	}{{"theta", x9Theta}, {"tuple", x9Tuple}, {"tdigest", x9Td}, {"count", x9Count}, {"varopt", x9Var}} {
		core.Register("X09", non, core.Family{Name: k.name, Quick: 1500, Thorough: 60000, Run: func(t *T) { x9Run(t, k.make(t)) }})
	}
	core.Register("X09", non, core.Family{Name: "serde", Quick: 3000, Thorough: 100000, Run: x9Serde})
	core.Assume("X09", "writers and readers keep the contracts of io.Writer and io.Reader")
}

var errStream = errors.New("the stream failed")

// strm is a number of objects that one encoder writes and one decoder reads.
type strm struct {
	name   string
	n      int
	encode func(w io.Writer, from, to int) error // with one encoder
	decode func(r io.Reader) (string, error)     // nil: it has no stream decoder
	whole  bool                                  // the decoder reads to the end of the stream
	want   func(i int) string                    // what the decoder gives
	look   func() string
	more   func(t *T, i int, img []byte)
}

// failWriter takes left bytes, or calls calls, and then fails once or for ever.
type failWriter struct {
	got         bytes.Buffer
	left, calls int
	once        bool
	failed      int
	short       bool // takes a part of the failing write
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed > 0 && w.once {
		return len(p), nil
	}
	if w.failed == 0 && w.left >= len(p) && w.calls > 0 {
		w.left -= len(p)
		w.calls--
		w.got.Write(p)
		return len(p), nil
	}
	w.failed++
	n := 0
	if w.short && w.failed == 1 {
		n = min(w.left, len(p))
		w.got.Write(p[:n])
	}
	return n, errStream
}

// pieces reads at random sizes, at times nothing, and counts what it gave.
type pieces struct {
	t    *T
	data []byte
	at   int
	last error // given once the data is exhausted
	with bool  // together with the last piece
	told int   // how often it gave last and nothing else
}

func (r *pieces) Read(p []byte) (int, error) {
	if r.at == len(r.data) {
		r.told++
		return 0, r.last
	}
	if len(p) == 0 || r.t.IntN(10) == 0 {
		return 0, nil
	}
	n := min(1+r.t.IntN(min(len(p), 40)), len(r.data)-r.at)
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.with && r.at == len(r.data) {
		return n, r.last
	}
	return n, nil
}

func x9Run(t *T, s *strm) {
	before := s.look()
	var all bytes.Buffer
	var imgs [][]byte
	for i := range s.n {
		var b bytes.Buffer
		t.NoErr(s.encode(&b, i, i+1), "encode")
		imgs = append(imgs, b.Bytes())
		t.Sig(b.Bytes())
	}
	t.NoErr(s.encode(&all, 0, s.n), "encode")
	t.Check(bytes.Equal(all.Bytes(), bytes.Join(imgs, nil)), "sequence", "%s: %d sketches by one encoder give %x, each alone %x", s.name, s.n, x9Trim(all.Bytes(), 60), x9Trim(bytes.Join(imgs, nil), 60))
	t.Desc("%s: %d images of %d bytes", s.name, s.n, all.Len())

	for i, img := range imgs {
		var cuts []int
		if len(img) <= 24 {
			for c := range len(img) {
				cuts = append(cuts, c)
			}
		} else {
			cuts = []int{0, len(img) - 1, t.IntN(len(img)), t.IntN(len(img)), t.IntN(24), t.IntN(len(img))}
		}
		for _, c := range cuts {
			w := &failWriter{left: c, calls: 1 << 30, once: t.IntN(2) == 0, short: t.IntN(2) == 0}
			err := s.encode(w, i, i+1)
			t.Check(err != nil, "write-error", "%s: a writer that failed after %d of %d bytes (%d times) gave no error", s.name, c, len(img), w.failed)
			t.Check(bytes.HasPrefix(img, w.got.Bytes()), "write-prefix", "%s: before the writer failed it got %x, the image is %x", s.name, x9Trim(w.got.Bytes(), 60), x9Trim(img, 60))
			t.Ev("writer failures")
		}
		for calls := range 1 + t.IntN(12) { // whatever was buffered
			w := &failWriter{left: 1 << 40, calls: calls, once: true}
			err := s.encode(w, i, i+1)
			t.Check((err != nil) == (w.failed > 0), "write-error", "%s: a writer that failed %d times, first in its write number %d, gave %v", s.name, w.failed, calls+1, err)
		}
		now := s.look()
		t.Check(now == before, "encode-changed", "%s: failed encodings changed it: %s, was %s", s.name, trimString(now), trimString(before))
		var b bytes.Buffer
		t.NoErr(s.encode(&b, i, i+1), "encode")
		t.Check(bytes.Equal(b.Bytes(), img), "encode-again", "%s: after failed encodings the image is %x, was %x", s.name, x9Trim(b.Bytes(), 60), x9Trim(img, 60))
		t.NonTrivial()
	}
	if s.decode != nil {
		for i, img := range imgs {
			want := s.want(i)
			for j, r := range []io.Reader{bytes.NewReader(img), iotest.OneByteReader(bytes.NewReader(img)), iotest.HalfReader(bytes.NewReader(img)),
				iotest.DataErrReader(bytes.NewReader(img)), &pieces{t: t, data: img, last: io.EOF, with: t.IntN(2) == 0}} {
				got, err := s.decode(r)
				t.NoErr(err, fmt.Sprintf("%s: decode from reader %d", s.name, j))
				t.Check(got == want, "read-content", "%s: reader %d gives %s, expected %s", s.name, j, trimString(got), trimString(want))
				t.Ev("fragmented reads")
			}
			for range 3 {
				c := t.IntN(len(img))
				_, err := s.decode(&pieces{t: t, data: img[:c], last: errStream, with: t.IntN(2) == 0})
				t.Check(err != nil, "read-error", "%s: a reader that failed after %d of %d bytes gave no error", s.name, c, len(img))
				t.Ev("reader failures")
			}
			if s.whole {
				r := &pieces{t: t, data: img, last: errStream}
				_, err := s.decode(r)
				// whether it looks beyond the image is not specified, but not to hide what it saw there
				t.Check(err != nil || r.told == 0, "read-error-after", "%s: a reader that failed after the %d bytes of the image gave no error", s.name, len(img))
				continue
			}
			tail := make([]byte, t.IntN(20))
			r := &pieces{t: t, data: append(bytes.Clone(img), tail...), last: errStream}
			got, err := s.decode(r)
			t.NoErr(err, s.name+": decode from a longer stream")
			t.Check(got == want && r.at == len(img), "read-over", "%s: of a stream of %d bytes the decoder read %d, the image has %d", s.name, len(r.data), r.at, len(img))
		}
		if !s.whole {
			r := &pieces{t: t, data: all.Bytes(), last: io.EOF, with: t.IntN(2) == 0}
			end := 0
			for i := range s.n {
				got, err := s.decode(r)
				t.NoErr(err, fmt.Sprintf("%s: decode image %d of %d", s.name, i+1, s.n))
				end += len(imgs[i])
				t.Check(got == s.want(i) && r.at == end, "read-sequence", "%s: image %d of %d in a stream gives %s (read up to %d), expected %s (%d)", s.name, i+1, s.n, trimString(got), r.at, trimString(s.want(i)), end)
			}
			_, err := s.decode(r)
			t.Check(err != nil, "read-end", "%s: the end of the stream decoded as a sketch", s.name)
			t.Ev("sequences of images")
		}
	}
	if s.more != nil {
		for i, img := range imgs {
			s.more(t, i, img)
		}
	}
}

func x9Trim(b []byte, n int) []byte { return b[:min(n, len(b))] }

func x9Theta(t *T) *strm {
	seed := seedsPool[t.IntN(len(seedsPool))]
	var cs []*theta.CompactSketch
	for range 1 + t.IntN(3) {
		cs = append(cs, buildTheta(t, uint8(5+t.IntN(5)), seed, 1+t.IntN(2000)).Compact(t.IntN(3) > 0))
	}
	comp := t.IntN(2) == 0
	return &strm{name: fmt.Sprintf("theta compressed=%v", comp), n: len(cs), whole: true,
		encode: func(w io.Writer, from, to int) error {
			e := theta.NewEncoder(w, comp)
			for _, c := range cs[from:to] {
				if err := e.Encode(c); err != nil {
					return err
				}
			}
			return nil
		},
		decode: func(r io.Reader) (string, error) {
			d := theta.NewDecoder(seed)
			c, err := d.Decode(r)
			if err != nil {
				return "", err
			}
			return xbThetaLook(c), nil
		},
		want: func(i int) string { // the same bytes at once
			var b bytes.Buffer
			e := theta.NewEncoder(&b, comp)
			t.NoErr(e.Encode(cs[i]), "encode")
			c, err := theta.Decode(b.Bytes(), seed)
			t.NoErr(err, "decode")
			sn, was := snapOf(c), snapOf(cs[i])
			t.Check(sameSnap(sn, was), "read-content", "theta: decoding changed the content")
			return xbThetaLook(c)
		},
		look: func() (o string) {
			for _, c := range cs {
				o += xbThetaLook(c)
			}
			return
		}}
}

func x9Tuple(t *T) *strm {
	seed := seedsPool[t.IntN(len(seedsPool))]
	k := tupleKinds(t)
	var cs []tsk
	for range 1 + t.IntN(3) {
		c, err := k.compactOf(xbTupleFresh(t, k, seed).sk(), t.IntN(3) > 0)
		t.NoErr(err, "compact")
		cs = append(cs, c)
	}
	look := func(c tsk) string { // a decoded empty sketch may be ordered
		sn := c.snap()
		return show(sn.theta, sn.order, sn.empty, sn.sum, c.numRetained())
	}
	return &strm{name: "tuple " + k.name(), n: len(cs),
		encode: func(w io.Writer, from, to int) error { return k.encodeTo(w, cs[from:to]) },
		decode: func(r io.Reader) (string, error) {
			c, err := k.decodeFrom(r, seed)
			if err != nil {
				return "", err
			}
			return look(c), nil
		},
		want: func(i int) string { return look(cs[i]) },
		look: func() (o string) {
			for _, c := range cs {
				o += xbTupleLook(c)
			}
			return
		},
		more: func(t *T, i int, img []byte) {
			n := cs[i].numRetained()
			if n == 0 || k.encodeBad(cs[i], 1, errStream) == nil && len(k.name()) > 7 && k.name()[:7] == "numbers" {
				return
			}
			for range 3 {
				at := 1 + t.IntN(n)
				err := k.encodeBad(cs[i], at, errStream)
				t.Check(err != nil, "summary-writer", "tuple %s: a summary writer that failed at entry %d of %d gave no error", k.name(), at, n)
				err = k.decodeBad(img, seed, at, errStream)
				t.Check(err != nil, "summary-reader", "tuple %s: a summary reader that failed at entry %d of %d gave no error", k.name(), at, n)
				t.Ev("failures of summary code")
			}
		}}
}

func x9Td(t *T) *strm {
	var ds []*tdigest.Double
	for range 1 + t.IntN(3) {
		d, _ := tdGrow(t, uint16(10+t.IntN(60)), t.IntN(5)*t.IntN(150), 1)
		if d.IsEmpty() || t.IntN(2) == 0 {
			ds = append(ds, d)
			continue
		}
		_, err := d.Quantile(0.5) // nothing left to settle
		t.NoErr(err, "quantile")
		ds = append(ds, d)
	}
	buf := t.IntN(2) == 0
	if !buf { // encoding without the buffer settles it
		for _, d := range ds {
			_, err := tdigest.EncodeDouble(d, false)
			t.NoErr(err, "encode")
		}
	}
	look := func(d *tdigest.Double) string {
		x, err := tdigest.EncodeDouble(d, true)
		lo, _ := d.MinValue()
		hi, _ := d.MaxValue()
		return show(x, err, lo, hi, d.TotalWeight(), d.K())
	}
	return &strm{name: fmt.Sprintf("tdigest buffer=%v", buf), n: len(ds),
		encode: func(w io.Writer, from, to int) error {
			e := tdigest.NewDoubleEncoder(w, buf)
			for _, d := range ds[from:to] {
				if err := e.Encode(d); err != nil {
					return err
				}
			}
			return nil
		},
		decode: func(r io.Reader) (string, error) {
			var d tdigest.DoubleDecoder
			x, err := d.Decode(r)
			if err != nil {
				return "", err
			}
			return look(x), nil
		},
		want: func(i int) string { return look(ds[i]) },
		look: func() (o string) {
			for _, d := range ds {
				o += look(d)
			}
			return
		}}
}

func x9Count(t *T) *strm {
	seed := cmSeedOK(t)
	var cs []*cm.CountMinSketch
	for range 1 + t.IntN(3) {
		s, err := cm.NewCountMinSketch(int8(1+t.IntN(5)), int32(3+t.IntN(60)), seed)
		t.NoErr(err, "new")
		for range t.IntN(3) * t.IntN(60) {
			t.NoErr(s.UpdateUint64(uint64(t.IntN(500)), 1+int64(t.IntN(9))), "update")
		}
		cs = append(cs, s)
	}
	return &strm{name: "count-min", n: len(cs),
		encode: func(w io.Writer, from, to int) error {
			for _, c := range cs[from:to] {
				if err := c.Serialize(w); err != nil {
					return err
				}
			}
			return nil
		},
		look: func() (o string) {
			for _, c := range cs {
				o += show(cmImage(t, c), c.GetTotalWeight())
			}
			return
		}}
}

func x9Var(t *T) *strm {
	switch t.IntN(3) {
	case 0:
		return x9VarOf(t, &spLong)
	case 1:
		return x9VarOf(t, &spDouble)
	}
	return x9VarOf(t, &spString)
}

func x9VarOf[I comparable](t *T, kd *spKind[I]) *strm {
	n := 1 + t.IntN(3)
	if t.IntN(2) == 0 {
		var us []*sp.VarOptItemsUnion[I]
		for range n {
			u, err := sp.NewVarOptItemsUnion[I](uint(2 + t.IntN(20)))
			t.NoErr(err, "union")
			for range t.IntN(4) {
				t.NoErr(u.Update(xbVarFresh(t, kd)), "union")
			}
			us = append(us, u)
		}
		return &strm{name: "varopt union " + kd.name, n: n,
			encode: func(w io.Writer, from, to int) error {
				e := sp.NewVarOptItemsUnionEncoder[I](w, kd.serde)
				for _, u := range us[from:to] {
					if err := e.Encode(u); err != nil {
						return err
					}
				}
				return nil
			},
			look: func() (o string) {
				for _, u := range us {
					o += show(vuImage(t, u, kd.serde))
				}
				return
			}}
	}
	var ss []*sp.VarOptItemsSketch[I]
	for range n {
		ss = append(ss, xbVarFresh(t, kd))
	}
	return &strm{name: "varopt " + kd.name, n: n,
		encode: func(w io.Writer, from, to int) error {
			e := sp.NewVarOptItemsSketchEncoder[I](w, kd.serde)
			for _, s := range ss[from:to] {
				if err := e.Encode(s); err != nil {
					return err
				}
			}
			return nil
		},
		look: func() (o string) {
			for _, s := range ss {
				o += show(s.N(), s.K(), s.H(), s.R(), fmt.Sprintf("%v", voAll(s)), vwImage(t, s, kd.serde))
			}
			return
		}}
}

// badSerde is the caller's item code that fails at its at'th decoding or sizing, in
// one of the ways it may.
type badSerde[C any] struct {
	common.ItemSketchSerde[C]
	at, calls int
	failed    bool
	sizes     bool
}

func (b *badSerde[C]) DeserializeManyFromSlice(mem []byte, off, n int) ([]C, error) {
	if !b.sizes {
		if b.calls++; b.calls == b.at {
			b.failed = true
			return nil, errStream
		}
	}
	return b.ItemSketchSerde.DeserializeManyFromSlice(mem, off, n)
}

func (b *badSerde[C]) SizeOfMany(mem []byte, off, n int) (int, error) {
	if b.sizes {
		if b.calls++; b.calls == b.at {
			b.failed = true
			return 0, errStream
		}
	}
	return b.ItemSketchSerde.SizeOfMany(mem, off, n)
}

func x9Bad[C any](t *T, name string, good common.ItemSketchSerde[C], img []byte, decode func(serde common.ItemSketchSerde[C]) error) {
	t.Desc("%s of %d bytes", name, len(img))
	t.Sig(name, img)
	t.NoErr(decode(good), name)
	for _, sizes := range []bool{false, true} {
		for at := 1; at < 12; at++ {
			b := &badSerde[C]{ItemSketchSerde: good, at: at, sizes: sizes}
			err := decode(b)
			if !b.failed {
				t.NoErr(err, name)
				break
			}
			t.Check(err != nil, "serde-error", "%s: the item code failed at call %d (sizing: %v) and decoding gave no error", name, at, sizes)
			t.Ev("failures of item code")
			t.NonTrivial()
		}
	}
}

func x9Serde(t *T) {
	if t.IntN(2) == 0 {
		x9SerdeOf(t, kllKindOf[string](t), &spString)
	} else {
		x9SerdeOf(t, kllKindOf[int64](t), &spLong)
	}
}

func x9SerdeOf[C comparable](t *T, kd *kllKind[C], sk *spKind[C]) {
	switch t.IntN(6) {
	case 0, 1:
		s, err := kll.NewKllItemsSketch[C](uint16(8+t.IntN(40)), 8, kd.less, kd.serde)
		t.NoErr(err, "new")
		for range t.IntN(3) * t.IntN(300) {
			s.Update(kd.of(int64(t.IntN(1000))))
		}
		img, err := s.ToSlice()
		t.NoErr(err, "encode")
		x9Bad(t, "kll "+kd.name, kd.serde, img, func(serde common.ItemSketchSerde[C]) error {
			d, err := kll.NewKllItemsSketchFromSlice[C](img, kd.less, serde)
			if err != nil {
				return err
			}
			_, err = d.GetMinItem()
			if d.IsEmpty() {
				return nil
			}
			return err
		})
	case 2:
		var h any = common.ItemSketchStringHasher{}
		if _, ok := any(sk.key(1)).(int64); ok {
			h = common.ItemSketchLongHasher{}
		}
		hasher := h.(common.ItemSketchHasher[C])
		s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[C](1<<(3+t.IntN(4)), hasher, sk.serde)
		t.NoErr(err, "new")
		for range t.IntN(3) * t.IntN(200) {
			t.NoErr(s.Update(sk.key(t.IntN(300))), "update")
		}
		img, err := s.ToSlice()
		t.NoErr(err, "encode")
		x9Bad(t, "frequencies "+sk.name, sk.serde, img, func(serde common.ItemSketchSerde[C]) error {
			_, err := frequencies.NewFrequencyItemsSketchFromSlice[C](img, hasher, serde)
			return err
		})
	case 3:
		s := xbResFresh(t, sk)
		img, err := s.ToSlice(sk.serde)
		t.NoErr(err, "encode")
		x9Bad(t, "reservoir "+sk.name, sk.serde, img, func(serde common.ItemSketchSerde[C]) error {
			_, err := sp.NewReservoirItemsSketchFromSlice[C](img, serde)
			return err
		})
		u, err := sp.NewReservoirItemsUnion[C](2 + t.IntN(20))
		t.NoErr(err, "union")
		t.NoErr(u.UpdateSketch(s), "union")
		img2, err := u.ToSlice(sk.serde)
		t.NoErr(err, "encode")
		x9Bad(t, "reservoir union "+sk.name, sk.serde, img2, func(serde common.ItemSketchSerde[C]) error {
			_, err := sp.NewReservoirItemsUnionFromSlice[C](img2, serde)
			return err
		})
	case 4:
		img := vwImage(t, xbVarFresh(t, sk), sk.serde)
		x9Bad(t, "varopt "+sk.name, sk.serde, img, func(serde common.ItemSketchSerde[C]) error {
			_, err := sp.DecodeVarOptItemsSketch[C](img, serde)
			return err
		})
	default:
		u, err := sp.NewVarOptItemsUnion[C](uint(2 + t.IntN(20)))
		t.NoErr(err, "union")
		for range t.IntN(3) {
			t.NoErr(u.Update(xbVarFresh(t, sk)), "union")
		}
		img := vuImage(t, u, sk.serde)
		x9Bad(t, "varopt union "+sk.name, sk.serde, img, func(serde common.ItemSketchSerde[C]) error {
			_, err := sp.DecodeVarOptItemsUnion[C](img, serde)
			return err
		})
	}
}
