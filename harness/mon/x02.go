package mon

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"strings"
	"syscall"
	"time"

	"verif/harness/core"
)

// x2driver is one decoder of the library under hostile bytes.
type x2driver struct {
	name  string
	files []string            // fixture patterns under /repo
	gen   func(t *T) [][]byte // valid images made here
	run   func(b []byte, u bool) (canon string, err error)
	extra func(b []byte) int64             // allocation the image legitimately declares
	heavy func(b []byte) bool              // declares a capacity too large to try
	more  func(t *T, base []byte) [][]byte // further mutations of this format
	hdr   int                              // header bytes to attack exhaustively
	raw   bool                             // no prefix rule (the format has no length)
}

var x2drivers = map[string]*x2driver{}

// x2register adds a decoder and its family of cases.
func x2register(d *x2driver, quick, thorough int) {
	x2drivers[d.name] = d
	if d.hdr == 0 {
		d.hdr = 40
	}
	core.Register("X02", "", core.Family{Name: d.name, Quick: quick, Thorough: thorough, Run: func(t *T) { x2Case(t, d) }})
}

func init() {
	core.Register("X02", "non-trivial: a valid base image and at least 50 of its mutations were decoded in a memory-limited child, some refused and some accepted; distinct by decoder, base image and outcome counts")
	core.Assume("X02", "allocation is compared with 8 MB + 256 bytes per input byte + 6 times the capacity the image declares; images that legitimately declare more than 64 MB are not tried",
		"each child has 3 GB of address space and 60 s of silence before it counts as hung")
	core.Mode("x02worker", x2Worker)
}

var (
	x2debug = os.Getenv("X02_DEBUG") != ""
	x2tty   = func() *os.File {
		if f := os.Getenv("X02_DEBUG"); f != "" {
			o, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			return o
		}
		return nil
	}()
)

const x2maxFrame = 1 << 22

// x2Worker decodes frames from stdin and reports on stdout.
func x2Worker(args []string) {
	d := x2drivers[args[0]]
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMaxStack(64 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		var h [4]byte
		if _, err := io.ReadFull(in, h[:]); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(in, b); err != nil {
			return
		}
		t0 := time.Now()
		st, alloc, canon, msg := x2One(d, b)
		if e := time.Since(t0); x2debug && e > time.Second {
			fmt.Fprintf(x2tty, "slow %v %s %s\n", e, d.name, hex.EncodeToString(b[:min(len(b), 400)]))
		}
		var r [21]byte
		r[0] = st
		binary.LittleEndian.PutUint64(r[1:], alloc)
		binary.LittleEndian.PutUint64(r[9:], canon)
		binary.LittleEndian.PutUint32(r[17:], uint32(len(msg)))
		_, _ = out.Write(r[:])
		_, _ = out.WriteString(msg)
		_ = out.Flush()
	}
}

func x2Allocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// x2Stop ends the decode phase of a frame: run calls it through x2mark.
var x2mark func()

func x2One(d *x2driver, b []byte) (st byte, alloc, canon uint64, msg string) {
	defer func() {
		if e := recover(); e != nil {
			st, msg = 2, fmt.Sprintf("%s\x00%v", x2Frame(string(debug.Stack())), e)
		}
	}()
	a0 := x2Allocs()
	var used uint64
	x2mark = func() { used = x2Allocs() - a0 }
	c, err := d.run(b, true)
	if err != nil {
		if used == 0 {
			used = x2Allocs() - a0
		}
		return 0, used, 0, ""
	}
	h := fnv.New64a()
	_, _ = io.WriteString(h, c)
	return 1, used, h.Sum64(), ""
}

// x2Frame is the innermost library function on a panicking stack.
func x2Frame(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "datasketches-go/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			l = l[i+len("datasketches-go/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return strings.NewReplacer("[...]", "", "(", "", ")", "", "*", "", " ", "_").Replace(l)
		}
	}
	return "harness"
}

type x2res struct {
	st           byte
	alloc, canon uint64
	msg          string
}

type x2child struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *x2tail
}

type x2tail struct{ b []byte }

func (w *x2tail) Write(p []byte) (int, error) {
	if len(w.b) < 1<<14 {
		w.b = append(w.b, p...)
	}
	return len(p), nil
}

func x2Start(t *T, d *x2driver) *x2child {
	exe, err := os.Executable()
	t.NoErr(err, "harness-exe")
	c := &x2child{cmd: exec.Command(exe, "x02worker", d.name), errb: &x2tail{}}
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1GiB")
	c.cmd.Stderr = c.errb
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.in, err = c.cmd.StdinPipe()
	t.NoErr(err, "harness-pipe")
	o, err := c.cmd.StdoutPipe()
	t.NoErr(err, "harness-pipe")
	c.out = bufio.NewReaderSize(o, 1<<16)
	t.NoErr(c.cmd.Start(), "harness-start")
	return c
}

// x2Batch decodes the frames in a child; a dead or silent child ends the batch
// and the frame it was working on gets status 3 (died) or 4 (hung).
func x2Batch(t *T, d *x2driver, frames [][]byte) []x2res {
	c := x2Start(t, d)
	beat := make(chan struct{}, 1)
	quit := make(chan struct{})
	hung := false
	go func() {
		for {
			select {
			case <-beat:
			case <-quit:
				return
			case <-time.After(60 * time.Second):
				hung = true
				_ = c.cmd.Process.Kill()
				return
			}
		}
	}()
	go func() {
		w := bufio.NewWriterSize(c.in, 1<<16)
		var h [4]byte
		for _, f := range frames {
			binary.LittleEndian.PutUint32(h[:], uint32(len(f)))
			if _, err := w.Write(h[:]); err != nil {
				break
			}
			if _, err := w.Write(f); err != nil {
				break
			}
		}
		_ = w.Flush()
		_ = c.in.Close()
	}()
	var res []x2res
	for range frames {
		var r [21]byte
		if _, err := io.ReadFull(c.out, r[:]); err != nil {
			break
		}
		m := make([]byte, binary.LittleEndian.Uint32(r[17:]))
		if _, err := io.ReadFull(c.out, m); err != nil {
			break
		}
		res = append(res, x2res{r[0], binary.LittleEndian.Uint64(r[1:]), binary.LittleEndian.Uint64(r[9:]), string(m)})
		select {
		case beat <- struct{}{}:
		default:
		}
	}
	close(quit)
	if len(res) < len(frames) {
		_ = c.cmd.Process.Kill()
	}
	_ = c.cmd.Wait()
	if len(res) < len(frames) {
		st := byte(3)
		if hung {
			st = 4
		}
		if x2debug {
			fmt.Fprintf(x2tty, "dead %s %s\n%s\n", d.name, hex.EncodeToString(frames[len(res)][:min(len(frames[len(res)]), 2000)]), c.errb.b)
		}
		line, _, _ := strings.Cut(string(c.errb.b), "\n")
		res = append(res, x2res{st: st, msg: x2Frame("panic("+string(c.errb.b)) + "\x00" + line})
	}
	return res
}

// x2Run decodes all frames, restarting the child after deaths.
func x2Run(t *T, d *x2driver, frames [][]byte) []x2res {
	var res []x2res
	for deaths := 0; len(res) < len(frames) && deaths < 6; {
		r := x2Batch(t, d, frames[len(res):])
		res = append(res, r...)
		switch r[len(r)-1].st {
		case 3:
			deaths++
		case 4: // the case has failed: do not wait for more of the same
			return res
		}
	}
	return res
}

var x2ints = []uint64{0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 4096, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 26, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0x7ff0000000000000, 0x7ff8000000000001, 0xfff0000000000000, 0x3ff0000000000000, 0xbff0000000000000, 0x7f800000, 0x7fc00000, 0x7fefffffffffffff}
var x2bytes = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 21, 22, 24, 26, 27, 28, 31, 32, 60, 62, 63, 64, 65, 127, 128, 200, 254, 255}

// x2Mutate returns mutations of base; the first n0 are its proper prefixes.
func x2Mutate(t *T, d *x2driver, base []byte, others [][]byte) (frames [][]byte, n0 int) {
	add := func(b []byte) {
		if len(b) <= x2maxFrame {
			frames = append(frames, b)
		}
	}
	small := 400
	if t.Thorough() {
		small = 3000
	}
	n := len(base)
	if n <= small {
		for i := 0; i < n; i++ {
			add(base[:i:i])
		}
	} else {
		cuts := map[int]bool{}
		for i := 0; i < 120; i++ {
			cuts[i] = true
			cuts[n-1-i] = true
			cuts[t.IntN(n)] = true
			cuts[n/120*i] = true
		}
		for i := range n {
			if cuts[i] {
				add(base[:i:i])
			}
		}
	}
	n0 = len(frames)
	hdr := min(n, d.hdr)
	mod := func(f func(b []byte)) { b := slices.Clone(base); f(b); add(b) }
	for i := 0; i < hdr*8; i++ {
		mod(func(b []byte) { b[i/8] ^= 1 << (i % 8) })
	}
	for i := 0; i < hdr; i++ {
		for _, v := range x2bytes {
			if base[i] != v {
				mod(func(b []byte) { b[i] = v })
			}
		}
	}
	put := func(b []byte, at, w int, v uint64) {
		for j := 0; j < w && at+j < len(b); j++ {
			b[at+j] = byte(v >> (8 * j))
		}
	}
	for _, w := range []int{2, 4, 8} {
		for at := 0; at+w <= hdr; at += w {
			for _, v := range x2ints {
				mod(func(b []byte) { put(b, at, w, v) })
			}
			var cur uint64
			for j := w - 1; j >= 0; j-- {
				cur = cur<<8 | uint64(base[at+j])
			}
			for _, dv := range []uint64{1, ^uint64(0), 2, ^uint64(1), cur, 8, 64, 1 << 16} {
				mod(func(b []byte) { put(b, at, w, cur+dv) })
			}
		}
	}
	for _, k := range []int{1, 2, 4, 7, 8, 16, 64} {
		for _, v := range []byte{0, 0xff, 1} {
			x := slices.Clone(base)
			for range k {
				x = append(x, v)
			}
			add(x)
		}
	}
	rnd := 600
	if t.Thorough() {
		rnd = 4000
	}
	one := func(b []byte) []byte {
		if len(b) == 0 {
			return []byte{byte(t.Uint32())}
		}
		lim := len(b)
		if t.IntN(2) == 0 {
			lim = min(lim, hdr+8)
		}
		at := t.IntN(lim)
		switch t.IntN(9) {
		case 0:
			b[at] ^= 1 << t.IntN(8)
		case 1:
			b[at] = x2bytes[t.IntN(len(x2bytes))]
		case 2:
			b[at] = byte(t.Uint32())
		case 3:
			put(b, at&^3, 4, x2ints[t.IntN(len(x2ints))])
		case 4:
			put(b, at&^7, 8, x2ints[t.IntN(len(x2ints))])
		case 5:
			put(b, at&^1, 2, x2ints[t.IntN(len(x2ints))])
		case 6: // remove a piece
			e := min(len(b), at+1+t.IntN(16))
			b = slices.Delete(b, at, e)
		case 7: // duplicate a piece
			e := min(len(b), at+1+t.IntN(16))
			b = slices.Insert(b, at, slices.Clone(b[at:e])...)
		case 8: // swap two words
			o := t.IntN(lim)
			for j := 0; j < 8 && at+j < len(b) && o+j < len(b); j++ {
				b[at+j], b[o+j] = b[o+j], b[at+j]
			}
		}
		return b
	}
	// bound the work on large images: about 8 MB of frames (60 MB when thorough)
	budget := 8 << 20
	if t.Thorough() {
		budget = 60 << 20
	}
	rnd = min(rnd, max(40, budget/4/max(n, 1)))
	if total := len(frames) * n; total > budget {
		k := 0
		np := 0
		for i := range frames {
			if t.IntN(total) < budget {
				frames[k] = frames[i]
				k++
				if i < n0 {
					np = k
				}
			}
		}
		frames, n0 = frames[:k], np
	}
	for range rnd {
		b := slices.Clone(base)
		for range 1 + t.IntN(4) {
			b = one(b)
		}
		add(b)
	}
	for range rnd / 4 {
		o := others[t.IntN(len(others))]
		cut := t.IntN(min(hdr, max(n, 1)) + 1)
		if cut > len(o) {
			continue
		}
		add(append(slices.Clone(base[:cut]), o[cut:]...))
	}
	if d.more != nil {
		for _, b := range d.more(t, base) {
			add(b)
		}
	}
	for range rnd / 8 {
		b := slices.Clone(base[:min(n, 1+t.IntN(24))])
		for range t.IntN(120) {
			b = append(b, byte(t.Uint32()))
		}
		add(b)
	}
	return
}

func x2Files(pats []string, limit int) (out []string) {
	for _, p := range pats {
		m, _ := filepath.Glob(filepath.Join(repoDir(), p))
		for _, f := range m {
			if st, err := os.Stat(f); err == nil && st.Size() <= int64(limit) {
				out = append(out, f)
			}
		}
	}
	slices.Sort(out)
	return
}

func repoDir() string {
	if r := os.Getenv("HARNESS_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func x2Case(t *T, d *x2driver) {
	var bases [][]byte
	limit := 30 << 10
	if t.Thorough() {
		limit = 300 << 10
	}
	files := x2Files(d.files, limit)
	var label string
	if len(files) > 0 && t.Idx%3 == 2 {
		f := files[t.IntN(len(files))]
		b, err := os.ReadFile(f)
		t.NoErr(err, "harness-fixture")
		bases = append(bases, b)
		if o, err := os.ReadFile(files[t.IntN(len(files))]); err == nil {
			bases = append(bases, o)
		}
		label = filepath.Base(f)
	} else {
		bases = d.gen(t)
		label = "generated"
	}
	base := bases[t.IntN(len(bases))]
	if len(files) > 0 && t.Idx%3 == 2 {
		base = bases[0]
	}
	t.Desc("%s image (%d bytes): %s", label, len(base), trimString(hex.EncodeToString(base[:min(len(base), 100)])))
	frames, n0 := x2Mutate(t, d, base, bases)
	frames = slices.Insert(frames, 0, base)
	n0++
	if d.heavy != nil {
		k, prefixes := 0, n0
		for i, f := range frames {
			if i == 0 || !d.heavy(f) {
				frames[k] = f
				k++
			} else {
				t.Ev("frames-not-tried-declaring-huge-capacity")
				if i < prefixes {
					n0--
				}
			}
		}
		frames = frames[:k]
	}
	res := x2Run(t, d, frames)
	var fails []string
	var first *core.Failure
	bad := func(i int, key, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		if slices.Contains(fails, key) {
			return
		}
		fails = append(fails, key)
		t.Logf("%s: %s frame=%s", key, msg, hex.EncodeToString(frames[i][:min(len(frames[i]), 3000)]))
		if first == nil {
			first = &core.Failure{Key: key, Msg: msg + " frame=" + trimString(hex.EncodeToString(frames[i]))}
		}
	}
	acc, ref := 0, 0
	for i, r := range res {
		f := frames[i]
		fr, m, _ := strings.Cut(r.msg, "\x00")
		switch r.st {
		case 2:
			bad(i, "panic-"+fr, "%s on %d bytes (mutation %d of %d)", m, len(f), i, len(frames))
			continue
		case 3:
			bad(i, "death-"+fr, "the process died: %s, on %d bytes", m, len(f))
			continue
		case 4:
			bad(i, "hang-"+fr, "no answer for 60 s on %d bytes", len(f))
			continue
		case 0:
			ref++
		case 1:
			acc++
		}
		limit := uint64(8<<20 + 256*len(f))
		if d.extra != nil {
			limit += 6 * uint64(d.extra(f))
		}
		if r.alloc > limit {
			bad(i, "alloc", "decoding %d bytes allocated %d bytes (limit %d)", len(f), r.alloc, limit)
		}
		if i > 0 && i < n0 && r.st == 1 && !d.raw && r.canon != res[0].canon {
			bad(i, "prefix", "a prefix of %d of %d bytes was accepted as another sketch", len(f), len(base))
		}
	}
	t.EvN("frames", len(res))
	t.EvN("refused", ref)
	t.EvN("accepted", acc)
	t.Counted(3 * len(res))
	if first != nil {
		panic(first)
	}
	t.Check(len(res) == len(frames), "harness-frames", "only %d of %d frames answered", len(res), len(frames))
	t.Check(res[0].st == 1, "base", "the valid image was refused")
	if acc > 0 && ref > 0 {
		t.NonTrivial()
	}
	t.Sig(d.name, label, len(base), acc, ref)
}
