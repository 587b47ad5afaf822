package mon

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/core"
)

func init() {
	core.Register("X03", "non-trivial: several goroutines worked at the same time on the library, with at least one switch between them; distinct by the work and by the observed interleaving of its steps",
		core.Family{Name: "copies", Quick: 500, Thorough: 16000, Serial: true, Run: x3Copies},
		core.Family{Name: "shared", Quick: 400, Thorough: 13000, Serial: true, Run: x3Shared},
		core.Family{Name: "monitors", Quick: 60, Thorough: 2500, Serial: true, Run: x3Monitors},
		core.Family{Name: "cold", Quick: 24, Thorough: 800, Serial: true, Run: x3Cold},
	)
	core.Assume("X03", "the harness is built with the race detector for this property; a report is attributed to the case during which it appeared",
		"queries of mutable sketches may use caches, so one mutable sketch is never shared")
	core.Cold = x3ColdMain
}

// x3Step is a moment at which a goroutine was seen.
type x3Step struct {
	at time.Time
	g  int
}

// x3Go runs one function per goroutine, all released at once, with yields and
// short sleeps between their steps, and joins them. Nothing in between
// synchronizes them: the step log is per goroutine and merged by time.
func x3Go(t *T, what string, fs []func(t *T, pause func())) {
	forks := make([]*T, len(fs))
	fails := make([]*core.Failure, len(fs))
	logs := make([][]x3Step, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range fs {
		forks[g] = t.Fork("go", g)
		jit := rand.New(rand.NewPCG(uint64(time.Now().UnixNano()), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			pause := func() {
				logs[g] = append(logs[g], x3Step{time.Now(), g})
				switch jit.IntN(8) {
				case 0:
					time.Sleep(time.Duration(jit.IntN(60)) * time.Microsecond)
				case 1, 2:
					runtime.Gosched()
				}
			}
			<-start
			fails[g] = core.Try(forks[g], func(ft *T) { fs[g](ft, pause) })
		}()
	}
	close(start)
	wg.Wait()
	var all []x3Step
	for g := range fs {
		t.Absorb(forks[g])
		all = append(all, logs[g]...)
	}
	slices.SortFunc(all, func(a, b x3Step) int { return a.at.Compare(b.at) })
	var seq strings.Builder
	sw := 0
	for i, s := range all {
		seq.WriteByte(byte('a' + s.g))
		if i > 0 && all[i-1].g != s.g {
			sw++
		}
	}
	t.EvN("steps", len(all))
	t.EvN("switches between goroutines", sw)
	t.EvN("goroutines", len(fs))
	if sw > 0 {
		t.NonTrivial()
	}
	t.Sig(seq.String())
	for g, f := range fails {
		if f != nil {
			t.Check(false, "concurrent-"+f.Key, "%s: goroutine %d: %s", what, g, f.Msg)
		}
	}
	x3Races(t, what)
}

func x3Races(t *T, what string) {
	if !core.Raced() {
		fmt.Fprintln(os.Stderr, "X03 needs a binary with the race detector")
		os.Exit(2)
	}
	rep := core.Races()
	t.Check(rep == "", "race", "%s: %s", what, rep)
}

func x3Procs(t *T) { runtime.GOMAXPROCS([]int{2, 4, 8, 8}[t.IntN(4)]) }

func x3Same(t *T, what string, conc, seq []string) {
	for g := range conc {
		if conc[g] != seq[g] {
			t.Check(false, "differs", "%s: goroutine %d saw %s, alone it sees %s", what, g, trimString(conc[g]), trimString(seq[g]))
		}
		t.Counted(1)
		t.Ev("results compared with sequential execution")
	}
}

// x3Use works on a box alone.
func x3Use(t *T, b *box, steps int, pause func()) string {
	out := ""
	for range steps {
		pause()
		switch {
		case b.op != nil && t.IntN(3) > 0:
			b.op(t)
		case b.more != nil && t.IntN(2) == 0:
			for _, d := range b.more(t) {
				s := d.look(t)
				if d.op != nil {
					d.op(t)
				}
				if d.det && b.det {
					out = show(out, s, d.look(t))
				}
			}
		default:
			s := b.look(t)
			if b.det {
				out = show(out, s)
			}
		}
		if len(out) > 4000 { // keep a digest
			out = show(len(out), fnvString(out))
		}
	}
	s := b.look(t)
	if b.det {
		out = show(out, s)
	}
	return out
}

func fnvString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// x3Copies gives every goroutine its own sketch, all derived from one another or
// made the same way.
func x3Copies(t *T) {
	x3Procs(t)
	kind := xbKinds[t.Idx%len(xbKinds)]
	n := 3 + t.IntN(5)
	steps := 3 + t.IntN(10)
	fresh := t.IntN(3) == 0
	t.Desc("%d goroutines, %d steps each, on %s (fresh: %v)", n, steps, kind.name, fresh)
	t.Sig(kind.name, n, steps, fresh)
	build := func(bt *T) []*box {
		bs := []*box{kind.make(bt)}
		for try := 0; len(bs) < n && try < 60; try++ {
			if fresh {
				bs = append(bs, kind.make(bt))
				continue
			}
			if b := bs[bt.IntN(len(bs))]; b.more != nil {
				bs = append(bs, b.more(bt)...)
			}
		}
		return bs[:min(len(bs), 12)]
	}
	bs := build(t.Fork("build"))
	conc := make([]string, len(bs))
	var fs []func(t *T, pause func())
	for g, b := range bs {
		fs = append(fs, func(ft *T, pause func()) { conc[g] = x3Use(ft, b, steps, pause) })
	}
	x3Go(t, kind.name, fs)
	if !kind.det {
		return
	}
	seq := make([]string, len(bs))
	for g, b := range build(t.Fork("build")) {
		seq[g] = x3Use(t.Fork("go", g), b, steps, func() {})
	}
	x3Same(t, kind.name, conc, seq)
}

// x3Shared lets goroutines read one immutable sketch or image together.
func x3Shared(t *T) {
	x3Procs(t)
	n := 3 + t.IntN(5)
	steps := 2 + t.IntN(6)
	mk := xbKinds[t.IntN(len(xbKinds))].make
	if t.IntN(3) > 0 {
		mk = xbKinds[t.IntN(2)].make // theta, tuple
	}
	bt := t.Fork("build")
	var dec []func([]byte) (*box, error)
	pick := func() *box {
		b := mk(bt)
		for range 40 {
			if b.imm {
				return b
			}
			for _, d := range b.more(bt) {
				if d.imm {
					return d
				}
				if i, ok := d.as.(imageOf); ok {
					dec = i.decode
					return d
				}
				if d.more != nil {
					b = d
				}
			}
		}
		return nil
	}
	b := pick()
	if b == nil {
		return
	}
	t.Desc("%d goroutines, %d steps each, share %s", n, steps, b.name)
	t.Sig(b.name, n, steps)
	use := func(ft *T, pause func()) string {
		out := ""
		for range steps {
			pause()
			if dec != nil {
				for _, d := range dec {
					c, err := d(b.raw)
					ft.NoErr(err, "decode")
					out = show(out, x3Use(ft, c, 2, pause))
				}
				continue
			}
			if ft.IntN(2) == 0 {
				out = show(out, b.look(ft))
				continue
			}
			for _, d := range b.more(ft) {
				s := d.look(ft)
				if d.op != nil && ft.IntN(2) == 0 {
					d.op(ft)
				}
				out = show(out, s)
			}
			if len(out) > 4000 {
				out = show(len(out), fnvString(out))
			}
		}
		return out
	}
	conc := make([]string, n)
	var fs []func(t *T, pause func())
	for g := range n {
		fs = append(fs, func(ft *T, pause func()) { conc[g] = use(ft, pause) })
	}
	x3Go(t, b.name, fs)
	if b.imm || b.det {
		seq := make([]string, n)
		for g := range n {
			seq[g] = use(t.Fork("go", g), func() {})
		}
		x3Same(t, b.name, conc, seq)
	}
}

// Families too slow to be run under the race detector many times.
var x3Slow = []string{"U02/algebra", "K02/huge", "S03/coverage", "S03/inclusion", "C02/phases", "H02/large", "R01/stream", "R01/merge", "H04/error", "F01/large", "T03/large", "R02/huge", "T02/coverage", "S02/uniform", "R03/bias", "K03/bias", "T01/large", "M01/error-rate", "R01/doubling", "U01/large", "T05/coverage", "K01/bigk", "C02/large", "S04/unbiased", "C01/large", "H01/large"}

// x3Monitors runs cases of the other properties' monitors at the same time.
func x3Monitors(t *T) {
	x3Procs(t)
	names := core.Families(func(prop string, f *core.Family) bool {
		return f.Serial || prop == "X02" || prop == "X03" || slices.Contains(x3Slow, prop+"/"+f.Name)
	})
	n := 4 + t.IntN(5)
	same := names[(t.Idx*7+t.IntN(7))%len(names)]
	var picked []string
	var fs []func(t *T, pause func())
	for range n {
		name := same
		switch t.IntN(3) {
		case 0:
			name = names[t.IntN(len(names))]
		case 1: // another family of the same property
			for range 20 {
				if o := names[t.IntN(len(names))]; o[:3] == same[:3] {
					name = o
				}
			}
		}
		idx := t.IntN(2000)
		picked = append(picked, name+"["+strconv.Itoa(idx)+"]")
		fs = append(fs, func(ft *T, pause func()) {
			for i := range 3 {
				pause()
				c, run := ft.CaseOf(name, idx+i)
				fail := core.Try(c, run)
				ft.Absorb(c)
				if fail != nil && !slices.Contains([]string{"own-string-hash", "own-int-hash", "estimate-below-occupied"}, fail.Key) { // recorded findings of X05 and H04
					ft.Check(false, fail.Key, "%s[%d]: %s", name, idx+i, fail.Msg)
				}
				ft.Ev("monitor cases run concurrently")
			}
		})
	}
	slices.Sort(picked)
	t.Desc("%v", picked)
	t.Sig(picked)
	x3Go(t, fmt.Sprint(picked), fs)
}

// x3Cold makes a fresh process use a part of the library for the first time from
// several goroutines.
func x3Cold(t *T) {
	kind := xbKinds[t.Idx%len(xbKinds)].name
	arg := fmt.Sprintf("%s:%d:%d", kind, t.Uint32(), 2+t.IntN(6))
	t.Desc("cold start %s", arg)
	t.Sig(arg)
	exe, err := os.Executable()
	t.NoErr(err, "executable")
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "HARNESS_COLD="+arg)
	out, err := cmd.CombinedOutput()
	x3Races(t, "cold start of "+arg)
	t.Check(err == nil, "cold", "cold start of %s: %v: %s", arg, err, trimString(string(out)))
	t.Ev("cold starts")
	t.NonTrivial()
}

func x3ColdMain(arg string) int {
	p := strings.Split(arg, ":")
	seed, _ := strconv.ParseInt(p[1], 10, 64)
	n, _ := strconv.Atoi(p[2])
	for _, k := range xbKinds {
		if k.name != p[0] {
			continue
		}
		root := &T{Prop: "X03", Fam: "cold", Seed: seed, Tier: "quick"}
		root = root.Fork("cold")
		fails := make([]*core.Failure, n)
		forks := make([]*T, n)
		for g := range n {
			forks[g] = root.Fork("go", g)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range n {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				fails[g] = core.Try(forks[g], func(t *T) { x3Use(t, k.make(t), 8, runtime.Gosched) })
			}()
		}
		close(start)
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				fmt.Println(f.Key, f.Msg)
				return 1
			}
		}
		return 0
	}
	return 3
}
