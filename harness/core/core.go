// Package core is the runtime-monitoring framework: it runs families of
// deterministic, seeded cases against the real library, counts what the
// monitors observed, turns oracle failures into VIOLATION lines with a replay
// file, and writes the evidence file.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Failure is an oracle failure inside a case.
type Failure struct{ Key, Msg string }

// T is the context of one case.
type T struct {
	*rand.Rand
	Prop, Fam string
	Idx       int
	Tier      string
	Seed      int64

	sig    uint64
	nontr  bool
	checks int64
	events map[string]int64
	trace  []string
	desc   string
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// Check is the oracle primitive: it counts an evaluation and fails the case when ok is false.
func (t *T) Check(ok bool, key, format string, args ...any) {
	t.checks++
	if !ok {
		panic(&Failure{key, fmt.Sprintf(format, args...)})
	}
}

// Counted records checks that were made without Check.
func (t *T) Counted(n int) { t.checks += int64(n) }

// NoErr checks that an operation promised to succeed did.
func (t *T) NoErr(err error, key string) {
	t.checks++
	if err != nil {
		panic(&Failure{key, "unexpected error: " + err.Error()})
	}
}

// Ev counts a monitored event.
func (t *T) Ev(name string) { t.events[name]++ }

// EvN counts n monitored events.
func (t *T) EvN(name string, n int) { t.events[name] += int64(n) }

// Sig mixes values into the case's signature (used for counting distinct cases).
func (t *T) Sig(parts ...any) { t.sig = hash64(t.sig, parts) }

// NonTrivial marks the case as having exercised what its family is about.
func (t *T) NonTrivial() { t.nontr = true }

// Desc sets the human-readable description of the case.
func (t *T) Desc(format string, args ...any) { t.desc = fmt.Sprintf(format, args...) }

// Logf appends to the bounded trace printed with a violation.
func (t *T) Logf(format string, args ...any) {
	if len(t.trace) < 400 {
		t.trace = append(t.trace, fmt.Sprintf(format, args...))
	}
}

// Thorough says whether the deep tier is running.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Family is a group of cases.
type Family struct {
	Name            string
	Quick, Thorough int
	Run             func(t *T)
	Serial          bool // run alone (statistics over the whole process, concurrency tests)
}

// Prop is a property and the families that decide it.
type Prop struct {
	ID, Rule    string
	Assumptions []string
	Fams        []Family
}

var props = map[string]*Prop{}

// Register adds families to a property.
func Register(id, rule string, fams ...Family) {
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	if rule != "" {
		p.Rule = rule
	}
	p.Fams = append(p.Fams, fams...)
}

// Assume records assumptions for the evidence file.
func Assume(id string, as ...string) {
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	p.Assumptions = append(p.Assumptions, as...)
}

type result struct {
	fam      string
	idx      int
	fail     *Failure
	stack    string
	checks   int64
	events   map[string]int64
	sig      uint64
	nontr    bool
	desc     string
	trace    []string
	inFlight atomic.Bool
}

// Replay is the content of a replay file.
type Replay struct {
	Property, Family, Tier, Key, Message, Description, Stack string
	Index                                                    int
	Seed                                                     int64
	Trace                                                    []string
	Replay                                                   string
}

func caseRand(seed int64, prop, fam string, idx int) *rand.Rand {
	h := hash64(seed, prop, fam, idx)
	return rand.New(rand.NewPCG(h, h^0x9e3779b97f4a7c15))
}

func runCase(p *Prop, f *Family, tier string, seed int64, idx int) (r *result) {
	t := &T{Rand: caseRand(seed, p.ID, f.Name, idx), Prop: p.ID, Fam: f.Name, Idx: idx, Tier: tier, Seed: seed, events: map[string]int64{}}
	r = &result{fam: f.Name, idx: idx}
	defer func() {
		r.checks, r.events, r.sig, r.nontr, r.desc, r.trace = t.checks, t.events, t.sig, t.nontr, t.desc, t.trace
		if e := recover(); e != nil {
			if fl, ok := e.(*Failure); ok {
				r.fail = fl
				return
			}
			r.fail = &Failure{"panic", fmt.Sprintf("panic: %v", e)}
			r.stack = string(debug.Stack())
		}
	}()
	f.Run(t)
	return r
}

// Fork gives a case context of its own to a goroutine or a sub-run of t, with a
// random stream determined by the case and the parts.
func (t *T) Fork(parts ...any) *T {
	h := hash64(t.Seed, t.Prop, t.Fam, t.Idx, parts)
	return &T{Rand: rand.New(rand.NewPCG(h, h^0x9e3779b97f4a7c15)), Prop: t.Prop, Fam: t.Fam, Idx: t.Idx, Tier: t.Tier, Seed: t.Seed, events: map[string]int64{}}
}

// Absorb adds what a fork observed to t.
func (t *T) Absorb(c *T) {
	t.checks += c.checks
	for k, v := range c.events {
		t.events[k] += v
	}
}

// Try runs f and returns its failure, if any.
func Try(t *T, f func(*T)) (fail *Failure) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(*Failure); ok {
				fail = fl
				return
			}
			fail = &Failure{"panic", fmt.Sprintf("panic: %v\n%s", e, debug.Stack())}
		}
	}()
	f(t)
	return nil
}

// Families lists the registered families as property/family, but those excluded.
func Families(exclude func(prop string, f *Family) bool) (names []string) {
	for id, p := range props {
		for i := range p.Fams {
			if !exclude(id, &p.Fams[i]) {
				names = append(names, id+"/"+p.Fams[i].Name)
			}
		}
	}
	sort.Strings(names)
	return
}

// CaseOf is the case idx of another family, as a run of its own.
func (t *T) CaseOf(name string, idx int) (*T, func(*T)) {
	id, fam, _ := strings.Cut(name, "/")
	p := props[id]
	for i := range p.Fams {
		if f := &p.Fams[i]; f.Name == fam {
			return &T{Rand: caseRand(t.Seed, id, fam, idx), Prop: id, Fam: fam, Idx: idx, Tier: "quick", Seed: t.Seed, events: map[string]int64{}}, f.Run
		}
	}
	panic("no family " + name)
}

// Raced is whether this binary was built with the race detector.
func Raced() bool { return buildKind != "plain" }

var raceSeen = map[string]int64{}

// Races returns the race reports written since the last call (single-threaded use).
func Races() string {
	var prefix string
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(o, "log_path="); ok {
			prefix = v
		}
	}
	if prefix == "" {
		return ""
	}
	files, _ := filepath.Glob(prefix + ".*")
	var out strings.Builder
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || int64(len(b)) <= raceSeen[f] {
			continue
		}
		out.Write(b[raceSeen[f]:])
		raceSeen[f] = int64(len(b))
	}
	return out.String()
}

// Cold, when set, is run instead of everything else in a process started with
// HARNESS_COLD (a first use of the library in a fresh process).
var Cold func(arg string) int

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

// HangWall and HangCPU bound a single case: exceeding both is reported as
// non-termination (normal cases take well under a hundredth of this).
var (
	HangWall = 240 * time.Second
	HangCPU  = 180.0
)

// Main is the entry point.
func Main() {
	if a := os.Getenv("HARNESS_COLD"); a != "" && Cold != nil {
		os.Exit(Cold(a))
	}
	var propID, tier, evDir, replay, knownFile, replayDir string
	var seed int64 = 1
	only := ""
	tier = "quick"
	workers := runtime.NumCPU()
	scale := 1.0
	idxOnly := -1
	args := os.Args[1:]
	if len(args) > 0 && modes[args[0]] != nil {
		modes[args[0]](args[1:])
		return
	}
	for i := 0; i < len(args); i++ {
		next := func() string { i++; return args[i] }
		switch args[i] {
		case "-prop":
			propID = next()
		case "-tier":
			tier = next()
		case "-seed":
			seed, _ = strconv.ParseInt(next(), 10, 64)
		case "-evidence":
			evDir = next()
		case "-replay":
			replay = next()
		case "-replaydir":
			replayDir = next()
		case "-known":
			knownFile = next()
		case "-fam":
			only = next()
		case "-idx":
			idxOnly, _ = strconv.Atoi(next())
		case "-workers":
			workers, _ = strconv.Atoi(next())
		case "-scale":
			scale, _ = strconv.ParseFloat(next(), 64)
		case "-list":
			var ids []string
			for id := range props {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				for _, f := range props[id].Fams {
					fmt.Println(id, f.Name, f.Quick, f.Thorough)
				}
			}
			return
		default:
			fmt.Fprintln(os.Stderr, "unknown argument", args[i])
			os.Exit(2)
		}
	}
	if replay != "" {
		os.Exit(doReplay(replay))
	}
	p := props[propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", propID)
		os.Exit(2)
	}
	start := time.Now()
	known := loadKnown(knownFile, propID)

	type job struct {
		f   *Family
		idx int
	}
	var par, ser []job
	for i := range p.Fams {
		f := &p.Fams[i]
		if only != "" && f.Name != only {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		if scale != 1.0 {
			n = int(float64(n)*scale + 0.999)
		}
		for k := 0; k < n; k++ {
			if idxOnly >= 0 && k != idxOnly {
				continue
			}
			if f.Serial {
				ser = append(ser, job{f, k})
			} else {
				par = append(par, job{f, k})
			}
		}
	}
	// interleave families so a violation in any of them appears early
	sort.SliceStable(par, func(a, b int) bool { return par[a].idx < par[b].idx })

	var mu sync.Mutex
	totals := map[string]int64{}
	famCount := map[string]int64{}
	famWall := map[string]float64{}
	sigs := map[uint64]struct{}{}
	var evals, checks int64
	var samples []string
	sampleFam := map[string]int{}
	violations := 0
	knownHits := map[string]string{}
	seenKeys := map[string]int{}
	var violLines []string

	record := func(r *result, wall float64) {
		mu.Lock()
		defer mu.Unlock()
		evals++
		checks += r.checks
		famCount[r.fam]++
		famWall[r.fam] += wall
		for k, v := range r.events {
			totals[k] += v
		}
		if r.nontr {
			sigs[hash64(r.fam, r.sig)] = struct{}{}
			if r.desc != "" && sampleFam[r.fam] < 1 && len(samples) < 12 {
				sampleFam[r.fam]++
				samples = append(samples, fmt.Sprintf("%s[%d]: %s", r.fam, r.idx, r.desc))
			}
		}
		if r.fail != nil {
			key := r.fam + "/" + r.fail.Key
			if d, ok := known[key]; ok {
				knownHits[key] = d
				return
			}
			violations++
			seenKeys[key]++
			if seenKeys[key] <= 2 && len(violLines) < 12 {
				path := writeReplay(replayDir, p.ID, tier, seed, r)
				violLines = append(violLines, path)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				fmt.Printf("  case %s[%d] seed=%d tier=%s key=%s: %s\n", r.fam, r.idx, seed, tier, r.fail.Key, trunc(r.fail.Msg, 600))
				if r.desc != "" {
					fmt.Printf("  input: %s\n", trunc(r.desc, 400))
				}
			}
		}
	}

	// hang watchdog
	type flight struct {
		f     *Family
		idx   int
		start time.Time
		cpu   float64
	}
	var fmu sync.Mutex
	inflight := map[int]flight{}
	runJob := func(w int, j job) {
		fmu.Lock()
		inflight[w] = flight{j.f, j.idx, time.Now(), cpuSeconds()}
		fmu.Unlock()
		t0 := time.Now()
		r := runCase(p, j.f, tier, seed, j.idx)
		fmu.Lock()
		delete(inflight, w)
		fmu.Unlock()
		record(r, time.Since(t0).Seconds())
	}
	finish := make(chan struct{})
	var once sync.Once
	var hung atomic.Bool
	go func() {
		for {
			select {
			case <-finish:
				return
			case <-time.After(2 * time.Second):
			}
			fmu.Lock()
			for _, fl := range inflight {
				if time.Since(fl.start) > HangWall && cpuSeconds()-fl.cpu > HangCPU {
					r := &result{fam: fl.f.Name, idx: fl.idx, fail: &Failure{"nontermination",
						fmt.Sprintf("the case did not finish within %v of wall time (normal: milliseconds to a few seconds)", HangWall)}}
					hung.Store(true)
					fmu.Unlock()
					record(r, time.Since(fl.start).Seconds())
					once.Do(func() { close(finish) })
					return
				}
			}
			fmu.Unlock()
		}
	}()
	done := make(chan struct{})
	go func() {
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !hung.Load() {
					k := int(atomic.AddInt64(&next, 1))
					if k >= len(par) {
						return
					}
					runJob(w, par[k])
				}
			}(w)
		}
		wg.Wait()
		for _, j := range ser {
			if hung.Load() {
				break
			}
			runJob(0, j)
		}
		close(done)
	}()
	select {
	case <-done:
		once.Do(func() { close(finish) })
	case <-finish:
	}

	mu.Lock()
	defer mu.Unlock()
	var kk []string
	for k := range knownHits {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, knownHits[k], k)
	}
	wall := time.Since(start).Seconds()
	if samples == nil {
		samples = []string{}
	}
	if evDir != "" {
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations":         evals,
				"distinct_nontrivial": len(sigs),
				"rule":                p.Rule,
				"samples":             samples,
				"oracle_checks":       checks,
				"events":              totals,
				"cases_per_family":    famCount,
				"build":               buildKind,
			},
			"assumptions": append([]string{"every value is observed through the public API of the tree in /repo, rebuilt for this run"}, p.Assumptions...),
			"wall_s":      wall, "violations": violations,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(evDir, 0o755)
		tmp := filepath.Join(evDir, p.ID+".json.tmp")
		if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(2)
		}
		_ = os.Rename(tmp, filepath.Join(evDir, p.ID+".json"))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %d violations, %.1fs\n",
		p.ID, tier, seed, evals, len(sigs), checks, violations, wall)
	if os.Getenv("HARNESS_FAMS") != "" {
		var fs []string
		for f := range famCount {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(a, b int) bool { return famWall[fs[a]] > famWall[fs[b]] })
		for _, f := range fs {
			fmt.Printf("  %-40s n=%d wall=%.2fs\n", f, famCount[f], famWall[f])
		}
		var es []string
		for e := range totals {
			es = append(es, e)
		}
		sort.Strings(es)
		for _, e := range es {
			fmt.Printf("  event %-44s %d\n", e, totals[e])
		}
	}
	if violations > 0 {
		os.Exit(1)
	}
	if evals == 0 || (only == "" && idxOnly < 0 && len(sigs) < 2) {
		fmt.Println("INCONCLUSIVE: the workload observed nothing")
		os.Exit(2)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(dir, prop, tier string, seed int64, r *result) string {
	if dir == "" {
		dir = os.TempDir()
	}
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", prop, strings.ReplaceAll(r.fam, "/", "_"), r.idx, seed))
	rp := Replay{Property: prop, Family: r.fam, Tier: tier, Key: r.fail.Key, Message: r.fail.Msg, Description: r.desc,
		Stack: r.stack, Index: r.idx, Seed: seed, Trace: r.trace, Replay: "bash /verif/run.sh replay " + path}
	b, _ := json.MarshalIndent(rp, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rp.Property]
	for i := range p.Fams {
		if p.Fams[i].Name == rp.Family {
			r := runCase(p, &p.Fams[i], rp.Tier, rp.Seed, rp.Index)
			for _, l := range r.trace {
				fmt.Println("  ", l)
			}
			fmt.Println("input:", r.desc)
			if r.fail != nil {
				fmt.Printf("REPRODUCED property=%s key=%s: %s\n%s\n", p.ID, r.fail.Key, r.fail.Msg, r.stack)
				return 1
			}
			fmt.Println("not reproduced: the case passes")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such family")
	return 2
}

// loadKnown reads "finding: property=<id> key=<family/key> <description>" lines.
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+prop+" key=")
		k, d, _ := strings.Cut(rest, " ")
		m[k] = d
	}
	return m
}
