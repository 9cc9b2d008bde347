package main

// Driving of the checks: shard processes, rapid, statistics, evidence, replay files.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const shards = 8

var verifDir = "/verif"

// Stats counts what a sub-check did.
type Stats struct {
	Cases   int            // cases generated and decided
	Extra   int            // further runs of the code under test inside the cases
	Classes map[string]int // how many cases were of each class
	seen    map[uint64]struct{}
	Samples []string
	nt      bool
	cls     []string
	desc    func() string
}

func newStats() *Stats { return &Stats{Classes: map[string]int{}, seen: map[uint64]struct{}{}} }

// class labels the current case.
func (s *Stats) class(f string, a ...interface{}) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	s.cls = append(s.cls, f)
}

// nontrivial marks the current case as non-trivial.
func (s *Stats) nontrivial(b bool) {
	if b {
		s.nt = true
	}
}

func (s *Stats) begin() { s.nt = false; s.cls = s.cls[:0] }

func (s *Stats) done(hash uint64, sample func() string) {
	s.Cases++
	last := ""
	sort.Strings(s.cls)
	for _, c := range s.cls {
		if c != last {
			s.Classes[c]++
		}
		last = c
	}
	if s.nt {
		n := len(s.seen)
		s.seen[hash] = struct{}{}
		if len(s.seen) > n && len(s.Samples) < 3 && (len(s.seen) == 3 || len(s.seen) == 40 || len(s.seen) == 400) {
			x := sample()
			if len(x) > 1200 {
				x = x[:1200] + "..."
			}
			s.Samples = append(s.Samples, x)
		}
	}
}

// sub is one generator with its oracle.
type sub interface {
	name() string
	run(ctx *runCtx) *failure
	replay(ctx *runCtx, raw json.RawMessage) error
}

type failure struct {
	Sub  string
	Case json.RawMessage
	Err  string
}

type runCtx struct {
	prop     string
	tier     string
	seed     uint64
	shard    int
	scratch  string
	stats    *Stats
	deadline time.Time
	progress func(label string, c interface{})
}

func (c *runCtx) thorough() bool { return c.tier == "thorough" }

// gsub is a randomly generated sub-check.
type gsub[T any] struct {
	id      string
	quick   int // cases over all shards
	deep    int
	gen     func(*G) T
	check   func(T, *Stats) error
	shrinkS int
	serial  bool // only on shard 0
}

func (s gsub[T]) name() string { return s.id }

// safely runs the check and turns a panic of the code under test into an error.
func safely[T any](check func(T, *Stats) error, c T, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if isHarness(r) {
				panic(r)
			}
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			err = fmt.Errorf("panic: %v\n%s", r, buf)
		}
	}()
	return check(c, st)
}

type harnessErr struct{ msg string }

func (h harnessErr) Error() string { return h.msg }
func isHarness(r interface{}) bool {
	_, ok := r.(harnessErr)
	return ok
}
func harnessFail(f string, a ...interface{}) { panic(harnessErr{fmt.Sprintf(f, a...)}) }

func jsonOf(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		harnessFail("marshal: %v", err)
	}
	return b
}

func hash64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// quickScale brings the quick tier of each property to about ten seconds on
// eight idle cores.
func quickScale(prop string) int {
	switch prop {
	case "C22":
		return 1
	case "C09", "C26", "C27", "C28":
		return 2
	case "C13", "C25":
		return 3
	case "C03", "C06", "C17", "C29":
		return 4
	}
	return 6
}

func (s gsub[T]) run(ctx *runCtx) *failure {
	n := s.quick * quickScale(ctx.prop)
	if ctx.thorough() {
		n = s.deep
	}
	if ctx.tier == "smoke" { // a rough look, for trying out many changes
		n = (n + 9) / 10
	}
	if s.serial {
		if ctx.shard != 0 {
			return nil
		}
	} else {
		n = (n + shards - 1) / shards
	}
	if n == 0 {
		return nil
	}
	var lastCase T
	var lastErr error
	failed := false
	st := ctx.stats
	prop := func(t *rapid.T) {
		c := s.gen(&G{t: t})
		st.begin()
		ctx.progress(s.id, c)
		t0 := time.Now()
		err := safely(s.check, c, st)
		if d := time.Since(t0); slowCase > 0 && d > slowCase {
			js := jsonOf(c)
			if f, err := os.OpenFile(os.Getenv("XW_SLOWLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%s %s: %.2fs %s\n", ctx.prop, s.id, d.Seconds(), js[max(0, len(js)-200):])
				f.Close()
			}
		}
		if err != nil {
			failed, lastCase, lastErr = true, c, err
			t.Fatalf("%s", firstLine(err.Error()))
		}
		if !failed {
			var js []byte
			if st.nt {
				js = jsonOf(c)
			}
			st.done(hash64(js), func() string { return string(js) })
		}
	}
	// rapid runs in chunks so that a time budget can stop it between chunks
	const chunk = 4000
	for off, k := 0, 0; off < n; off, k = off+chunk, k+1 {
		m := n - off
		if m > chunk {
			m = chunk
		}
		if time.Now().After(ctx.deadline) {
			break
		}
		tb := &rapidTB{name: "H" + ctx.prop + s.id}
		setFlag("rapid.checks", strconv.Itoa(m))
		setFlag("rapid.seed", strconv.FormatUint(mixSeed(ctx.seed, ctx.prop, s.id, ctx.shard, k), 10))
		sh := s.shrinkS
		if sh == 0 {
			sh = 10
		}
		if ctx.tier == "smoke" {
			sh = 0
		}
		setFlag("rapid.shrinktime", fmt.Sprintf("%ds", sh))
		var hp interface{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					hp = r
				}
			}()
			rapid.Check(tb, prop)
		}()
		<-done
		if hp != nil {
			panic(hp)
		}
		if failed {
			if isHarnessText(lastErr.Error()) {
				harnessFail("%v", lastErr)
			}
			return &failure{Sub: s.id, Case: jsonOf(lastCase), Err: lastErr.Error()}
		}
		if tb.failed {
			harnessFail("rapid: %s", strings.Join(tb.log, "\n"))
		}
	}
	return nil
}

func isHarnessText(s string) bool { return strings.HasPrefix(s, "HARNESS:") }

func (s gsub[T]) replay(ctx *runCtx, raw json.RawMessage) error {
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		harnessFail("replay: %v", err)
	}
	ctx.stats.begin()
	return safely(s.check, c, ctx.stats)
}

// esub is a complete enumeration, split over the shards by index.
type esub[T any] struct {
	id    string
	count func(thorough bool) int
	at    func(i int) T
	check func(T, *Stats) error
}

func (s esub[T]) name() string { return s.id }

func (s esub[T]) run(ctx *runCtx) *failure {
	n := s.count(ctx.thorough())
	for i := ctx.shard; i < n; i += shards {
		if i&1023 < shards && time.Now().After(ctx.deadline) {
			harnessFail("enumeration %s did not finish in its time budget", s.id)
		}
		c := s.at(i)
		ctx.stats.begin()
		if err := safely(s.check, c, ctx.stats); err != nil {
			return &failure{Sub: s.id, Case: jsonOf(c), Err: err.Error()}
		}
		ctx.stats.done(mixSeed(0, s.id, "", 0, i), func() string { return string(jsonOf(c)) })
	}
	return nil
}

func (s esub[T]) replay(ctx *runCtx, raw json.RawMessage) error {
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		harnessFail("replay: %v", err)
	}
	ctx.stats.begin()
	return safely(s.check, c, ctx.stats)
}

func setFlag(n, v string) {
	if err := flag.Set(n, v); err != nil {
		harnessFail("flag %s: %v", n, err)
	}
}

func mixSeed(seed uint64, a, b string, shard, k int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d|%d", seed, a, b, shard, k)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	if x == 0 {
		x = 1
	}
	return x
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// rapidTB is the minimal test environment rapid needs.
type rapidTB struct {
	name   string
	failed bool
	log    []string
}

func (t *rapidTB) Helper()      {}
func (t *rapidTB) Name() string { return t.name }
func (t *rapidTB) Logf(f string, a ...any) {
	if len(t.log) < 50 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *rapidTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *rapidTB) Skipf(f string, a ...any)  { panic("skip") }
func (t *rapidTB) Skip(a ...any)             { panic("skip") }
func (t *rapidTB) SkipNow()                  { panic("skip") }
func (t *rapidTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *rapidTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *rapidTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *rapidTB) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *rapidTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *rapidTB) Fail()                     { t.failed = true }
func (t *rapidTB) Failed() bool              { return t.failed }

// shardResult is what a shard process reports.
type shardResult struct {
	Subs    map[string]*subResult
	Failure *failure
	Harness string
	Known   []string
}

type subResult struct {
	Cases, Extra, Distinct int
	Hashes                 []uint64 `json:"-"`
	Classes                map[string]int
	Samples                []string
	WallS                  float64
}

func runShard(prop, tier string, seed uint64, shard int, scratch, out string, budget time.Duration) {
	res := &shardResult{Subs: map[string]*subResult{}}
	write := func() {
		b, _ := json.Marshal(res)
		os.WriteFile(out, b, 0o644)
	}
	defer write()
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			res.Harness = fmt.Sprintf("%v\n%s", r, buf)
		}
	}()
	dir := filepath.Join(scratch, fmt.Sprintf("shard%d", shard))
	os.MkdirAll(dir, 0o755)
	os.Chdir(dir)
	deadline := time.Now().Add(budget)
	var hashes []uint64
	for _, s := range checks[prop].subs {
		st := newStats()
		t0 := time.Now()
		ctx := &runCtx{prop: prop, tier: tier, seed: seed, shard: shard, scratch: dir, stats: st, deadline: deadline, progress: noteCase}
		fl := s.run(ctx)
		r := &subResult{Cases: st.Cases, Extra: st.Extra, Distinct: len(st.seen), Classes: st.Classes, Samples: st.Samples, WallS: time.Since(t0).Seconds()}
		res.Subs[s.name()] = r
		for h := range st.seen {
			hashes = append(hashes, h^mixSeed(1, s.name(), "", 0, 0))
		}
		if fl != nil {
			res.Failure = fl
			break
		}
	}
	hb := make([]byte, 0, len(hashes)*8)
	for _, h := range hashes {
		for i := 0; i < 8; i++ {
			hb = append(hb, byte(h>>(8*i)))
		}
	}
	os.WriteFile(out+".hashes", hb, 0o644)
}

// The case being run is kept so that a crash of the process (stack overflow,
// fatal runtime error) can still be reported with its input.
var (
	curMu    sync.Mutex
	curLabel string
	curCase  interface{}
	curStart time.Time
	curCPU   time.Duration
)

func noteCase(label string, c interface{}) {
	curMu.Lock()
	curLabel, curCase, curStart, curCPU = label, c, time.Now(), cpuTime()
	curMu.Unlock()
	if tracePath != "" {
		b, _ := json.Marshal(&failure{Sub: label, Case: jsonOf(c)})
		os.WriteFile(tracePath, b, 0o644)
	}
}

// slowCase, if set, is the time above which cases are reported.
var slowCase, _ = time.ParseDuration(os.Getenv("XW_SLOW"))

// tracePath, if set, receives every case before it is run.
var tracePath = os.Getenv("XW_TRACE")

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// A case that does not come back is a failure: cases take milliseconds.
func watchdog(cpu, wall time.Duration, out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		curMu.Lock()
		l, c, t, u := curLabel, curCase, curStart, curCPU
		curMu.Unlock()
		if c == nil {
			continue
		}
		used := cpuTime() - u
		if used > cpu || time.Since(t) > wall {
			b, _ := json.Marshal(&shardResult{Subs: map[string]*subResult{}, Failure: &failure{Sub: l, Case: jsonOf(c),
				Err: fmt.Sprintf("the case did not finish in %s (%s of processor time)", time.Since(t).Round(time.Second), used.Round(time.Second))}})
			os.WriteFile(out, b, 0o644)
			os.Exit(3)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type propCheck struct {
	subs        []sub
	setup       func(dir string) error // builds what the shards need, into dir
	rule        string
	assumptions []string
	known       []knownFinding
	raceShards  bool // run a further shard in the race-detector build
	noLimit     bool // no limit on the address space: the sanitizers need it
}

// knownFinding re-demonstrates a recorded defect.
type knownFinding struct {
	key  string      // the text the known-findings file must contain
	show func() bool // true while the defect is there
}

var checks = map[string]*propCheck{}

func knownFile() string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return ""
	}
	return string(b)
}

// known reports whether the committed findings file lists the finding.
var knownText = sync.OnceValue(knownFile)

func isKnown(prop, key string) bool {
	for _, l := range strings.Split(knownText(), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") && strings.Contains(l, "["+key+"]") {
			return true
		}
	}
	return false
}

func knownLine(prop, key string) string {
	for _, l := range strings.Split(knownText(), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") && strings.Contains(l, "["+key+"]") {
			return strings.TrimPrefix(l, "finding: ")
		}
	}
	return ""
}

func envSeed() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	testing.Init()
	args := os.Args[1:]
	flag.CommandLine.Parse(nil)
	setFlag("rapid.nofailfile", "true")
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(args) == 0 {
		die(2, "usage: harness run PROP [tier] | replay FILE | list | shard ...")
	}
	switch args[0] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "shard": // shard PROP TIER SEED SHARD SCRATCH OUT BUDGET
		seed, _ := strconv.ParseUint(args[3], 10, 64)
		sh, _ := strconv.Atoi(args[4])
		b, _ := time.ParseDuration(args[7])
		toolDir = args[5]
		debug.SetMaxStack(256 << 20)
		if pc := checks[args[1]]; !strings.HasSuffix(os.Args[0], ".race") && (pc == nil || !pc.noLimit) {
			// running out of memory ends the shard, not the sandbox
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
		}
		go watchdog(60*time.Second, 240*time.Second, args[6])
		runShard(args[1], args[2], seed, sh, args[5], args[6], b)
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(args) > 2 {
			tier = args[2]
		}
		if tier != "thorough" && tier != "smoke" {
			tier = "quick"
		}
		os.Exit(runCheck(args[1], tier))
	case "wrap":
		os.Exit(wrapTool(args[1], args[2:]))
	case "replay":
		os.Exit(doReplay(args[1]))
	default:
		die(2, "unknown command %q", args[0])
	}
}

// toolDir holds the programs a check's setup built.
var toolDir string

type replayFile struct {
	Property string
	Sub      string
	Case     json.RawMessage
	Error    string
	Seed     uint64
	Tier     string
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die(2, "%v", err)
	}
	pc := checks[rf.Property]
	if pc == nil {
		die(2, "no check for %s", rf.Property)
	}
	dir, err := os.MkdirTemp("", "xwreplay")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(dir)
	toolDir = dir
	if pc.setup != nil {
		if err := pc.setup(dir); err != nil {
			die(2, "setup: %v", err)
		}
	}
	for _, s := range pc.subs {
		if s.name() == rf.Sub {
			ctx := &runCtx{prop: rf.Property, tier: "quick", stats: newStats(), scratch: dir, progress: noteCase}
			if err := s.replay(ctx, rf.Case); err != nil {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", err, rf.Property, path)
				return 1
			}
			fmt.Printf("OK property=%s: the case passes\n", rf.Property)
			return 0
		}
	}
	die(2, "no sub-check %q", rf.Sub)
	return 2
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	pc := checks[prop]
	if pc == nil {
		die(2, "no check for property %q", prop)
	}
	seed := envSeed()
	scratch, err := os.MkdirTemp("", "xw"+prop)
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(scratch)
	evPath := filepath.Join(verifDir, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evPath), 0o755)
	os.Remove(evPath)
	toolDir = scratch
	if pc.setup != nil {
		if err := pc.setup(scratch); err != nil {
			fmt.Fprintf(os.Stderr, "setup: %v\n", err)
			return 2
		}
	}
	exe, err := os.Executable()
	if err != nil {
		die(2, "%v", err)
	}
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 1500 * time.Second
	}
	type job struct {
		shard int
		exe   string
	}
	var jobs []job
	for i := 0; i < shards; i++ {
		jobs = append(jobs, job{i, exe})
	}
	if pc.raceShards {
		race := filepath.Join(filepath.Dir(exe), "harness.race")
		jobs = append(jobs, job{0, race}, job{1, race})
	}
	results := make([]*shardResult, len(jobs))
	outs := make([]string, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			out := filepath.Join(scratch, fmt.Sprintf("out%d.json", i))
			outs[i] = out
			sd := scratch
			var r *shardResult
			trace := filepath.Join(scratch, fmt.Sprintf("trace%d.json", i))
			for attempt := 0; attempt < 2; attempt++ {
				cmd := exec.Command(j.exe, "shard", prop, tier, strconv.FormatUint(seed+uint64(i/shards)*7777, 10), strconv.Itoa(j.shard), sd, out, budget.String())
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", fmt.Sprintf("GOMAXPROCS=%d", 2), "VERIF_DIR="+verifDir, "GOMEMLIMIT=1500MiB")
				traced := attempt > 0 || i >= shards
				if traced {
					cmd.Env = append(cmd.Env, "XW_TRACE="+trace)
				}
				var eb bytes.Buffer
				cmd.Stderr = &eb
				cmd.Stdout = &eb
				err := cmd.Run()
				b, rerr := os.ReadFile(out)
				r = &shardResult{}
				if rerr == nil && json.Unmarshal(b, r) == nil {
					break
				}
				// The Go runtime ends the process on a stack overflow, a data
				// race and the like, so those cannot be caught and shrunk: the
				// shard is run again, with each case written out before it runs.
				r = &shardResult{Harness: fmt.Sprintf("shard %d ended without a result (%v)\n%s", j.shard, err, trunc(eb.String(), 6000))}
				if traced {
					tb, terr := os.ReadFile(trace)
					fl := &failure{}
					e := eb.String()
					if terr == nil && json.Unmarshal(tb, fl) == nil && (strings.Contains(e, "WARNING: DATA RACE") || strings.Contains(e, "fatal error: ") || strings.Contains(e, "stack overflow") || strings.Contains(e, "panic: ")) {
						fl.Err = "the process was ended by the runtime: " + trunc(e, 6000)
						r = &shardResult{Failure: fl}
						break
					}
				}
			}
			results[i] = r
		}(i, j)
	}
	wg.Wait()

	ev := map[string]interface{}{}
	subs := map[string]*subResult{}
	distinct := map[uint64]struct{}{}
	var fails []*failure
	harness := ""
	for i, r := range results {
		if r.Harness != "" && harness == "" {
			harness = fmt.Sprintf("shard %d: %s", i, r.Harness)
		}
		if r.Failure != nil {
			fails = append(fails, r.Failure)
		}
		for n, s := range r.Subs {
			t := subs[n]
			if t == nil {
				t = &subResult{Classes: map[string]int{}}
				subs[n] = t
			}
			t.Cases += s.Cases
			t.Extra += s.Extra
			t.Distinct += s.Distinct
			if s.WallS > t.WallS {
				t.WallS = s.WallS
			}
			for c, k := range s.Classes {
				t.Classes[c] += k
			}
			if len(t.Samples) < 2 {
				t.Samples = append(t.Samples, s.Samples...)
			}
		}
		hb, _ := os.ReadFile(outs[i] + ".hashes")
		for k := 0; k+8 <= len(hb); k += 8 {
			var h uint64
			for x := 0; x < 8; x++ {
				h |= uint64(hb[k+x]) << (8 * x)
			}
			distinct[h] = struct{}{}
		}
	}
	cases, extra := 0, 0
	var samples []interface{}
	var names []string
	for n := range subs {
		names = append(names, n)
	}
	sort.Strings(names)
	bysub := map[string]interface{}{}
	for _, n := range names {
		s := subs[n]
		cases += s.Cases
		extra += s.Extra
		if len(s.Samples) > 2 {
			s.Samples = s.Samples[:2]
		}
		for _, x := range s.Samples {
			samples = append(samples, n+": "+x)
		}
		bysub[n] = map[string]interface{}{"cases": s.Cases, "inner_runs": s.Extra, "non_trivial": s.Distinct, "classes": s.Classes, "wall_s": round2(s.WallS)}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	known := []string{}
	for _, k := range pc.known {
		if isKnown(prop, k.key) && k.show() {
			l := "KNOWN-FINDING: " + knownLine(prop, k.key)
			fmt.Println(l)
			known = append(known, l)
		}
	}
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = levelOf(prop)
	ev["coverage"] = map[string]interface{}{
		"evaluations": cases, "inner_runs": extra, "distinct_nontrivial": len(distinct), "rule": pc.rule,
		"samples": samples, "by_generator": bysub, "known_findings_shown": known,
	}
	if len(pc.assumptions) > 0 {
		ev["assumptions"] = pc.assumptions
	}
	ev["wall_s"] = round2(time.Since(t0).Seconds())
	ev["violations"] = len(fails)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evPath, b, 0o644); err != nil {
		die(2, "%v", err)
	}
	if len(fails) > 0 {
		best := fails[0]
		for _, f := range fails {
			if len(f.Case) < len(best.Case) {
				best = f
			}
		}
		rdir := filepath.Join(verifDir, "replays")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%016x.json", prop, best.Sub, hash64(best.Case)))
		rb, _ := json.MarshalIndent(replayFile{prop, best.Sub, best.Case, best.Err, seed, tier}, "", " ")
		os.WriteFile(rp, rb, 0o644)
		fmt.Printf("%s: %s\ncase: %s\n", best.Sub, trunc(best.Err, 4000), trunc(string(best.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	if harness != "" {
		fmt.Fprintf(os.Stderr, "check error: %s\n", harness)
		return 2
	}
	if cases == 0 {
		fmt.Fprintln(os.Stderr, "check error: no cases were run")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs\n", prop, tier, seed, cases, len(distinct), time.Since(t0).Seconds())
	return 0
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func levelOf(prop string) string {
	if prop == "C09" {
		return "fault_enumeration"
	}
	return "exploration"
}
