// Package harness drives simulated runs: it derives a case from a seed, runs it in worker
// processes, confirms and minimises what fails in fresh processes, and writes the evidence.
package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"flag"
	"fmt"
	"html"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/simrt"
)

// Result is what one simulated run showed.
type Result struct {
	Class  string // kind of violation, empty if the property held
	Detail string
	Skip   bool // the case lies outside the property's domain (only minimisation produces such cases)

	Out    simrt.Outcome  // the interleaving, if the run had one
	Trace  uint64         // hash of everything observable; equal for equal seeds
	Faults map[string]int // faults that actually fired
	Probes map[string]int // rare conditions that were reached
	State  uint64         // identifies the explored case for the distinctness measure
	Known  string         // name of the known finding this violation is an instance of
	Runs   int            // further runs made inside this one (reference runs, sub-processes)
}

// Check decides one property.
type Check struct {
	ID    string
	Title string
	// Gen derives a workload with its fault plan from the random source.
	Gen func(r *simrt.Rand, tier string) any
	// Decode parses what Gen returned and was marshalled.
	New func() any
	// Run executes the workload under the schedule.
	Run func(spec any, s simrt.Schedule) Result
	// Schedules is the number of schedules per workload (quick).
	Schedules int
	// Seeds is the number of workloads per tier.
	Quick, Thorough int
	// Sequential workloads have one schedule only.
	Sequential bool
	Rule       string   // what makes a case distinct and not trivial
	Real       []string // components that run their real code
	Stub       []string // components that are stand-ins
	Kinds      []string // fault kinds the check can inject
	Assume     []string
}

// Case is a replay file.
type Case struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Detail   string          `json:"detail"`
	Seed     uint64          `json:"seed"`
	Prefix   []uint64        `json:"prefix,omitempty"` // seeds run before in the same process
	Spec     json.RawMessage `json:"spec"`
	Sched    simrt.Schedule  `json:"schedule"`
	Report   string          `json:"report,omitempty"`
	Replay   string          `json:"replay,omitempty"`
}

type stats struct {
	Runs, Cases, Skips int
	Switches           int
	Yields             uint64
	SimNanos           int64
	Faults, Probes     map[string]int
	Hashes, States     map[uint64]struct{} `json:"-"`
	HashList           []uint64
	StateList          []uint64
	Multi              int // runs with at least one switch between tasks
	Extra              int
	Known              map[string]int
	Traces             map[string]uint64
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Probes: map[string]int{}, Hashes: map[uint64]struct{}{}, States: map[uint64]struct{}{}, Known: map[string]int{}, Traces: map[string]uint64{}}
}

func (s *stats) add(r Result) {
	s.Runs++
	s.Extra += r.Runs
	if r.Skip {
		s.Skips++
	}
	s.Switches += r.Out.Switches
	if r.Out.Switches > 1 {
		s.Multi++
	}
	s.Yields += r.Out.Yields
	s.SimNanos += r.Out.SimNanos
	for k, v := range r.Faults {
		s.Faults[k] += v
	}
	for k, v := range r.Probes {
		s.Probes[k] += v
	}
	if r.Out.Hash != 0 {
		s.Hashes[r.Out.Hash] = struct{}{}
	}
	s.States[r.State] = struct{}{}
	if r.Known != "" {
		s.Known[r.Known]++
	}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Cases += o.Cases
	s.Skips += o.Skips
	s.Extra += o.Extra
	s.Switches += o.Switches
	s.Multi += o.Multi
	s.Yields += o.Yields
	s.SimNanos += o.SimNanos
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Known {
		s.Known[k] += v
	}
	for _, h := range o.HashList {
		s.Hashes[h] = struct{}{}
	}
	for _, h := range o.StateList {
		s.States[h] = struct{}{}
	}
	for k, v := range o.Traces {
		s.Traces[k] = v
	}
}

type message struct {
	Kind  string // "stats", "fail", "at"
	Stats *stats `json:",omitempty"`
	Case  *Case  `json:",omitempty"`
	Seed  uint64 `json:",omitempty"`
}

// FNV-style string hash used for traces.
func Hash(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

func caseSeed(base, i uint64) uint64 { return simrt.NewRand(base*1000003 + i).Uint64() }

func scheduleFor(c *Check, seed uint64, k int) simrt.Schedule {
	r := simrt.NewRand(seed ^ uint64(k+1)*0x9e37)
	s := simrt.Schedule{Seed: r.Uint64()}
	if c.Sequential {
		s.Mode = "seq"
		return s
	}
	switch x := r.Intn(10); {
	case x == 0:
		s.Mode = "seq"
	case x < 6:
		s.Mode = "geo"
		s.Mean = simrt.Pick(r, 1, 2, 3, 5, 10, 20, 50, 150, 400, 1000)
	default:
		s.Mode = "pct"
		s.D = r.Range(1, 6)
	}
	return s
}

func runCase(c *Check, spec any, s simrt.Schedule) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			panic(fmt.Sprintf("harness: %v\n%s", p, debug.Stack()))
		}
	}()
	res = c.Run(spec, s)
	if res.Known != "" && !listed(c.ID, res.Known) {
		res.Known = ""
	}
	return
}

var knownNames map[string]bool

// listed says whether the known findings file has this entry.
func listed(id, name string) bool {
	if knownNames == nil {
		knownNames = map[string]bool{}
		for _, k := range loadKnown(os.Getenv("SIM_KNOWN"), id) {
			knownNames[k.Name] = true
		}
	}
	return knownNames[name]
}

func genSpec(c *Check, seed uint64, tier string) any {
	// Through JSON, so that a replay starts from exactly the same value.
	b, err := json.Marshal(c.Gen(simrt.NewRand(seed), tier))
	if err != nil {
		panic(err)
	}
	v := c.New()
	if err := json.Unmarshal(b, v); err != nil {
		panic(err)
	}
	return v
}

// Main runs the command line of a simulator binary.
// warm passes the initialisations that the standard library does on first use, so that a case takes
// the same course whether or not an earlier one in the process came by there.
func warm() {
	for h := -12; h <= 14; h++ {
		time.Parse(time.RFC3339, fmt.Sprintf("2020-01-01T00:00:00%+03d:00", h))
	}
	t, _ := time.Parse(time.RFC3339, "2020-01-01T00:00:00Z")
	json.Marshal(map[string]any{"t": t, "l": t.Local()})
	html.UnescapeString(html.EscapeString("<&amp;>"))
	xml.EscapeText(io.Discard, []byte("<&>"))
	regexp.MustCompile(`(?i)\pL\w[[:alpha:]]`).MatchString("x")
}

func Main(checks ...*Check) {
	warm()
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "base seed")
		worker   = flag.Int("worker", -1, "internal: shard number")
		shards   = flag.Int("shards", 8, "worker processes")
		from     = flag.Int("from", 0, "internal: first case")
		count    = flag.Int("count", 0, "number of cases (0: the tier's)")
		deadline = flag.Duration("deadline", 300*time.Second, "wall-clock limit")
		try      = flag.String("try", "", "internal: run the case in this file")
		replay   = flag.String("replay", "", "replay a case file")
		out      = flag.String("out", ".", "directory for replay files")
		evidence = flag.String("evidence", "", "evidence file")
		hash     = flag.String("hash", "", "internal: print the traces of these cases")
		scratch  = flag.String("scratch", "", "scratch directory")
		buildS   = flag.Float64("build-s", 0, "seconds spent building")
		dump     = flag.Bool("dump", false, "print the case of -seed/-from and its result")
	)
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMaxStack(128 << 20)
	Scratch = *scratch
	if Scratch == "" {
		Scratch = os.TempDir()
	}
	// Simulated programs see this process's part of it as /sim.
	os.SimPrefix, os.SimReal = "/sim", filepath.Join(Scratch, fmt.Sprintf("sim-%d", os.Getpid()))
	var c *Check
	for _, x := range checks {
		if x.ID == *prop {
			c = x
		}
	}
	if *replay != "" || *try != "" {
		name := *replay + *try
		b, err := os.ReadFile(name)
		fatalIf(err)
		var cs Case
		fatalIf(json.Unmarshal(b, &cs))
		for _, x := range checks {
			if x.ID == cs.Property {
				c = x
			}
		}
		if c == nil {
			fatalIf(fmt.Errorf("unknown property %q", cs.Property))
		}
		res := runPrefixed(c, &cs, *tier)
		if *try != "" {
			json.NewEncoder(os.Stdout).Encode(res)
			return
		}
		if res.Class == "" {
			fmt.Printf("replay: the property held (trace %x)\n", res.Trace)
			return
		}
		if res.Known != "" {
			fmt.Printf("replay: known finding %s: %s: %s (trace %x)\n", res.Known, res.Class, res.Detail, res.Trace)
			os.Exit(0)
		}
		fmt.Printf("replay: %s: %s (trace %x)\n", res.Class, res.Detail, res.Trace)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, name)
		os.Exit(1)
	}
	if c == nil {
		fatalIf(fmt.Errorf("unknown property %q", *prop))
	}
	n := *count
	if n == 0 {
		n = c.Quick
		if *tier == "thorough" {
			n = c.Thorough
		}
	}
	if *dump {
		s := caseSeed(*seed, uint64(*from))
		spec := genSpec(c, s, *tier)
		b, _ := json.MarshalIndent(spec, "", " ")
		fmt.Println(string(b))
		res := runCase(c, spec, scheduleFor(c, s, 0))
		res.Out.Decisions = nil
		b, _ = json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
		return
	}
	if *hash != "" {
		for _, f := range strings.Split(*hash, ",") {
			i, _ := strconv.ParseUint(f, 10, 64)
			fmt.Printf("%d %d\n", i, trace(c, caseSeed(*seed, i), *tier))
		}
		return
	}
	if *worker >= 0 {
		runWorker(c, *tier, *seed, *worker, *shards, *from, n, *deadline)
		return
	}
	os.Exit(drive(c, *tier, *seed, *shards, n, *deadline, *out, *evidence, os.Getenv("SIM_KNOWN"), *buildS))
}

// Scratch is the directory simulated disks live under.
var Scratch string

func fatalIf(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(2)
	}
}

// trace runs every schedule of a case and hashes what was observed.
func trace(c *Check, seed uint64, tier string) uint64 {
	spec := genSpec(c, seed, tier)
	t := uint64(1)
	for k := 0; k < max(c.Schedules, 1); k++ {
		res := runCase(c, spec, scheduleFor(c, seed, k))
		if os.Getenv("SIM_DEBUG") != "" {
			fmt.Println(k, res.Trace, res.Out.Hash, res.Out.Yields, len(res.Out.Decisions), res.Class, res.Detail)
			if os.Getenv("SIM_DEBUG") == "2" {
				for _, e := range simrt.Events() {
					fmt.Println(e.Seq, e.Thread, e.Kind, e.Key, e.Data, e.Nanos)
				}
			}
		}
		t = Hash(fmt.Sprint(t, res.Trace, res.Out.Hash, res.Out.Yields, res.Class))
	}
	return t
}

func runPrefixed(c *Check, cs *Case, tier string) Result {
	for _, s := range cs.Prefix {
		spec := genSpec(c, s, tier)
		for k := 0; k < max(c.Schedules, 1); k++ {
			runCase(c, spec, scheduleFor(c, s, k))
		}
	}
	v := c.New()
	if err := json.Unmarshal(cs.Spec, v); err != nil {
		return Result{Skip: true}
	}
	return runCase(c, v, cs.Sched)
}

func runWorker(c *Check, tier string, base uint64, shard, shards, from, n int, deadline time.Duration) {
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	start := time.Now()
	st := newStats()
	flush := func() {
		for h := range st.Hashes {
			st.HashList = append(st.HashList, h)
		}
		for h := range st.States {
			st.StateList = append(st.StateList, h)
		}
		enc.Encode(message{Kind: "stats", Stats: st})
		w.Flush()
		st = newStats()
	}
	var done []uint64
	for i := from; i < n; i++ {
		if i%shards != shard {
			continue
		}
		if time.Since(start) > deadline {
			break
		}
		if len(done) == perProcess {
			flush()
			enc.Encode(message{Kind: "more", Seed: uint64(i)})
			w.Flush()
			return
		}
		seed := caseSeed(base, uint64(i))
		enc.Encode(message{Kind: "at", Seed: uint64(i)})
		w.Flush()
		spec := genSpec(c, seed, tier)
		st.Cases++
		t := uint64(1)
		for k := 0; k < max(c.Schedules, 1); k++ {
			s := scheduleFor(c, seed, k)
			res := runCase(c, spec, s)
			st.add(res)
			t = Hash(fmt.Sprint(t, res.Trace, res.Out.Hash, res.Out.Yields, res.Class))
			if res.Class != "" && res.Known == "" {
				b, _ := json.Marshal(spec)
				enc.Encode(message{Kind: "fail", Case: &Case{Property: c.ID, Class: res.Class, Detail: res.Detail, Seed: seed, Prefix: done, Spec: b, Sched: s}})
				flush()
				os.Exit(0)
			}
		}
		if i/shards%7 == 3 {
			st.Traces[fmt.Sprint(i)] = t
		}
		done = append(done, seed)
		if len(done)%50 == 0 {
			flush()
		}
	}
	flush()
}

type driver struct {
	c     *Check
	tier  string
	dir   string
	self  string
	tries atomic.Int64
}

func (d *driver) env() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0")
}

// head keeps the beginning of what is written to it.
type head struct{ b []byte }

func (h *head) Write(p []byte) (int, error) {
	if room := 1<<18 - len(h.b); room > 0 {
		h.b = append(h.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (h *head) String() string { return string(h.b) }

// attempt runs a case in a fresh process.
func (d *driver) attempt(cs *Case, limit time.Duration) (Result, string) {
	n := d.tries.Add(1)
	name := filepath.Join(d.dir, fmt.Sprintf("try-%d.json", n))
	b, _ := json.Marshal(cs)
	fatalIf(os.WriteFile(name, b, 0o644))
	defer os.Remove(name)
	cmd := exec.Command(d.self, "-try", name, "-tier", d.tier, "-scratch", Scratch)
	cmd.Env = d.env()
	var stdout bytes.Buffer
	var stderr head
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	fatalIf(cmd.Start())
	beat := time.Now()
	ran := watch(cmd, func() time.Duration { return time.Since(beat) }, limit)
	err := cmd.Wait()
	why := ran()
	var res Result
	if e := json.Unmarshal(stdout.Bytes(), &res); e != nil || err != nil {
		if why != "" {
			return Result{Class: "runaway", Detail: "the process was stopped: " + why}, ""
		}
		return crashResult(stderr.String()), stderr.String()
	}
	return res, stderr.String()
}

// perProcess is the number of cases a worker process runs before a fresh one takes over: what the
// process accumulates (the race detector's records above all) stays small, and so does the
// history a failure has to be replayed with.
const perProcess = 250

const (
	caseLimit   = 100 * time.Second
	memoryLimit = 3 << 20 // kB
)

// watch kills the process when it stands still for longer than limit or takes too much memory.
// The function it returns ends the watch and says why the process was killed, if it was.
func watch(cmd *exec.Cmd, idle func() time.Duration, limit time.Duration) func() string {
	quit := make(chan struct{})
	done := make(chan string)
	go func() {
		for {
			select {
			case <-quit:
				done <- ""
				return
			case <-time.After(250 * time.Millisecond):
			}
			why := ""
			if d := idle(); d > limit {
				why = fmt.Sprintf("no result after %v", limit)
			} else if m := rss(cmd.Process.Pid); m > memoryLimit {
				why = fmt.Sprintf("more than %d MB of memory in use", memoryLimit>>10)
			}
			if why != "" {
				cmd.Process.Kill()
				<-quit
				done <- why
				return
			}
		}
	}()
	return func() string { close(quit); return <-done }
}

// rss is the memory a process has in use, in kB.
func rss(pid int) (n int) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmRSS:") {
			fmt.Sscanf(l[6:], "%d", &n)
		}
	}
	return
}

// crashResult classifies the death of a worker process.
func crashResult(stderr string) Result {
	if strings.Contains(stderr, "harness: ") {
		return Result{Skip: true, Detail: stderr}
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return Result{Class: "crash", Detail: "the process died: " + l}
		}
	}
	return Result{Skip: true, Detail: stderr}
}

func drive(c *Check, tier string, seed uint64, shards, n int, deadline time.Duration, out, evidence, knownFile string, buildS float64) int {
	start := time.Now()
	self, err := os.Executable()
	fatalIf(err)
	fatalIf(os.MkdirAll(out, 0o755))
	dir, err := os.MkdirTemp(Scratch, "sim-drive-")
	fatalIf(err)
	defer os.RemoveAll(dir)
	d := &driver{c: c, tier: tier, dir: dir, self: self}
	known := loadKnown(knownFile, c.ID)

	var mu sync.Mutex
	total := newStats()
	var fails []*Case
	var trouble []string
	var wg sync.WaitGroup
	var stop atomic.Bool
	var procs []*exec.Cmd
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			from, begin := i, time.Now()
		again:
			first, more := from, false
			cmd := exec.Command(self, "-prop", c.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(i), "-from", fmt.Sprint(from), "-shards", fmt.Sprint(shards), "-count", fmt.Sprint(n), "-deadline", (deadline - time.Since(begin)).String(), "-scratch", Scratch)
			cmd.Env = d.env()
			pipe, err := cmd.StdoutPipe()
			fatalIf(err)
			var stderr head
			cmd.Stderr = &stderr
			fatalIf(cmd.Start())
			mu.Lock()
			procs = append(procs, cmd)
			mu.Unlock()
			last, have := uint64(0), false
			var own []*Case
			sc := bufio.NewScanner(pipe)
			sc.Buffer(nil, 1<<28)
			beat := time.Now()
			var beatMu sync.Mutex
			ran := watch(cmd, func() time.Duration {
				beatMu.Lock()
				defer beatMu.Unlock()
				return time.Since(beat)
			}, caseLimit)
			for sc.Scan() {
				beatMu.Lock()
				beat = time.Now()
				beatMu.Unlock()
				var m message
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				switch m.Kind {
				case "at":
					last, have = m.Seed, true
				case "more":
					from, more = int(m.Seed), true
				case "stats":
					mu.Lock()
					total.merge(m.Stats)
					mu.Unlock()
				case "fail":
					mu.Lock()
					own = append(own, m.Case)
					fails = append(fails, m.Case)
					mu.Unlock()
					if !stop.Swap(true) {
						// Give the others a moment: a second failure may be simpler.
						time.AfterFunc(3*time.Second, func() {
							mu.Lock()
							defer mu.Unlock()
							for _, p := range procs {
								p.Process.Kill()
							}
						})
					}
				}
			}
			err = cmd.Wait()
			hung := ran()
			mu.Lock()
			for _, f := range own {
				f.Report = clip(stderr.String(), 6000)
			}
			mu.Unlock()
			if more && err == nil && !stop.Load() {
				goto again
			}
			if err == nil || stop.Load() {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			// The process died: the case it was running is the suspect.
			if have {
				cs := caseSeed(seed, last)
				spec, _ := json.Marshal(genSpec(c, cs, tier))
				var before []uint64
				for j := uint64(first); j < last; j += uint64(shards) {
					before = append(before, caseSeed(seed, j))
				}
				for k := 0; k < max(c.Schedules, 1); k++ {
					what := firstLines(stderr.String(), 3)
					if hung != "" {
						what = hung
					}
					fails = append(fails, &Case{Property: c.ID, Class: "crash", Detail: what, Seed: cs, Prefix: before, Spec: spec, Sched: scheduleFor(c, cs, k), Report: clip(stderr.String(), 6000)})
				}
			} else {
				trouble = append(trouble, fmt.Sprintf("worker %d: %v: %s", i, err, firstLines(stderr.String(), 10)))
			}
		}(i)
	}
	wg.Wait()

	searchS := time.Since(start).Seconds()
	// Confirm: a failure counts when a fresh process shows it too.
	var confirmed *Case
	for _, f := range fails {
		if confirmed != nil {
			break
		}
		for _, prefixed := range []bool{false, true} {
			g := *f
			if !prefixed {
				g.Prefix = nil
			} else if len(f.Prefix) == 0 {
				continue
			}
			res, stderr := d.attempt(&g, caseLimit)
			if res.Class == "" || res.Known != "" {
				continue
			}
			g.Class, g.Detail = res.Class, res.Detail
			if len(stderr) > 0 {
				g.Report = clip(stderr, 6000)
			}
			if len(res.Out.Decisions) > 0 && res.Class != "runaway" {
				h := g
				h.Sched = simrt.Schedule{Seed: g.Sched.Seed, Mode: "list", List: res.Out.Decisions}
				if r2, _ := d.attempt(&h, caseLimit); r2.Class == g.Class {
					g = h
				}
			}
			confirmed = &g
			break
		}
	}
	if confirmed == nil && len(fails) > 0 {
		f := fails[0]
		trouble = append(trouble, fmt.Sprintf("a failure did not repeat in a fresh process: seed %d %s: %s", f.Seed, f.Class, f.Detail))
		fmt.Fprintln(os.Stderr, clip(f.Report, 6000))
	}

	code := 0
	var violations []map[string]any
	if confirmed != nil {
		min := confirmed
		if min.Class != "runaway" {
			min = d.minimise(confirmed, 45*time.Second)
		}
		name := filepath.Join(out, fmt.Sprintf("%s-%016x.json", c.ID, min.Seed))
		min.Replay = "bash /verif/check replay " + name
		b, _ := json.MarshalIndent(min, "", " ")
		fatalIf(os.WriteFile(name, append(b, '\n'), 0o644))
		fmt.Printf("%s: %s\n", min.Class, min.Detail)
		if min.Report != "" && min.Class == "race" {
			fmt.Println(clip(min.Report, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, name)
		violations = append(violations, map[string]any{"what": min.Class + ": " + min.Detail, "replay": name, "seed": fmt.Sprint(min.Seed), "class": min.Class, "detail": clip(min.Detail, 500)})
		code = 1
	}

	// Determinism: sampled cases again, in other processes.
	checked, differ := 0, 0
	if code == 0 && len(trouble) == 0 {
		checked, differ = d.recheck(seed, total.Traces, 48)
		if differ > 0 {
			fmt.Fprintf(os.Stderr, "sim: note: %d of %d sampled cases took another course in a fresh process\n", differ, checked)
		}
		if differ*8 > checked {
			trouble = append(trouble, fmt.Sprintf("%d of %d sampled cases took another course in a fresh process", differ, checked))
		}
	}
	for _, k := range known {
		if total.Known[k.Name] > 0 || k.Always {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
		}
	}
	if len(trouble) > 0 && code == 0 {
		code = 2
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "sim: trouble:", t)
		}
	}
	if total.Cases == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "sim: trouble: nothing was run")
		code = 2
	}
	if evidence != "" {
		writeEvidence(c, tier, seed, total, time.Since(start).Seconds(), searchS, buildS, evidence, violations, checked, differ, n)
	}
	fmt.Printf("%s %s: %d cases, %d runs, %d distinct interleavings, %d distinct cases, %.0f s simulated, faults %v, known %v, %.1f s\n",
		c.ID, tier, total.Cases, total.Runs, len(total.Hashes), len(total.States), float64(total.SimNanos)/1e9, total.Faults, total.Known, time.Since(start).Seconds())
	return code
}

func (d *driver) recheck(seed uint64, traces map[string]uint64, limit int) (int, int) {
	var keys []int
	for k := range traces {
		i, _ := strconv.Atoi(k)
		keys = append(keys, i)
	}
	sort.Ints(keys)
	if len(keys) > limit {
		step := len(keys) / limit
		var some []int
		for i := 0; i < len(keys) && len(some) < limit; i += step {
			some = append(some, keys[i])
		}
		keys = some
	}
	differ := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	groups := make([][]string, 8)
	for i, k := range keys {
		groups[i%8] = append(groups[i%8], fmt.Sprint(k))
	}
	for _, g := range groups {
		if len(g) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(d.self, "-prop", d.c.ID, "-tier", d.tier, "-seed", fmt.Sprint(seed), "-hash", strings.Join(g, ","), "-scratch", Scratch)
			cmd.Env = d.env()
			b, _ := cmd.Output()
			got := map[string]string{}
			for _, l := range strings.Split(string(b), "\n") {
				if a, v, ok := strings.Cut(l, " "); ok {
					got[a] = v
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for _, k := range g {
				if got[k] != fmt.Sprint(traces[k]) {
					differ++
					fmt.Fprintf(os.Stderr, "sim: case %s: trace %s here, %d in the worker\n", k, got[k], traces[k])
				}
			}
		}()
	}
	wg.Wait()
	return len(keys), differ
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// KnownFinding is an entry of the known findings file.
type KnownFinding struct {
	Property string `json:"property"`
	Name     string `json:"name"`
	What     string `json:"what"`
	Always   bool   `json:"-"`
}

func loadKnown(file, id string) []KnownFinding {
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	fatalIf(err)
	var all struct {
		Findings []KnownFinding `json:"findings"`
	}
	fatalIf(json.Unmarshal(b, &all))
	var mine []KnownFinding
	for _, k := range all.Findings {
		if k.Property == id {
			mine = append(mine, k)
		}
	}
	return mine
}

func writeEvidence(c *Check, tier string, seed uint64, t *stats, wall, searchS, buildS float64, file string, violations []map[string]any, checked, differ, planned int) {
	if violations == nil {
		violations = []map[string]any{}
	}
	fired := map[string]int{}
	for _, k := range c.Kinds {
		fired[k] = 0
	}
	for k, v := range t.Faults {
		fired[k] = v
	}
	distinct := len(t.Hashes)
	if c.Sequential {
		distinct = len(t.States)
	}
	interleavings := "as distinct_nontrivial"
	if c.Sequential {
		interleavings = "not applicable: one task"
	}
	perHour := func(n int) float64 {
		if searchS <= 0 {
			return 0
		}
		return float64(int(float64(n) / searchS * 3600))
	}
	samples := []string{}
	var ks []string
	for k := range t.Traces {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i == 5 {
			break
		}
		spec, _ := json.Marshal(genSpec(c, caseSeed(seed, atou(k)), tier))
		samples = append(samples, fmt.Sprintf("case %s of base seed %d: seed %d, trace %016x, workload %s", k, seed, caseSeed(seed, atou(k)), t.Traces[k], clip(string(spec), 1500)))
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":            t.Runs,
			"distinct_nontrivial":    distinct,
			"rule":                   c.Rule,
			"samples":                samples,
			"reference_runs":         t.Extra,
			"cases":                  t.Cases,
			"cases_planned":          planned,
			"distinct_cases":         len(t.States),
			"runs_per_hour":          perHour(t.Runs),
			"seeds_per_hour":         perHour(t.Cases),
			"simulated_seconds":      float64(t.SimNanos) / 1e9,
			"scheduling_points":      t.Yields,
			"context_switches":       t.Switches,
			"runs_with_switches":     t.Multi,
			"distinct_interleavings": interleavings,
			"distinct_measure":       "hash of the sequence of (task, program point) at which tasks were resumed; for sequential runs hash of workload and fault plan",
			"faults_injected":        fired,
			"conditions_reached":     t.Probes,
			"known_findings_seen":    t.Known,
			"determinism_resampled":  checked,
			"determinism_differing":  differ,
			"real_components":        c.Real,
			"stub_components":        c.Stub,
			"build_s":                buildS,
			"violation_details":      violations,
		},
		"wall_s":      wall,
		"assumptions": c.Assume,
		"violations":  len(violations),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	fatalIf(err)
	fatalIf(os.MkdirAll(filepath.Dir(file), 0o755))
	fatalIf(os.WriteFile(file, append(b, '\n'), 0o644))
}

func atou(s string) uint64 {
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}
