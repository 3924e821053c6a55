package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c05Build struct {
	How    int // 0 succeeds, 1 fails, 2 panics
	Delay  int // simulated milliseconds
	Error  int `json:",omitempty"` // kind of error
	Nested int // loads the key that many places further first (0: none)
}

type c05Call struct {
	Key   int
	Pause int // simulated milliseconds before the call
}

type c05Spec struct {
	Keys  [][]c05Build // what the n-th build of the key does; then the last again
	Names []string     `json:",omitempty"` // of the keys
	Cache []int        `json:",omitempty"` // the cache each key is loaded from
	Calls [][]c05Call
}

var c05 = &harness.Check{
	ID:        "C05",
	Title:     "The loading cache builds each entry once",
	Quick:     35000,
	Thorough:  400000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema.Cache", "golang.org/x/sync/singleflight", "sync.Map", "race detector"},
	Stub:      []string{"builders (scripted results, errors, panics, delays, nested loads)", "goroutine scheduler", "clock"},
	Kinds:     []string{"build-error", "build-panic", "build-slow", "nested-load", "preemption"},
	Assume:    []string{"values are pointers (nil among them), as in every use of the cache in the repository", "builders load other keys without a cycle (cycles are C08)"},
	New:       func() any { return &c05Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c05Spec{}
		bad, slow := simrt.Pick(r, 0, 0.2, 0.5, 0.8), simrt.Pick(r, 0, 0.3, 0.8)
		nest := simrt.Pick(r, 0, 0, 0.3)
		void := simrt.Pick(r, 0, 0, 0, 0.3)
		for i := r.Range(1, 3); i > 0; i-- {
			var bs []c05Build
			for j := r.Range(1, 4); j > 0; j-- {
				b := c05Build{}
				if r.Chance(bad) {
					b.How = simrt.Pick(r, 1, 1, 2, 3)
					b.Error = r.Intn(simrt.OddErrors)
				}
				if r.Chance(void) {
					b.How = 4
				}
				if r.Chance(slow) {
					b.Delay = simrt.Pick(r, r.Range(1, 100), r.Range(1, 100), r.Range(100, 60_000), r.Range(1, 48)*3_600_000)
				}
				if r.Chance(nest) {
					b.Nested = r.Range(1, 2)
				}
				bs = append(bs, b)
			}
			s.Keys = append(s.Keys, bs)
		}
		s.Names = keyNames(r, len(s.Keys))
		if r.Chance(0.3) {
			// Two caches, which may know the same names.
			s.Names = append(s.Names, keyNames(r, len(s.Keys))...)
			for i := range s.Keys {
				s.Cache = append(s.Cache, r.Intn(2))
				s.Names[i] = s.Names[i+s.Cache[i]*r.Intn(2)*len(s.Keys)]
			}
			s.Names = s.Names[:len(s.Keys)]
			for i := range s.Keys {
				for j := range i {
					if s.Names[i] == s.Names[j] && s.Cache[i] == s.Cache[j] {
						s.Names[i] += fmt.Sprint("_", i)
					}
				}
			}
			if r.Chance(0.5) && len(s.Keys) > 1 {
				s.Cache[0], s.Cache[1], s.Names[1] = 0, 1, s.Names[0]
			}
		}
		if r.Chance(0.004) {
			// A great number of keys that are loaded once and loaded again.
			s.Names, s.Cache = nil, nil
			for n := simrt.Pick(r, 140, 300, 1100); len(s.Keys) < n; {
				s.Keys = append(s.Keys, []c05Build{{}})
			}
			for i := r.Range(1, 2); i > 0; i-- {
				var cs []c05Call
				for k := range s.Keys {
					cs = append(cs, c05Call{Key: k})
				}
				if r.Chance(0.5) {
					simrt.Shuffle(r, cs)
				}
				for i := r.Range(10, 100); i > 0; i-- {
					cs = append(cs, c05Call{Key: r.Intn(len(s.Keys))})
				}
				s.Calls = append(s.Calls, cs)
			}
			return s
		}
		pause := simrt.Pick(r, 0, 0.3, 0.6)
		for i := r.Range(2, 6); i > 0; i-- {
			var cs []c05Call
			for j := r.Range(1, 4); j > 0; j-- {
				c := c05Call{Key: r.Intn(len(s.Keys))}
				if r.Chance(pause) {
					c.Pause = r.Range(1, 150)
				}
				cs = append(cs, c)
			}
			s.Calls = append(s.Calls, cs)
		}
		return s
	},
	Run: runC05,
}

// keyNames makes names that are different, though not in everything.
func keyNames(r *simrt.Rand, n int) []string {
	names := map[string]bool{}
	stem := simrt.Pick(r, "key", "/schemas/article.json|", strings.Repeat("/a/very/long/path", 20)+"/x.json|")
	for len(names) < n {
		s := fmt.Sprint(stem, len(names))
		if r.Chance(0.6) {
			s = stem + simrt.Pick(r, "", " ", "a", "A", "b", "|true", "|false", "a|true", "#", "./a", "../a", "é", "e\u0301", "0", "00")
		}
		if r.Chance(0.1) {
			s = simrt.Pick(r, "", " ", strings.ToUpper(stem), stem+stem)
		}
		names[s] = true
	}
	out := keys(names)
	simrt.Shuffle(r, out)
	return out
}

type box struct {
	key, n int
	salt   int
}

// cacheSim drives one cache and checks its history.
type cacheSim struct {
	spec  *c05Spec
	cache [2]*jsonschema.Cache[*box]
}

func (c *cacheSim) load(key int) string {
	id := simrt.Count("call")
	simrt.Record("call", fmt.Sprint(key), fmt.Sprint(id))
	what := func() (what string) {
		defer func() {
			if p := recover(); p != nil {
				what = "panic " + buildName(fmt.Sprint(p))
			}
		}()
		name, n := fmt.Sprintf("key%d", key), 0
		if key < len(c.spec.Names) {
			name = c.spec.Names[key]
		}
		if key < len(c.spec.Cache) {
			n = c.spec.Cache[key] % 2
		}
		for i := range min(key, len(c.spec.Names)) {
			if c.spec.Names[i] == name {
				name += fmt.Sprint("_", key)
			}
		}
		v, err := c.cache[n].Load(name, func() (*box, error) { return c.build(key, id) })
		if err != nil {
			if v != nil {
				return "both " + buildName(err.Error())
			}
			return "error " + buildName(err.Error())
		}
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("value %d#%d", v.key, v.n)
	}()
	simrt.Record("return", fmt.Sprint(key), fmt.Sprint(id, " ", what))
	return what
}

// buildName finds the name of a build in an error or panic text.
func buildName(s string) string {
	i := strings.Index(s, "<build ")
	if i < 0 {
		return "?"
	}
	s = s[i+7:]
	if i = strings.Index(s, ">"); i < 0 {
		return "?"
	}
	return s[:i]
}

func (c *cacheSim) build(key, call int) (*box, error) {
	n := simrt.Count(fmt.Sprint("build", key))
	name := fmt.Sprintf("%d#%d", key, n)
	simrt.Record("build", fmt.Sprint(key), fmt.Sprint(name, " ", call))
	plan := c.spec.Keys[key]
	b := c05Build{}
	if len(plan) > 0 {
		b = plan[min(n, len(plan)-1)]
	}
	how := b.How
	if b.Nested > 0 && key+b.Nested < len(c.spec.Keys) {
		if got := c.load(key + b.Nested); !strings.HasPrefix(got, "value") {
			how = 1
		}
	}
	simrt.Yield(7)
	if b.Delay > 0 {
		simrt.Sleep(time.Duration(b.Delay) * time.Millisecond)
	}
	v := &box{key: key, n: n, salt: n}
	simrt.Yield(8)
	simrt.Record("built", fmt.Sprint(key), fmt.Sprint(name, " ", how))
	switch how {
	case 1:
		return nil, simrt.OddError(b.Error, "<build "+name+"> fails")
	case 2:
		panic("<build " + name + "> panics")
	case 3: // with half a value
		return v, simrt.OddError(b.Error, "<build "+name+"> fails")
	case 4:
		return nil, nil
	}
	return v, nil
}

func runC05(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c05Spec)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Keys) == 0 || len(spec.Calls) == 0 {
		res.Skip = true
		return
	}
	reset()
	c := &cacheSim{spec, [2]*jsonschema.Cache[*box]{{}, {}}}
	run := func(s simrt.Schedule) simrt.Outcome {
		var threads []simrt.Thread
		for i, calls := range spec.Calls {
			threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
				for _, k := range calls {
					if k.Pause > 0 {
						simrt.Sleep(time.Duration(k.Pause) * time.Millisecond)
					}
					c.load(k.Key % len(spec.Keys))
				}
			}})
		}
		return simrt.Run(s, stepLimit, threads...)
	}
	res.Out = run(sched)
	events := simrt.Events()
	if d := checkCache(events, res.Faults, res.Probes); d != "" {
		res.Class, res.Detail = "cache", d
	}
	if cl, d := verdict(res.Out); cl != "" && (cl != "panic" || res.Class == "") {
		res.Class, res.Detail = cl, d
	}
	res.Faults["preemption"] += res.Out.Switches
	var tracks []string
	for _, e := range events {
		tracks = append(tracks, e.Kind, e.Key, e.Data)
	}
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}

type span struct {
	key        string
	name       string // builds
	what       string // calls: result; builds: how
	begin, end int    // event numbers
	t0, t1     int64
	call       int // builds: the call that ran it
	done       bool
}

// checkCache judges a history against the contract of the cache; "" means it is met.
func checkCache(events []simrt.Event, faults, probes map[string]int) string {
	calls := map[int]*span{}
	var order []*span
	var builds []*span
	for _, e := range events {
		f := strings.SplitN(e.Data, " ", 2)
		switch e.Kind {
		case "call":
			id, _ := strconv.Atoi(e.Data)
			s := &span{key: e.Key, begin: e.Seq, t0: e.Nanos}
			calls[id] = s
			order = append(order, s)
		case "return":
			id, _ := strconv.Atoi(f[0])
			s := calls[id]
			s.end, s.t1, s.what, s.done = e.Seq, e.Nanos, f[1], true
		case "build":
			id, _ := strconv.Atoi(f[1])
			builds = append(builds, &span{key: e.Key, name: f[0], begin: e.Seq, t0: e.Nanos, call: id})
		case "built":
			for _, b := range builds {
				if b.name == f[0] {
					b.end, b.t1, b.what, b.done = e.Seq, e.Nanos, f[1], true
				}
			}
		}
	}
	byName := map[string]*span{}
	for i, b := range builds {
		byName[b.name] = b
		if !b.done {
			continue // the run did not finish; reported elsewhere
		}
		switch b.what {
		case "1", "3":
			faults["build-error"]++
		case "2":
			faults["build-panic"]++
		}
		if b.t1 > b.t0 {
			faults["build-slow"]++
		}
		for _, o := range builds[i+1:] {
			if o.key != b.key {
				continue
			}
			if o.begin < b.end {
				return fmt.Sprintf("build %s began while build %s was running", o.name, b.name)
			}
			if b.what == "0" || b.what == "4" {
				return fmt.Sprintf("build %s began after build %s had succeeded", o.name, b.name)
			}
		}
	}
	if len(order) > 0 {
		faults["nested-load"] += max(0, len(order)-countTop(events))
	}
	for _, c := range order {
		if !c.done {
			continue
		}
		kind, name, _ := strings.Cut(c.what, " ")
		b := byName[name]
		probes["call returns: "+kind]++
		switch kind {
		case "value":
			if b == nil || b.key != c.key || b.what != "0" {
				return fmt.Sprintf("a call for key %s returned %s, no successful build of that key made it", c.key, c.what)
			}
			if b.end > c.end {
				return fmt.Sprintf("a call for key %s returned %s before the build had ended", c.key, c.what)
			}
		case "error", "panic":
			if b == nil || b.key != c.key || b.what == "0" || b.what == "4" {
				return fmt.Sprintf("a call for key %s ended with %s, which is no failed build of that key", c.key, c.what)
			}
			leader := calls[b.call]
			if leader == nil || leader.done && leader.end < c.begin || b.begin > c.end {
				return fmt.Sprintf("a call for key %s ended with the failure of build %s, which was over before", c.key, name)
			}
			if kind == "error" && b.what == "2" {
				probes["a panic reported as error"]++
			}
		case "nil":
			// The build made nothing, successfully.
			for _, o := range builds {
				if o.key == c.key && o.what == "4" && o.end < c.end {
					b, name = o, o.name
				}
			}
			if b == nil {
				return fmt.Sprintf("a call for key %s returned nothing, no build of that key made that", c.key)
			}
		default:
			return fmt.Sprintf("a call for key %s returned %s", c.key, c.what)
		}
		// Time passes only when everybody waits: a call open while time passed inside a build of
		// its key was waiting for that build.
		left := c.t1 - c.t0
		for _, o := range builds {
			if o.key != c.key || !o.done {
				continue
			}
			from, to := max(c.t0, o.t0), min(c.t1, o.t1)
			if to > from {
				left -= to - from
				if name != o.name && o.t1 <= c.t1 && o.begin < c.end {
					return fmt.Sprintf("a call for key %s waited for build %s and ended with %s", c.key, o.name, c.what)
				}
			}
		}
		if left > 0 {
			return fmt.Sprintf("a call for key %s was held up for %v by builds of other keys", c.key, time.Duration(left))
		}
	}
	return ""
}

func countTop(events []simrt.Event) (n int) {
	open := map[int]int{}
	for _, e := range events {
		switch e.Kind {
		case "call":
			if open[e.Thread] == 0 {
				n++
			}
			open[e.Thread]++
		case "return":
			open[e.Thread]--
		}
	}
	return
}
