package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/gojsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c07Spec struct {
	Dir    string // where the files are, part of every key
	Files  []wl.File
	Docs   []string
	Acts   [][]schemaAct
	Faults []fault
	Again  []fault // faults of a second round before the healthy one
}

var warmed bool

const webHost = "http://schemas.example/"

var c07 = &harness.Check{
	ID:        "C07",
	Title:     "A faulty source never yields a wrong schema",
	Quick:     5500,
	Thorough:  60000,
	Schedules: 3,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema", "transform (construction)", "golang.org/x/sync/singleflight", "gojsonschema", "net/http client", "os (files in a scratch directory)", "race detector"},
	Stub:      []string{"network (http.DefaultTransport)", "results of file operations hit by a fault", "goroutine scheduler", "clock"},
	Kinds: []string{"open-EMFILE", "open-EACCES", "open-ENOENT", "open-EIO", "read-EIO", "read-short", "read-cut", "read-empty", "close-EIO",
		"http-refused", "http-timeout", "http-delay", "http-status404", "http-status500", "http-status503", "http-status403", "http-status204", "http-html", "http-empty", "http-cut", "http-late-reset", "http-silent-cut", "body-reset", "body-stall", "preemption"},
	Assume: []string{"a server that answers 200 with other well-formed JSON is not a fault a client can tell"},
	New:    func() any { return &c07Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		dir := dirName(r)
		g := wl.NewSGen(r)
		if r.Chance(0.7) {
			g.HTTP = func(i int) string { return webHost + g.Name(i) }
		}
		g.Flat = r.Chance(0.6)
		g.Alike = r.Chance(0.3)
		g.Long = 0.1
		g.Part = simrt.Pick(r, 0, 0, 0.5)
		s := &c07Spec{Dir: dir, Files: g.Graph(r.Range(1, 4))}
		s.Docs = []string{g.Document(), g.Document()}
		s.Acts = schemaActs(r, s.Files, len(s.Docs), simrt.Pick(r, 1, 1, 2, 3))
		if r.Chance(0.7) {
			for i := range s.Acts { // the loads that reach most
				s.Acts[i][0].File = 0
			}
		}
		s.Faults = c07Faults(r, s.Files)
		if r.Chance(0.3) {
			s.Again = c07Faults(r, s.Files)
		}
		return s
	},
	Run: runC07,
}

func c07Faults(r *simrt.Rand, files []wl.File) (out []fault) {
	remote := false
	for _, f := range files {
		remote = remote || strings.Contains(f.Text, webHost)
	}
	for n := simrt.Pick(r, 1, 1, 1, 2, 3, 5); n > 0; n-- {
		f := fault{}
		op := r.Intn(6)
		if remote && r.Chance(0.3) {
			op = 4
		}
		switch op {
		case 0:
			f.Op, f.Kind = "open", simrt.Pick(r, "EMFILE", "EACCES", "ENOENT", "EIO")
		case 1, 2:
			f.Op, f.Kind = "read", simrt.Pick(r, "EIO", "cut", "cut", "empty", "short")
		case 3:
			f.Op, f.Kind = "body", simrt.Pick(r, "reset", "reset", "stall")
			if r.Chance(0.2) {
				f.Op, f.Kind = "close", "EIO"
			}
		default:
			f.Op, f.Kind = "http", simrt.Pick(r, "refused", "timeout", "delay", "status404", "status500", "status503", "status403", "status204", "html", "empty", "cut", "late-reset", "silent-cut")
		}
		f.From = r.Intn(simrt.Pick(r, 2, 6, 15))
		if f.Op == "http" {
			f.From = r.Intn(simrt.Pick(r, 1, 3, 6))
		}
		f.To = f.From + simrt.Pick(r, 1, 1, 1, 2, 4, 1000)
		if r.Chance(0.3) && f.Op != "body" {
			f.Name = filepath.Base(files[r.Intn(len(files))].Name)
			f.From = r.Intn(4)
		}
		out = append(out, f)
	}
	if remote && r.Chance(0.2) {
		// A fetch that fails one way and, should it be tried again, another.
		n := r.Intn(5)
		k := n + r.Range(1, 2)
		out = append([]fault{
			{Op: "http", Kind: simrt.Pick(r, "late-reset", "late-reset", "cut", "silent-cut", "refused", "timeout"), From: n, To: k},
			{Op: "http", Kind: simrt.Pick(r, "status404", "status500", "status503", "status503", "cut", "html"), From: k, To: k + r.Range(1, 3)},
		}, out...)
	}
	return
}

func runC07(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c07Spec)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Files) == 0 || len(spec.Docs) == 0 {
		res.Skip = true
		return
	}
	dir := scratch(spec.Dir)
	defer cleanScratch()
	w := &web{files: map[string]string{}}
	for _, f := range spec.Files {
		if f.Name == "" || strings.Contains(f.Name, "..") {
			res.Skip = true
			return
		}
		writeFile(filepath.Join(dir, f.Name), f.Text)
		w.files["/"+f.Name] = f.Text
	}
	old := http.DefaultTransport
	http.DefaultTransport = w
	defer func() { http.DefaultTransport = old }()
	os.SimFS = fileFaults(dir)
	defer noFileFaults()
	if !warmed {
		// gojsonschema keeps a parsed template per error message for the life of the process.
		warmed = true
		http.DefaultTransport = &web{}
		gojsonschema.NewReferenceLoader(webHost + "none").LoadJSON()
		http.DefaultTransport = w
	}

	// What each load gives alone, without faults.
	type refT struct {
		class, detail string
		ans           map[string]answer
	}
	ref := memo(spec, func() any {
		usePlan(nil)
		ref := &refT{ans: map[string]answer{}}
		for _, as := range spec.Acts {
			for _, a := range as {
				if _, ok := ref.ans[a.id()]; ok {
					continue
				}
				reset()
				var got answer
				o := solo(uint64(len(ref.ans)), func() { got, _ = a.perform(dir, spec.Files, spec.Docs) })
				res.Runs++
				if c, d := verdict(o); c != "" {
					ref.class, ref.detail = c, fmt.Sprintf("alone, %s: %s", a.id(), d)
					return ref
				}
				if got.Panic {
					ref.class, ref.detail = "panic", fmt.Sprintf("alone, %s: %v", a.id(), got)
					return ref
				}
				ref.ans[a.id()] = got
			}
		}
		// The same with every fault kind, so that caches of the dependencies are warm.
		for _, as := range spec.Acts {
			for i, a := range as {
				reset()
				usePlan(spec.Faults)
				if i%2 == 1 {
					usePlan(spec.Again)
				}
				solo(uint64(i), func() { a.perform(dir, spec.Files, spec.Docs) })
			}
		}
		return ref
	}).(*refT)
	if ref.class != "" {
		res.Class, res.Detail = ref.class, ref.detail
		return
	}
	reset()
	var tracks []string
	fail := func(class, format string, args ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(format, args...)
		}
	}
	var theirs []string
	round := func(name string, plan []fault, s simrt.Schedule, healthy bool) bool {
		usePlan(plan)
		type rec struct {
			act schemaAct
			got answer
		}
		recs := make([][]rec, len(spec.Acts))
		var threads []simrt.Thread
		for i, as := range spec.Acts {
			threads = append(threads, simrt.Thread{Name: fmt.Sprintf("%s%d", name, i), Run: func() {
				for j, a := range as {
					simrt.Record("act", fmt.Sprint(j), "")
					got, _ := a.perform(dir, spec.Files, spec.Docs)
					recs[i] = append(recs[i], rec{a, got})
				}
			}})
		}
		o := simrt.Run(s, stepLimit, threads...)
		if name == "load" {
			res.Out = o
		} else {
			res.Runs++
		}
		events := simrt.Events()
		hit := false
		for _, e := range events {
			if e.Kind == "fault" {
				res.Faults[e.Key]++
				hit = true
			}
			if e.Kind == "exchange" {
				res.Probes["http exchange: "+e.Data]++
			}
		}
		met := failuresMet(events)
		for i, rs := range recs {
			for j, r := range rs {
				tracks = append(tracks, r.got.key())
				want := ref.ans[r.act.id()]
				if hit && !want.Err {
					res.Probes[fmt.Sprintf("%s: load answers with an error: %v", name, r.got.Err)]++
				}
				switch {
				case r.got.Panic:
					fail("panic", "%s%d, action %d %s: %v", name, i, j, r.act.id(), r.got)
				case !r.got.Err && met[[2]int{i, j}] != "":
					fail("hidden-failure", "%s%d, action %d %s: no error, though %s", name, i, j, r.act.id(), met[[2]int{i, j}])
				case healthy && !r.got.same(want):
					fail("no-recovery", "%s%d, action %d %s, no fault any more: got %v, want %v", name, i, j, r.act.id(), r.got, want)
				case !healthy && !r.got.Err && !r.got.same(want):
					fail("wrong-schema", "%s%d, action %d %s: got %v, without faults it gives %v", name, i, j, r.act.id(), r.got, want)
				}
			}
		}
		if c, d := verdict(o); c != "" {
			res.Class, res.Detail = c, name+": "+d
			return false
		}
		mine, other := leftOpen(events)
		if len(mine) > 0 {
			fail("left-open", "%s: %s left open", name, strings.Join(mine, ", "))
		}
		theirs = append(theirs, other...)
		return true
	}
	if round("load", spec.Faults, sched, false) && (len(spec.Again) == 0 || round("again", spec.Again, simrt.Schedule{Seed: sched.Seed + 1, Mode: "seq"}, false)) {
		round("later", nil, simrt.Schedule{Seed: sched.Seed + 2, Mode: "seq"}, true)
	}
	if res.Class == "" && len(theirs) > 0 {
		res.Class, res.Detail, res.Known = "left-open", strings.Join(theirs, ", ")+" left open", "gojsonschema-body"
	}
	res.Faults["preemption"] += res.Out.Switches
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}

// failuresMet says, for each action (thread and number), which failure of a source it met itself and did
// not get over by reading the source again.
func failuresMet(events []simrt.Event) map[[2]int]string {
	met := map[[2]int]string{}
	act := map[int]int{}
	open := map[int]map[string]string{}
	for _, e := range events {
		switch e.Kind {
		case "act":
			n := 0
			fmt.Sscan(e.Key, &n)
			act[e.Thread], open[e.Thread] = n, map[string]string{}
		case "severe":
			if open[e.Thread] != nil {
				open[e.Thread][e.Key] = e.Data
			}
		case "open", "fine":
			delete(open[e.Thread], e.Key)
		default:
			continue
		}
		k := [2]int{e.Thread, act[e.Thread]}
		delete(met, k)
		for _, f := range keys(open[e.Thread]) {
			met[k] = fmt.Sprintf("%s: %s", f, open[e.Thread][f])
			break
		}
	}
	return met
}
