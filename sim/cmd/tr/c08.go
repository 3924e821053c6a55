package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c08Spec struct {
	Dir    string // where the files are, part of every key
	Files  []wl.File
	Docs   []string
	Acts   [][]schemaAct
	Faults []fault
}

var c08 = &harness.Check{
	ID:        "C08",
	Title:     "Loading cyclic references ends",
	Quick:     5500,
	Thorough:  60000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema", "transform (construction)", "golang.org/x/sync/singleflight", "gojsonschema", "net/http client", "files in a scratch directory", "race detector"},
	Stub:      []string{"network (http.DefaultTransport)", "goroutine scheduler", "clock"},
	Kinds:     []string{"cyclic-load", "preemption", "open-EIO", "read-EIO", "http-refused", "http-delay"},
	Assume:    []string{"a load that takes more than 3 million steps, 100 s or 3 GB never ends (the largest seen takes a few thousand steps)"},
	New:       func() any { return &c08Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		dir := dirName(r)
		g := wl.NewSGen(r)
		g.Cyclic = true
		g.InFile = simrt.Pick(r, 0.0, 0.0, 0.2, 0.5)
		g.Back = simrt.Pick(r, 0.1, 0.3, 1.0)
		if r.Chance(0.3) {
			g.HTTP = func(i int) string { return webHost + g.Name(i) }
		}
		g.Flat = r.Chance(0.7)
		g.Alike = r.Chance(0.3)
		s := &c08Spec{Dir: dir, Files: g.Graph(r.Range(1, 5))}
		if r.Chance(0.06) {
			n := r.Range(2, 30)
			s.Files = g.Chain(n, simrt.Pick(r, -1, 0, 0, n-1, r.Intn(n)))
		}
		s.Docs = []string{g.Document(), g.Document()}
		s.Acts = schemaActs(r, s.Files, len(s.Docs), simrt.Pick(r, 1, 2, 2, 3, 4))
		// Loading only: what a validator does with a schema that says all-of itself is its own affair.
		for _, as := range s.Acts {
			for i := range as {
				switch as[i].Do {
				case 3:
					as[i].Do = 0
				case 5:
					as[i].Do = 7
				}
			}
		}
		if r.Chance(0.2) {
			f := simrt.Pick(r, fault{Op: "open", Kind: "EIO"}, fault{Op: "read", Kind: "EIO"}, fault{Op: "http", Kind: "refused"}, fault{Op: "http", Kind: "delay"})
			f.From = r.Intn(8)
			f.To = f.From + simrt.Pick(r, 1, 3)
			s.Faults = []fault{f}
		}
		return s
	},
	Run: runC08,
}

// harmless says which files neither belong to a cycle of references nor lead to one, as far as
// their text tells: references within a file, over HTTP and of unknown kind are not trusted.
func harmless(files []wl.File) map[string]bool {
	out := map[string][]string{}
	bad := map[string]bool{}
	for _, f := range files {
		var v any
		if json.Unmarshal([]byte(f.Text), &v) != nil {
			continue
		}
		var visit func(v any)
		visit = func(v any) {
			switch v := v.(type) {
			case []any:
				for _, e := range v {
					visit(e)
				}
			case map[string]any:
				for k, e := range v {
					s, ok := e.(string)
					if k != "$ref" || !ok {
						visit(e)
						continue
					}
					to, _, _ := strings.Cut(s, "#")
					if to == "" || strings.HasPrefix(to, "http") {
						bad[f.Name] = true
					}
					out[f.Name] = append(out[f.Name], path.Join(path.Dir(f.Name), to))
				}
			}
		}
		visit(v)
	}
	good := map[string]bool{}
	for _, f := range files {
		seen := map[string]bool{}
		ok := true
		var walk func(n string)
		walk = func(n string) {
			if bad[n] {
				ok = false
			}
			for _, m := range out[n] {
				if m == n {
					ok = false
				}
				if !seen[m] {
					seen[m] = true
					walk(m)
				}
			}
		}
		walk(f.Name)
		// A cycle among the files reached: one of them reaches itself.
		for n := range seen {
			back := map[string]bool{}
			var w2 func(m string)
			w2 = func(m string) {
				for _, k := range out[m] {
					if !back[k] {
						back[k] = true
						w2(k)
					}
				}
			}
			w2(n)
			if back[n] {
				ok = false
			}
		}
		if seen[f.Name] {
			ok = false
		}
		good[f.Name] = ok
	}
	return good
}

func runC08(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c08Spec)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Files) == 0 || len(spec.Docs) == 0 {
		res.Skip = true
		return
	}
	dir := scratch(spec.Dir)
	defer cleanScratch()
	w := &web{files: map[string]string{}}
	for _, f := range spec.Files {
		if f.Name == "" || strings.Contains(f.Name, "..") {
			res.Skip = true
			return
		}
		writeFile(filepath.Join(dir, f.Name), f.Text)
		w.files["/"+f.Name] = f.Text
	}
	old := http.DefaultTransport
	http.DefaultTransport = w
	defer func() { http.DefaultTransport = old }()
	os.SimFS = fileFaults(dir)
	defer noFileFaults()
	good := harmless(spec.Files)
	fail := func(class, format string, args ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(format, args...)
		}
	}

	// What the harmless files give alone.
	type refT struct {
		class, detail string
		ans           map[string]answer
	}
	ref := memo(spec, func() any {
		ref := &refT{ans: map[string]answer{}}
		for _, as := range spec.Acts {
			for _, a := range as {
				if _, ok := ref.ans[a.id()]; ok {
					continue
				}
				for _, faults := range [][]fault{spec.Faults, nil} {
					usePlan(faults)
					reset()
					var got answer
					o := solo(uint64(len(ref.ans)), func() { got, _ = a.perform(dir, spec.Files, spec.Docs) })
					res.Runs++
					if c, d := verdict(o); c != "" {
						ref.class, ref.detail = c, fmt.Sprintf("alone, %s: %s", a.id(), d)
						return ref
					}
					ref.ans[a.id()] = got
				}
			}
		}
		return ref
	}).(*refT)
	if ref.class != "" {
		res.Class, res.Detail = ref.class, ref.detail
		res.State = harness.Hash(wl.J(spec))
		return
	}
	reset()
	var tracks []string
	round := func(name string, plan []fault, s simrt.Schedule) bool {
		usePlan(plan)
		type rec struct {
			act schemaAct
			got answer
		}
		recs := make([][]rec, len(spec.Acts))
		var threads []simrt.Thread
		for i, as := range spec.Acts {
			threads = append(threads, simrt.Thread{Name: fmt.Sprintf("%s%d", name, i), Run: func() {
				for _, a := range as {
					got, _ := a.perform(dir, spec.Files, spec.Docs)
					recs[i] = append(recs[i], rec{a, got})
				}
			}})
		}
		o := simrt.Run(s, stepLimit, threads...)
		if name == "load" {
			res.Out = o
		} else {
			res.Runs++
		}
		hit := false
		for _, e := range simrt.Events() {
			if e.Kind == "fault" {
				res.Faults[e.Key]++
				hit = true
			}
		}
		for i, rs := range recs {
			for j, r := range rs {
				tracks = append(tracks, r.got.key())
				want := ref.ans[r.act.id()]
				ok := good[spec.Files[r.act.File%len(spec.Files)].Name]
				if !ok {
					res.Faults["cyclic-load"]++
				}
				res.Probes[fmt.Sprintf("harmless %v, load answers with an error: %v", ok, r.got.Err)]++
				if r.got.Panic {
					fail("panic", "%s%d, action %d %s: %v", name, i, j, r.act.id(), r.got)
				}
				if ok && !r.got.same(want) && (!hit || !r.got.Err) {
					fail("answer", "%s%d, action %d %s: got %v, alone it gives %v", name, i, j, r.act.id(), r.got, want)
				}
			}
		}
		if c, d := verdict(o); c != "" {
			res.Class, res.Detail = c, name+": "+d
			return false
		}
		return true
	}
	if round("load", spec.Faults, sched) {
		round("later", nil, simrt.Schedule{Seed: sched.Seed + 2, Mode: "seq"})
	}
	res.Faults["preemption"] += res.Out.Switches
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}
