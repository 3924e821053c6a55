package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/gojsonschema"
	"github.com/GannettDigital/jstransform/jsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type validateAct struct {
	How  int // 0 the shared validator, 1 the shared schema, 2 a validator of its own, 3 a schema loaded now
	File int
	Doc  int
	Wait int // simulated milliseconds before
}

type c10Spec struct {
	Dir   string // where the files are, part of every key
	Files []wl.File
	Docs  []string
	Acts  [][]validateAct
}

var c10 = &harness.Check{
	ID:        "C10",
	Title:     "Validation is repeatable",
	Quick:     4750,
	Thorough:  60000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema", "gojsonschema", "encoding/json", "files in a scratch directory", "race detector"},
	Stub:      []string{"goroutine scheduler", "clock", "runtime random numbers (map order)"},
	Kinds:     []string{"invalid-document", "damaged-document", "preemption"},
	Assume:    []string{"gojsonschema used directly on the same file is the independently loaded copy"},
	New:       func() any { return &c10Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		dir := dirName(r)
		g := wl.NewSGen(r)
		g.Rules = simrt.Pick(r, 0.2, 0.5, 0.9)
		g.Flat = r.Chance(0.7)
		g.Alike = r.Chance(0.3)
		g.Long = 0.15
		s := &c10Spec{Dir: dir, Files: g.Graph(r.Range(1, 3))}
		for i := r.Range(2, 5); i > 0; i-- {
			d := g.Document()
			switch r.Intn(12) {
			case 0:
				d = d[:r.Intn(len(d)+1)]
			case 1:
				d = simrt.Pick(r, "", "null", "[]", "[1,2,{\"a\":\"b\"}]", "12", "\"a\"", "{} x", "{\"a\":1,\"a\":\"x\"}")
			}
			s.Docs = append(s.Docs, d)
		}
		wait := simrt.Pick(r, 0, 0, 0.4)
		how := simrt.Pick(r, 2, 4, 4)
		for i := r.Range(1, 4); i > 0; i-- {
			var as []validateAct
			for j := r.Range(1, 5); j > 0; j-- {
				a := validateAct{How: r.Intn(how), Doc: r.Intn(len(s.Docs))}
				if r.Chance(0.3) {
					a.File = r.Intn(len(s.Files))
				}
				if r.Chance(wait) {
					a.Wait = simrt.Pick(r, r.Range(1, 20), r.Range(1, 20), r.Range(20, 3_600_000))
				}
				as = append(as, a)
			}
			s.Acts = append(s.Acts, as)
		}
		if r.Chance(0.01) {
			for i := r.Intn(20); i > 0; i-- {
				s.Docs = append(s.Docs, g.Document())
			}
			for i, d := range wl.History(r, len(s.Docs)) {
				a := s.Acts[0][i%len(s.Acts[0])]
				a.Doc, a.Wait = d, 0
				s.Acts[0] = append(s.Acts[0], a)
			}
		}
		return s
	},
	Run: runC10,
}

type validator interface {
	Validate(raw []byte) (bool, error)
}

type schemaValidator struct{ s *jsonschema.Schema }

func (v schemaValidator) Validate(raw []byte) (bool, error) { return v.s.Validate(raw) }

type plainValidator struct {
	f func([]byte) (bool, error)
}

func (v plainValidator) Validate(raw []byte) (bool, error) { return v.f(raw) }

// opened returns a validator for the file, through the validator or through the schema.
func opened(name string, schema bool) (validator, error) {
	if schema {
		s, err := jsonschema.SchemaFromFile(name, "")
		if err != nil {
			return nil, err
		}
		return schemaValidator{s}, nil
	}
	v, err := jsonschema.NewValidator(name)
	if err != nil {
		return nil, err
	}
	return plainValidator{func(b []byte) (bool, error) { return v.Validate(b) }}, nil
}

func validate(v validator, doc string) (a answer) {
	defer func() {
		if p := recover(); p != nil {
			a = answer{Panic: true, Text: fmt.Sprint(p)}
		}
	}()
	in := []byte(doc)
	ok, err := v.Validate(in)
	if err != nil {
		a.Err, a.Text = true, err.Error()
	}
	a.Out = fmt.Sprint(ok)
	if string(in) != doc {
		a.Out = "the document was changed to " + string(in)
	}
	return
}

// loadsSteadily tells whether gojsonschema itself makes up its mind about a schema: with a rule it
// need not follow, or with a rule that is not there, it loads or not depending on map order. Such
// a schema has no verdict to compare with.
func loadsSteadily(name string) bool {
	loaded := 0
	for i := range 40 {
		solo(uint64(100+i), func() {
			if _, err := gojsonschema.NewSchema(gojsonschema.NewReferenceLoader("file://" + name)); err == nil {
				loaded++
			}
		})
		if i == 7 && loaded == 8 {
			return true
		}
	}
	return loaded == 0 || loaded == 40
}

func runC10(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c10Spec)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Files) == 0 || len(spec.Docs) == 0 {
		res.Skip = true
		return
	}
	dir := scratch(spec.Dir)
	defer cleanScratch()
	var names []string
	for _, f := range spec.Files {
		if f.Name == "" || strings.Contains(f.Name, "..") {
			res.Skip = true
			return
		}
		names = append(names, filepath.Join(dir, f.Name))
		writeFile(names[len(names)-1], f.Text)
	}
	type refT struct {
		ok       bool
		panics   bool
		ans      map[string]answer
		bySchema []bool
	}
	// What each document gives alone with a validator loaded for it, and the verdict of a copy
	// loaded without the repository.
	ref := memo(spec, func() any {
		ref := &refT{ok: true, ans: map[string]answer{}}
		for _, n := range names {
			if !loadsSteadily(n) {
				ref.ok = false
				return ref
			}
		}
		for round := uint64(0); round < 2; round++ {
			ref.bySchema = nil
			for i, n := range names {
				var e1, e2 error
				o := solo(round, func() {
					reset()
					_, e1 = opened(n, false)
					reset()
					_, e2 = opened(n, true)
				})
				if c, d := verdict(o); c != "" && res.Class == "" {
					res.Class, res.Detail = c, "loading alone: "+d
				}
				if e1 != nil {
					ref.ok = false
					return ref
				}
				ref.bySchema = append(ref.bySchema, e2 == nil)
				for j, d := range spec.Docs {
					o := solo(round, func() {
						reset()
						v, err := opened(n, false)
						if err != nil {
							panic(err)
						}
						a := validate(v, d)
						key := fmt.Sprint(i, " ", j)
						if old, seen := ref.ans[key]; seen && (old.Text != a.Text || !old.same(a)) && res.Class == "" {
							res.Class, res.Detail = "verdict", fmt.Sprintf("document %d alone, twice: %v %s, then %v %s", j, old, old.Out, a, a.Out)
						}
						ref.ans[key] = a
						if a.Panic {
							ref.panics = true
							return
						}
						direct := false
						if s, err := gojsonschema.NewSchema(gojsonschema.NewReferenceLoader("file://" + n)); err == nil {
							if r, err := s.Validate(gojsonschema.NewBytesLoader([]byte(d))); err == nil {
								direct = r.Valid()
							}
						}
						if res.Class == "" && (direct != (a.Out == "true" && !a.Err) || direct == a.Err) {
							res.Class, res.Detail = "verdict", fmt.Sprintf("document %d: got %v %s, a separately loaded schema says valid: %v", j, a, a.Out, direct)
						}
					})
					if c, d := verdict(o); c != "" && res.Class == "" {
						res.Class, res.Detail = c, fmt.Sprintf("document %d alone: %s", j, d)
					}
					res.Runs++
				}
			}
		}
		return ref
	}).(*refT)
	res.State = harness.Hash(wl.J(spec))
	if ref.panics {
		res.Probes["validation panics"]++
	}
	if res.Class != "" {
		return
	}
	if !ref.ok || ref.panics {
		res.Skip = true
		res.Probes["validator does not load"]++
		return
	}
	reset()
	var shared [2][]validator
	o := solo(7, func() {
		for i, n := range names {
			v, _ := opened(n, false)
			shared[0] = append(shared[0], v)
			var w validator
			if ref.bySchema[i] {
				w, _ = opened(n, true)
			}
			shared[1] = append(shared[1], w)
		}
	})
	if c, d := verdict(o); c != "" {
		res.Class, res.Detail = c, "loading alone: "+d
		return
	}
	type rec struct {
		act  validateAct
		file int
		got  answer
	}
	recs := make([][]rec, len(spec.Acts))
	var threads []simrt.Thread
	for i, as := range spec.Acts {
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			for _, a := range as {
				if a.Wait > 0 {
					simrt.Sleep(time.Duration(a.Wait) * time.Millisecond)
				}
				f := a.File % len(names)
				how := a.How
				if !ref.bySchema[f] {
					how &^= 1
				}
				var v validator
				switch how {
				case 0, 1:
					v = shared[how][f]
				default:
					var err error
					if v, err = opened(names[f], how == 3); err != nil {
						recs[i] = append(recs[i], rec{a, f, answer{Err: true, Text: "does not load: " + err.Error()}})
						continue
					}
				}
				recs[i] = append(recs[i], rec{a, f, validate(v, spec.Docs[a.Doc%len(spec.Docs)])})
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	var tracks []string
	for i, rs := range recs {
		for j, r := range rs {
			tracks = append(tracks, r.got.key(), r.got.Text)
			d := r.act.Doc % len(spec.Docs)
			want := ref.ans[fmt.Sprint(r.file, " ", d)]
			switch {
			case strings.HasPrefix(want.Text, "invalid schema"):
				res.Faults["invalid-document"]++
				res.Probes[fmt.Sprintf("%d complaint(s)", min(9, 1+strings.Count(want.Text, ": ")))]++
			case want.Err:
				res.Faults["damaged-document"]++
			}
			res.Probes[fmt.Sprintf("how %d valid %v", r.act.How, want.Out)]++
			if res.Class == "" && (!r.got.same(want) || r.got.Text != want.Text) {
				res.Class, res.Detail = "verdict", fmt.Sprintf("caller %d, call %d (%s): got %s %v, alone it gives %s %v", i, j, compact(r.act), r.got.Out, r.got, want.Out, want)
			}
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tracks...)
	return
}
