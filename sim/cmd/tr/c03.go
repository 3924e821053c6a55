package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"time"

	"github.com/GannettDigital/gojsonschema"
	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c03Call struct {
	Doc   int
	NoVal bool
}

type c03Spec struct {
	Schema string
	XML    bool
	Real   bool // the shipped validator instead of the scripted one
	Docs   []string
	Calls  [][]c03Call
	Errors int   // kinds of the validator's errors
	Echo   []int // further documents: what the transform makes of these
	Plan   []int // verdict of the n-th validation of some document: 0 accept, 1 invalid, 2 error, 3 valid with error, 4 panic
	Delay  []int // simulated milliseconds of the n-th validation
}

var c03 = &harness.Check{
	ID:        "C03",
	Title:     "No unvalidated document is returned",
	Quick:     6500,
	Thorough:  60000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"transform", "jsonschema", "gojsonschema (in half of the cases)", "jsonparser", "jsonpath", "xmlquery"},
	Stub:      []string{"goroutine scheduler", "runtime random numbers", "the validator behind the Validator interface (in half of the cases: scripted verdicts, errors and delays)", "clock"},
	Kinds:     []string{"validator-invalid", "validator-error", "validator-true-and-error", "validator-panic", "validator-slow", "preemption"},
	Assume:    []string{"gojsonschema on an independently compiled copy of the schema says what the schema accepts"},
	New:       func() any { return &c03Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		g := wl.NewTGen(r)
		g.Bad = simrt.Pick(r, 0, 0, 0.1)
		sch := g.Schema()
		s := &c03Spec{XML: g.XML, Real: r.Chance(0.4)}
		if s.Real {
			restrict(r, sch)
		}
		s.Schema = wl.J(sch)
		for i := r.Range(1, 4); i > 0; i-- {
			s.Docs = append(s.Docs, g.Doc())
		}
		s.Errors = r.Intn(1000)
		s.Echo = echoes(r, len(s.Docs))
		for i := r.Range(1, 4); i > 0; i-- {
			var c []c03Call
			for j := r.Range(1, 3); j > 0; j-- {
				c = append(c, c03Call{r.Intn(len(s.Docs) + len(s.Echo)), r.Chance(0.15)})
			}
			s.Calls = append(s.Calls, c)
		}
		p := simrt.Pick(r, 0.2, 0.5)
		slow := simrt.Pick(r, 0, 0.3, 0.8)
		for i := 0; i < 12; i++ {
			v := 0
			if r.Chance(p) {
				v = simrt.Pick(r, 1, 1, 2, 2, 3, 3, 4)
			}
			d := 0
			if r.Chance(slow) {
				d = simrt.Pick(r, r.Range(1, 50), r.Range(1, 5000), r.Range(5000, 120_000), r.Range(1, 48)*3_600_000)
			}
			s.Plan, s.Delay = append(s.Plan, v), append(s.Delay, d)
		}
		if r.Chance(0.01) && g.Long < 10_000 {
			for i := r.Intn(20); i > 0; i-- {
				s.Docs = append(s.Docs, g.Doc())
			}
			var c []c03Call
			for _, d := range wl.History(r, len(s.Docs)+len(s.Echo)) {
				c = append(c, c03Call{d, r.Chance(0.05)})
			}
			s.Calls[0] = c
		}
		return s
	},
	Run: runC03,
}

// restrict adds constraints to the schema that some documents will not meet.
func restrict(r *simrt.Rand, m wl.M) {
	props, _ := m["properties"].(wl.M)
	for _, k := range keys(props) {
		p := props[k].(wl.M)
		switch p["type"] {
		case "string":
			if r.Chance(0.4) {
				p[simrt.Pick(r, "maxLength", "minLength")] = r.Range(3, 8)
			} else if r.Chance(0.3) {
				p["pattern"] = simrt.Pick(r, "^[a-z0-9]*$", "[02468]$", "o")
			}
		case "number", "integer":
			if r.Chance(0.4) {
				p[simrt.Pick(r, "minimum", "maximum")] = r.Intn(60)
			}
		case "object":
			if r.Chance(0.3) {
				p["required"] = []string{simrt.Pick(r, "s0", "id", "n0", "o1")}
			}
			restrict(r, p)
		case "array":
			if r.Chance(0.4) {
				p[simrt.Pick(r, "minItems", "maxItems")] = r.Range(1, 3)
			}
			if it, ok := p["items"].(wl.M); ok && it["type"] == "object" {
				restrict(r, it)
			}
		}
	}
	if len(props) > 0 && r.Chance(0.3) {
		m["required"] = []string{simrt.Pick(r, keys(props)...)}
	}
}

// scripted is the stand-in for a validator.
type scripted struct{ s *c03Spec }

func (v scripted) Validate(raw json.RawMessage) (bool, error) {
	doc := string(raw)
	n := simrt.Count("v:" + doc)
	k := int(harness.Hash(doc)%7) + n
	verdict, delay := 0, 0
	if len(v.s.Plan) > 0 {
		verdict = v.s.Plan[k%len(v.s.Plan)]
	}
	if len(v.s.Delay) > 0 {
		delay = v.s.Delay[k%len(v.s.Delay)]
	}
	if delay > 0 {
		simrt.Record("slow", doc, "")
		simrt.Sleep(time.Duration(delay) * time.Millisecond)
	}
	simrt.Yield(9)
	if doc != string(raw) {
		simrt.Record("changed", doc, "")
	}
	simrt.Record("verdict", doc, fmt.Sprint(verdict))
	switch verdict {
	case 1:
		return false, nil
	case 2:
		if k%5 == 0 {
			return false, simrt.BareError(v.s.Errors + k)
		}
		return false, simrt.OddError(v.s.Errors+k, "scripted validator error")
	case 3:
		return true, simrt.OddError(v.s.Errors+k, "scripted validator error with a positive verdict")
	case 4:
		panic("scripted validator panic")
	}
	return true, nil
}

type c03Ref struct {
	docs  []string
	ok    bool
	ans   []answer // without validation
	valid []bool   // by an independent validator
}

func runC03(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c03Spec)
	file := filepath.Join(scratch(), "s.json")
	defer cleanScratch()
	writeFile(file, spec.Schema)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	ref := memo(spec, func() any {
		ref := &c03Ref{ok: true}
		ref.docs = withEchoes(file, spec.Schema, spec.XML, spec.Docs, spec.Echo)
		for i, d := range ref.docs {
			a, built, o := eval(file, spec.Schema, spec.XML, d, true, uint64(i))
			if c, _ := verdict(o); c != "" || !built {
				ref.ok = false
				break
			}
			ref.ans = append(ref.ans, a)
			valid := false
			solo(uint64(i), func() {
				s, err := gojsonschema.NewSchema(gojsonschema.NewStringLoader(spec.Schema))
				if err != nil {
					return
				}
				r, err := s.Validate(gojsonschema.NewStringLoader(a.Out))
				valid = err == nil && r.Valid()
			})
			ref.valid = append(ref.valid, valid)
			if spec.Real {
				// Also fills the caches of the dependencies (types, templates) along the paths the run takes.
				eval(file, spec.Schema, spec.XML, d, false, uint64(i))
			}
			res.Runs += 2
		}
		return ref
	}).(*c03Ref)
	if !ref.ok || len(spec.Docs) == 0 {
		res.Skip = true
		return
	}
	reset()
	var tr *transform.Transformer
	solo(5, func() {
		s, err := jsonschema.SchemaFromFile(file, "")
		if err != nil {
			return
		}
		if !spec.Real {
			s.Validator = scripted{spec}
		}
		tr, _ = newTransformer(s, spec.XML)
	})
	if tr == nil {
		res.Skip = true
		return
	}
	type rec struct {
		call       c03Call
		got        answer
		begin, end int
	}
	recs := make([][]rec, len(spec.Calls))
	var threads []simrt.Thread
	for i, calls := range spec.Calls {
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			for _, c := range calls {
				if c.Doc >= len(ref.docs) {
					continue
				}
				r := rec{call: c, begin: simrt.Record("begin", "", "")}
				var out []byte
				r.got, out = call(tr, []byte(ref.docs[c.Doc]), c.NoVal)
				if (r.got.Err || r.got.Panic) && out != nil {
					r.got.Out = string(out)
				}
				r.end = simrt.Record("end", "", "")
				recs[i] = append(recs[i], r)
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	var history []simrt.Event
	for _, e := range simrt.Events() {
		switch e.Kind {
		case "verdict":
			history = append(history, e)
			res.Faults[[]string{"validator-accept", "validator-invalid", "validator-error", "validator-true-and-error", "validator-panic"}[int(e.Data[0]-'0')]]++
		case "slow":
			res.Faults["validator-slow"]++
		case "changed":
			res.Class, res.Detail = "input-changed", "the document changed while it was being validated: "+e.Key
		}
	}
	fail := func(class, f string, args ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(f, args...)
		}
	}
	var tracks []string
	for i, rs := range recs {
		for j, r := range rs {
			tracks = append(tracks, r.got.key())
			want := ref.ans[r.call.Doc]
			who := fmt.Sprintf("caller %d, call %d", i, j)
			good := !want.Err && !want.Panic
			returned := !r.got.Err && !r.got.Panic
			if !returned && r.got.Out != "" {
				fail("document-with-error", "%s: got an error together with the document %s", who, r.got.Out)
			}
			if r.call.NoVal || !good {
				if r.call.NoVal && !r.got.same(want) {
					fail("answer", "%s (without validation): got %v, alone it gives %v", who, r.got, want)
				}
				for _, e := range history {
					if e.Thread == i && e.Seq > r.begin && e.Seq < r.end && r.call.NoVal {
						fail("consulted", "%s: a transform without validation consulted the validator", who)
					}
				}
				if !good && returned {
					fail("unvalidated", "%s: got %v, the transform alone fails: %v", who, r.got, want)
				}
				continue
			}
			if returned && r.got.Out != want.Out {
				fail("answer", "%s: got %v, alone it gives %v", who, r.got, want)
			}
			if spec.Real {
				valid := ref.valid[r.call.Doc]
				res.Probes[fmt.Sprintf("real validator, valid: %v", valid)]++
				if returned && !valid {
					fail("unvalidated", "%s: got %s, which the schema rejects", who, r.got.Out)
				}
				if !returned && valid {
					fail("refused", "%s: got %v for a document the schema accepts: %s", who, r.got, want.Out)
				}
				continue
			}
			mine, any, accepted := 0, 0, false
			for _, e := range history {
				if e.Seq < r.begin || e.Seq > r.end || e.Key != want.Out {
					continue
				}
				any++
				if e.Thread == i {
					// One positive verdict does not make up for a negative one.
					accepted = (mine == 0 || accepted) && e.Data == "0"
					mine++
				}
			}
			if mine == 0 {
				for _, e := range history {
					if e.Seq > r.begin && e.Seq < r.end && e.Key == want.Out && e.Data == "0" {
						accepted = true
					}
				}
			}
			switch {
			case returned && any == 0:
				fail("unvalidated", "%s: got %s and the validator was not consulted on it during the call", who, r.got.Out)
			case returned && !accepted:
				fail("unvalidated", "%s: got %s, which the validator did not accept during the call", who, r.got.Out)
			case !returned && mine > 0 && accepted:
				fail("refused", "%s: got %v although the validator accepted %s", who, r.got, want.Out)
			case !returned && any == 0:
				fail("refused", "%s: got %v without asking the validator about %s", who, r.got, want.Out)
			}
			res.Probes[fmt.Sprintf("scripted validator, document returned: %v", returned)]++
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}
