package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c02Spec struct {
	Schema string
	XML    bool
	Doc    string
	Orders []int // seeds of evaluation orders, each with a freshly built transformer
	Shuf   []int // seeds of property orders in the schema file
	Drop   []string
	NoVal  bool
}

var c02 = &harness.Check{
	ID:         "C02",
	Title:      "Output does not depend on evaluation order",
	Quick:      11000,
	Thorough:   120000,
	Schedules:  1,
	Sequential: true,
	Rule:       "a case counts when its workload (schema, document, evaluation orders, dropped properties) was not seen before",
	Real:       []string{"transform", "jsonschema", "gojsonschema", "jsonparser", "jsonpath", "xmlquery", "bluemonday", "encoding/json"},
	Stub:       []string{"runtime random numbers (map order)", "order of properties in the schema file"},
	Kinds:      []string{"evaluation-order", "schema-order", "property-left-out"},
	Assume:     []string{"evaluation orders are sampled: every permutation of up to eight children is reachable, not every one is tried", "schemas with the current-time operation are left to C04"},
	New:        func() any { return &c02Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		g := wl.NewTGen(r)
		sch := g.Schema()
		s := &c02Spec{Schema: wl.J(sch), XML: g.XML, Doc: g.Doc(), NoVal: r.Chance(0.6)}
		for i := r.Range(3, 8); i > 0; i-- {
			s.Orders = append(s.Orders, r.Intn(1<<30))
		}
		for i := r.Intn(3); i > 0; i-- {
			s.Shuf = append(s.Shuf, r.Intn(1<<30))
		}
		ps := keys(sch["properties"].(wl.M))
		for i := r.Intn(3); i > 0 && len(ps) > 1; i-- {
			s.Drop = append(s.Drop, ps[r.Intn(len(ps))])
		}
		return s
	},
	Run: runC02,
}

// shuffled renders a JSON value with the keys of its objects in a seeded order.
func shuffled(r *simrt.Rand, v any) string {
	switch x := v.(type) {
	case map[string]any:
		ks := keys(x)
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		var parts []string
		for _, k := range ks {
			parts = append(parts, compact(k)+":"+shuffled(r, x[k]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case []any:
		var parts []string
		for _, w := range x {
			parts = append(parts, shuffled(r, w))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return compact(v)
}

// eval loads the schema text in a fresh state and transforms one document.
func eval(file, schema string, xml bool, doc string, noVal bool, seed uint64) (a answer, built bool, o simrt.Outcome) {
	writeFile(file, schema)
	reset()
	o = solo(seed, func() {
		s, err := jsonschema.SchemaFromFile(file, "")
		if err != nil {
			return
		}
		tr, err := newTransformer(s, xml)
		if err != nil {
			return
		}
		built = true
		a, _ = call(tr, []byte(doc), noVal)
	})
	return
}

func runC02(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c02Spec)
	file := filepath.Join(scratch(), "s.json")
	defer cleanScratch()
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	var tree map[string]any
	if json.Unmarshal([]byte(spec.Schema), &tree) != nil || len(spec.Orders) == 0 {
		res.Skip = true
		return
	}
	check := func(a answer, o simrt.Outcome, what string, want answer) {
		if res.Class != "" {
			return
		}
		if c, d := verdict(o); c != "" {
			res.Class, res.Detail = c, what+": "+d
		} else if !a.same(want) {
			res.Class, res.Detail = "order", fmt.Sprintf("%s: %v, otherwise %v", what, a, want)
		}
	}
	var first answer
	var firstBuilt bool
	for i, seed := range spec.Orders {
		a, built, o := eval(file, spec.Schema, spec.XML, spec.Doc, spec.NoVal, uint64(seed))
		res.Out = o
		res.Runs++
		if i == 0 {
			first, firstBuilt = a, built
			if !built {
				res.Probes["schema rejected"]++
			}
		} else {
			res.Faults["evaluation-order"]++
		}
		if built != firstBuilt {
			res.Class, res.Detail = "order", fmt.Sprintf("evaluation order %d: schema accepted: %v, otherwise %v", seed, built, firstBuilt)
		}
		check(a, o, fmt.Sprintf("evaluation order %d", seed), first)
	}
	if first.Err {
		res.Probes["answer is an error"]++
	} else if firstBuilt {
		res.Probes["answer is a document"]++
	}
	for _, seed := range spec.Shuf {
		a, built, o := eval(file, shuffled(simrt.NewRand(uint64(seed)), tree), spec.XML, spec.Doc, spec.NoVal, uint64(seed))
		res.Runs++
		res.Faults["schema-order"]++
		if built != firstBuilt && res.Class == "" {
			res.Class, res.Detail = "schema-order", fmt.Sprintf("property order %d: schema accepted: %v, otherwise %v", seed, built, firstBuilt)
		}
		check(a, o, fmt.Sprintf("property order %d in the schema file", seed), first)
	}
	for i, p := range spec.Drop {
		props, _ := tree["properties"].(map[string]any)
		if _, ok := props[p]; !ok || len(props) < 2 {
			continue
		}
		whole, ok1, _ := eval(file, spec.Schema, spec.XML, spec.Doc, true, uint64(i))
		less := map[string]any{}
		for k, w := range tree {
			less[k] = w
		}
		delete(less, "required")
		lp := map[string]any{}
		for k, w := range props {
			if k != p {
				lp[k] = w
			}
		}
		less["properties"] = lp
		part, ok2, o := eval(file, compact(less), spec.XML, spec.Doc, true, uint64(i))
		res.Runs += 2
		res.Faults["property-left-out"]++
		if !ok1 || !ok2 || whole.Err || part.Err || whole.Panic || part.Panic {
			continue
		}
		if c, d := verdict(o); c != "" && res.Class == "" {
			res.Class, res.Detail = c, d
		}
		w, q := object(whole.Out), object(part.Out)
		delete(w, p)
		if compact(w) != compact(q) && res.Class == "" {
			res.Class, res.Detail = "coupled", fmt.Sprintf("with property %q in the schema the others are %s, without it %s", p, compact(w), compact(q))
		}
		res.Probes["property left out, both documents"]++
	}
	res.State = harness.Hash(wl.J(spec))
	res.Trace = harness.Hash(first.key(), res.Class)
	return
}

func object(s string) map[string]any {
	m := map[string]any{}
	json.Unmarshal([]byte(s), &m)
	if m == nil {
		m = map[string]any{}
	}
	return m
}
