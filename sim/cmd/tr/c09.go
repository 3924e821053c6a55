package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type walkAct struct {
	Raw    bool
	FailAt int // the call at which the function fails, -1: never
	Error  int `json:",omitempty"` // kind of its error
	Slow   int // simulated milliseconds each call takes
	Inner  int // the call during which the function walks the schema itself, -1: never
	Schema int
	Reload bool // walk what a load returns at that moment
}

type c09Spec struct {
	Files   []wl.File
	Schemas []schemaAct // how the walked schemas are loaded
	Acts    [][]walkAct
}

var c09 = &harness.Check{
	ID:        "C09",
	Title:     "A walk visits every instance once, parents first",
	Quick:     6500,
	Thorough:  80000,
	Schedules: 3,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema (loading and walking)", "jsonparser", "encoding/json", "files in a scratch directory", "race detector"},
	Stub:      []string{"walk function", "goroutine scheduler", "clock", "runtime random numbers (map order)"},
	Kinds:     []string{"walk-function-error", "walk-function-slow", "walk-within-walk", "preemption"},
	Assume:    []string{"every instance of the schema has one type (apart from null), objects have properties and arrays items; property names are not empty and not repeated in one object"},
	New:       func() any { return &c09Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		g := wl.NewSGen(r)
		g.Odd = simrt.Pick(r, 0, 0, 0.3)
		g.Deep = r.Intn(3)
		g.Alike = r.Chance(0.3)
		g.Long = 0.3
		s := &c09Spec{Files: g.Graph(r.Range(1, 3))}
		for i := r.Range(1, 2); i > 0; i-- {
			s.Schemas = append(s.Schemas, schemaAct{File: r.Intn(len(s.Files)), OneOf: simrt.Pick(r, "", "f1", "f2", "f0", stem(s.Files[r.Intn(len(s.Files))])), NoFlat: r.Chance(0.3)})
		}
		bad := simrt.Pick(r, 0, 0.3, 0.8)
		for i := r.Range(1, 4); i > 0; i-- {
			var as []walkAct
			for j := r.Range(1, 4); j > 0; j-- {
				a := walkAct{Raw: r.Chance(0.5), FailAt: -1, Inner: -1, Schema: r.Intn(len(s.Schemas)), Reload: r.Chance(0.2)}
				if r.Chance(bad) {
					a.FailAt, a.Error = r.Intn(simrt.Pick(r, 1, 4, 12)), r.Intn(2*simrt.OddErrors)
				}
				if r.Chance(0.2) {
					a.Slow = simrt.Pick(r, r.Range(1, 50), r.Range(1, 50), r.Range(50, 600_000))
				}
				if r.Chance(0.15) {
					a.Inner = r.Intn(6)
				}
				as = append(as, a)
			}
			s.Acts = append(s.Acts, as)
		}
		return s
	},
	Run: runC09,
}

// node is an instance of the reference tree, made with encoding/json alone.
type node struct {
	path, raw, inst string
	kids            []*node
}

// tree returns the instances a walk has to visit; ok is false outside the property's domain.
func tree(props map[string]json.RawMessage, items json.RawMessage, path string) (out []*node, ok bool) {
	ok = true
	add := func(path string, raw json.RawMessage) {
		var m struct {
			Type       any
			Properties map[string]json.RawMessage
			Items      json.RawMessage
		}
		var exact map[string]json.RawMessage
		if json.Unmarshal(raw, &exact) != nil || json.Unmarshal(raw, &m) != nil {
			ok = false
			return
		}
		var inst jsonschema.Instance
		if err := json.Unmarshal(raw, &inst); err != nil {
			ok = false
			return
		}
		b, _ := json.Marshal(inst)
		n := &node{path: path, raw: jsonText(raw), inst: string(b)}
		var types []string
		switch t := m.Type.(type) {
		case string:
			types = []string{t}
		case []any:
			for _, x := range t {
				if s, _ := x.(string); s != "null" {
					types = append(types, s)
				}
			}
		}
		if len(types) != 1 {
			ok = false
			return
		}
		switch types[0] {
		case "object":
			if _, has := exact["properties"]; !has || m.Properties == nil {
				ok = false
				return
			}
			kids, o := tree(m.Properties, nil, path)
			n.kids, ok = kids, ok && o
		case "array":
			if _, has := exact["items"]; !has || len(m.Items) == 0 || m.Items[0] != '{' {
				ok = false
				return
			}
			kids, o := tree(nil, m.Items, path)
			n.kids, ok = kids, ok && o
		}
		out = append(out, n)
	}
	for _, k := range keys(props) {
		if k == "" {
			return nil, false
		}
		add(path+"."+k, props[k])
	}
	if items != nil {
		add(path+"[*]", items)
	}
	return
}

func jsonText(raw []byte) string {
	var v any
	d := json.NewDecoder(strings.NewReader(string(raw)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return "?" + string(raw)
	}
	return compact(v)
}

type walkCall struct{ path, content string }

// judge compares the calls of one walk with the tree.
func judge(nodes []*node, calls []walkCall, raw bool, failAt int, failure, err error) string {
	open := append([]*node(nil), nodes...)
	total := 0
	var count func(ns []*node)
	count = func(ns []*node) {
		for _, n := range ns {
			total++
			count(n.kids)
		}
	}
	count(nodes)
	for i, c := range calls {
		found := -1
		for j, n := range open {
			if n.path == c.path && (raw && n.raw == c.content || !raw && n.inst == c.content) {
				found = j
				break
			}
		}
		if found < 0 {
			return fmt.Sprintf("call %d, for %s with %s, is for no instance that is still to be visited and whose parent was", i, c.path, c.content)
		}
		n := open[found]
		open = append(append([]*node(nil), open[:found]...), open[found+1:]...)
		open = append(open, n.kids...)
	}
	if failAt >= 0 && failAt < total {
		switch {
		case len(calls) != failAt+1:
			return fmt.Sprintf("the function failed at call %d, %d calls were made", failAt, len(calls))
		case err == nil:
			return fmt.Sprintf("the function failed at call %d, the walk reports success", failAt)
		case !strings.Contains(err.Error(), failure.Error()):
			return fmt.Sprintf("the function failed at call %d, the error %q does not carry its error", failAt, err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the walk reports %q", err)
	}
	if len(open) > 0 {
		return fmt.Sprintf("%d instances were not visited, one is %s", total-len(calls), open[0].path)
	}
	return ""
}

func walkError(kind int) error {
	if kind >= simrt.OddErrors {
		return simrt.BareError(kind)
	}
	return simrt.OddError(kind, "<walk function> fails")
}

func runC09(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c09Spec)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Files) == 0 || len(spec.Schemas) == 0 {
		res.Skip = true
		return
	}
	dir := scratch()
	defer cleanScratch()
	for _, f := range spec.Files {
		if f.Name == "" || strings.Contains(f.Name, "..") {
			res.Skip = true
			return
		}
		writeFile(filepath.Join(dir, f.Name), f.Text)
	}
	reset()
	load := func(a schemaAct) (*jsonschema.Schema, error) {
		name := filepath.Join(dir, spec.Files[a.File%len(spec.Files)].Name)
		if a.NoFlat {
			return jsonschema.SchemaFromFileNoFlatten(name, a.OneOf)
		}
		return jsonschema.SchemaFromFile(name, a.OneOf)
	}
	// Once in advance, so that what the dependencies cache is there in every process and the maps of
	// the schema get the same seeds.
	memo(spec, func() any {
		solo(0, func() {
			for _, a := range spec.Schemas {
				load(a)
			}
		})
		return nil
	})
	reset()
	var schemas []*jsonschema.Schema
	var trees [][]*node
	for i, a := range spec.Schemas {
		var s *jsonschema.Schema
		var err error
		o := solo(uint64(i), func() { s, err = load(a) })
		if c, _ := verdict(o); c != "" || err != nil {
			res.Skip = true
			res.Probes["schema does not load"]++
			return
		}
		t, ok := tree(s.Properties, s.Items, "$")
		if !ok {
			res.Skip = true
			res.Probes["schema outside the domain"]++
			return
		}
		schemas, trees = append(schemas, s), append(trees, t)
	}
	prints := make([]string, len(schemas))
	for i, s := range schemas {
		prints[i] = print(s)
	}

	type rec struct {
		act   walkAct
		calls []walkCall
		err   error
		inner bool
	}
	recs := make([][]*rec, len(spec.Acts))
	var threads []simrt.Thread
	for i, as := range spec.Acts {
		var walk func(a walkAct, inner bool)
		walk = func(a walkAct, inner bool) {
			r := &rec{act: a, inner: inner}
			recs[i] = append(recs[i], r)
			k := a.Schema % len(schemas)
			s := schemas[k]
			if a.Reload {
				if l, err := load(spec.Schemas[k]); err == nil {
					s = l
				}
			}
			visit := func(path, content string) error {
				n := len(r.calls)
				r.calls = append(r.calls, walkCall{path, content})
				simrt.Yield(12)
				if a.Slow > 0 {
					simrt.Sleep(time.Duration(a.Slow) * time.Millisecond)
				}
				if n == a.Inner && !inner {
					b := a
					b.Raw, b.FailAt, b.Inner, b.Slow = !a.Raw, -1, -1, 0
					walk(b, true)
				}
				if n == a.FailAt {
					return walkError(a.Error)
				}
				return nil
			}
			if a.Raw {
				r.err = jsonschema.WalkRaw(s, func(path string, raw json.RawMessage) error { return visit(path, jsonText(raw)) })
			} else {
				r.err = jsonschema.Walk(s, func(path string, i jsonschema.Instance) error {
					b, err := json.Marshal(i)
					if err != nil {
						b = []byte(err.Error())
					}
					return visit(path, string(b))
				})
			}
		}
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("walker%d", i), Run: func() {
			for _, a := range as {
				walk(a, false)
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	var tracks []string
	for i, rs := range recs {
		for j, r := range rs {
			for _, c := range r.calls {
				tracks = append(tracks, c.path, c.content)
			}
			if r.inner {
				res.Faults["walk-within-walk"]++
			}
			if r.act.Slow > 0 {
				res.Faults["walk-function-slow"] += len(r.calls)
			}
			if r.act.FailAt >= 0 && len(r.calls) > r.act.FailAt {
				res.Faults["walk-function-error"]++
				res.Probes[fmt.Sprintf("fails below the top level: %v", strings.ContainsAny(r.calls[r.act.FailAt].path[min(2, len(r.calls[r.act.FailAt].path)):], ".["))]++
			}
			if res.Class != "" || res.Out.Deadlock || res.Out.Overrun {
				continue
			}
			if d := judge(trees[r.act.Schema%len(schemas)], r.calls, r.act.Raw, r.act.FailAt, walkError(r.act.Error), r.err); d != "" {
				res.Class, res.Detail = "walk", fmt.Sprintf("walker %d, walk %d (raw %v): %s", i, j, r.act.Raw, d)
			}
		}
	}
	for i, s := range schemas {
		if res.Class == "" && print(s) != prints[i] {
			res.Class, res.Detail = "changed", "a walk changed the schema"
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}
