package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type schemaAct struct {
	File    int
	OneOf   string
	NoFlat  bool
	Do      int // 0 nothing more, 1 walk, 2 raw walk, 3 validate, 4 build a transformer, 5 validator alone, 6 SchemaTypes, 7 validator alone, not used
	Doc     int
	Walks   int
	Rel     bool // name the file in another way
	Wait    int  // simulated milliseconds before
	Expects int  `json:",omitempty"`
}

type c06Spec struct {
	Dir   string // where the files are, part of every key
	Files []wl.File
	Docs  []string
	Acts  [][]schemaAct
}

var c06 = &harness.Check{
	ID:        "C06",
	Title:     "Concurrent schema loads agree with sequential ones",
	Quick:     4500,
	Thorough:  50000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"jsonschema", "transform (construction)", "golang.org/x/sync/singleflight", "gojsonschema", "jsonparser", "encoding/json", "files in a scratch directory", "race detector"},
	Stub:      []string{"goroutine scheduler", "runtime random numbers"},
	Kinds:     []string{"preemption", "broken-file-or-reference"},
	Assume:    []string{"interleavings are explored at statement granularity in jsonschema, transform and singleflight and at lock operations elsewhere"},
	New:       func() any { return &c06Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		dir := dirName(r)
		g := wl.NewSGen(r)
		g.Broken = simrt.Pick(r, 0, 0, 0.1)
		g.Alike = r.Chance(0.4)
		g.Long = 0.1
		s := &c06Spec{Dir: dir, Files: g.Graph(r.Range(1, 5))}
		if r.Chance(0.03) {
			s.Files = g.Chain(r.Range(6, 20), -1)
		}
		for i := 0; i < 2; i++ {
			s.Docs = append(s.Docs, g.Document())
		}
		if r.Chance(0.02) {
			// The known finding: a reference that occurs twice, with another beside it that leads nowhere.
			s.Files = []wl.File{
				{Name: "f0.json", Text: `{"properties":{"a":{"$ref":"f2.json"},"b":{"$ref":"f1.json"}}}`},
				{Name: "f1.json", Text: `{"$ref":"f2.json","properties":{"c":{"$ref":"missing.json"}}}`},
				{Name: "f2.json", Text: `{}`},
			}
		}
		s.Acts = schemaActs(r, s.Files, len(s.Docs), simrt.Pick(r, 1, 2, 2, 3, 3, 4))
		return s
	},
	Run: runC06,
}

// stem is the name of a file as a one-of type.
func stem(f wl.File) string { return strings.Split(filepath.Base(f.Name), ".")[0] }

func schemaActs(r *simrt.Rand, fs []wl.File, docs, threads int) (out [][]schemaAct) {
	files := len(fs)
	oneOf := func() string {
		if r.Chance(0.5) {
			return ""
		}
		return stem(fs[r.Intn(files)])
	}
	hot := schemaAct{File: r.Intn(files), OneOf: oneOf(), NoFlat: r.Chance(0.4)}
	for i := 0; i < threads; i++ {
		var as []schemaAct
		for j := r.Range(1, 3); j > 0; j-- {
			a := schemaAct{File: r.Intn(files), OneOf: oneOf(), NoFlat: r.Chance(0.4)}
			if r.Chance(0.5) {
				a = hot
			}
			a.Do, a.Doc, a.Rel = r.Intn(7), r.Intn(docs), r.Chance(0.2)
			as = append(as, a)
		}
		out = append(out, as)
	}
	return
}

// perform runs one action and says what was seen.
func (a schemaAct) perform(dir string, files []wl.File, docs []string) (ans answer, s *jsonschema.Schema) {
	defer func() {
		if p := recover(); p != nil {
			ans = answer{Panic: true, Text: fmt.Sprint(p)}
		}
	}()
	bad := func(err error) answer { return answer{Err: true, Text: err.Error()} }
	name := filepath.Join(dir, files[a.File%len(files)].Name)
	if a.Rel {
		name = filepath.Dir(name) + "/../" + filepath.Base(filepath.Dir(name)) + "//" + filepath.Base(name)
	}
	if a.Do == 5 {
		v, err := jsonschema.NewValidator(name)
		if err != nil {
			return bad(err), nil
		}
		ok, err := v.Validate([]byte(docs[a.Doc%len(docs)]))
		return answer{Out: fmt.Sprint(ok, err != nil)}, nil
	}
	if a.Do == 7 {
		if _, err := jsonschema.NewValidator(name); err != nil {
			return bad(err), nil
		}
		return answer{Out: "validator"}, nil
	}
	if a.Do == 6 {
		x, y, z, err := jsonschema.SchemaTypes(name)
		if err != nil {
			return bad(err), nil
		}
		return answer{Out: fmt.Sprint(x, y, z)}, nil
	}
	var err error
	if a.NoFlat {
		s, err = jsonschema.SchemaFromFileNoFlatten(name, a.OneOf)
	} else {
		s, err = jsonschema.SchemaFromFile(name, a.OneOf)
	}
	if err != nil {
		return bad(err), nil
	}
	out := print(s)
	var lines []string
	switch a.Do {
	case 1:
		err = jsonschema.Walk(s, func(path string, i jsonschema.Instance) error {
			b, _ := json.Marshal(i)
			lines = append(lines, path+" "+string(b))
			return nil
		})
	case 2:
		err = jsonschema.WalkRaw(s, func(path string, raw json.RawMessage) error {
			lines = append(lines, path+" "+string(raw))
			return nil
		})
	case 3:
		ok, err := s.Validate([]byte(docs[a.Doc%len(docs)]))
		lines = append(lines, fmt.Sprint(ok, err))
	case 4:
		_, err = newTransformer(s, a.Doc == 1)
	}
	sort.Strings(lines)
	if err != nil {
		lines = []string{"failed"}
	}
	return answer{Out: out + "\n" + strings.Join(lines, "\n")}, s
}

func print(s *jsonschema.Schema) string {
	b, err := json.Marshal(s)
	if err != nil {
		return "cannot be marshalled: " + err.Error()
	}
	return string(b)
}

func (a schemaAct) id() string { return compact(a) }

func runC06(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c06Spec)
	dir := scratch(spec.Dir)
	defer cleanScratch()
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	if len(spec.Files) == 0 || len(spec.Docs) == 0 {
		res.Skip = true
		return
	}
	for _, f := range spec.Files {
		if f.Name == "" || strings.Contains(f.Name, "..") {
			res.Skip = true
			return
		}
		writeFile(filepath.Join(dir, f.Name), f.Text)
	}
	type refT struct {
		class, detail string
		ans           map[string]answer
	}
	ref := memo(spec, func() any {
		ref := &refT{ans: map[string]answer{}}
		for i, as := range spec.Acts {
			for _, a := range as {
				if _, ok := ref.ans[a.id()]; ok {
					continue
				}
				reset()
				var got answer
				o := solo(uint64(i), func() { got, _ = a.perform(dir, spec.Files, spec.Docs) })
				res.Runs++
				if c, d := verdict(o); c != "" {
					ref.class, ref.detail = c, fmt.Sprintf("alone, %s: %s", a.id(), d)
					return ref
				}
				ref.ans[a.id()] = got
			}
		}
		return ref
	}).(*refT)
	if ref.class != "" {
		res.Class, res.Detail = ref.class, ref.detail
		return
	}
	reset()
	type rec struct {
		act    schemaAct
		got    answer
		schema *jsonschema.Schema
		print  string
	}
	recs := make([][]rec, len(spec.Acts))
	var threads []simrt.Thread
	for i, as := range spec.Acts {
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			for _, a := range as {
				got, s := a.perform(dir, spec.Files, spec.Docs)
				r := rec{act: a, got: got, schema: s}
				if s != nil {
					r.print = print(s)
				}
				recs[i] = append(recs[i], r)
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	var tracks []string
	finished := !res.Out.Deadlock && !res.Out.Overrun
	var odd *rec
	for i, rs := range recs {
		for j, r := range rs {
			tracks = append(tracks, r.got.key())
			want := ref.ans[r.act.id()]
			if want.Err {
				res.Faults["broken-file-or-reference"]++
			}
			res.Probes[fmt.Sprintf("action %d, error %v", r.act.Do, want.Err)]++
			if res.Class != "" {
				continue
			}
			if !r.got.same(want) {
				odd = &r
				res.Class, res.Detail = "answer", fmt.Sprintf("caller %d, action %d %s: got %v, alone it gives %v", i, j, r.act.id(), r.got, want)
			} else if finished && r.schema != nil && print(r.schema) != r.print {
				res.Class, res.Detail = "changed-later", fmt.Sprintf("caller %d, action %d %s: the schema changed later from %s to %s", i, j, r.act.id(), r.print, print(r.schema))
			}
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	if odd != nil && res.Class == "answer" && odd.act.Do != 6 && besideRef(spec.Files) {
		// Which answer the dependency gives by itself depends on the order of maps.
		for i := uint64(1); i <= 3000 && res.Known == ""; i++ {
			reset()
			var got answer
			solo(i*7919, func() { got, _ = odd.act.perform(dir, spec.Files, spec.Docs) })
			if got.same(odd.got) {
				res.Known = "ref-siblings"
			}
		}
	}
	return
}

// besideRef says whether a file has something beside a reference.
func besideRef(files []wl.File) bool {
	var has func(v any) bool
	has = func(v any) bool {
		switch t := v.(type) {
		case map[string]any:
			if _, ok := t["$ref"].(string); ok && len(t) > 1 {
				return true
			}
			for _, k := range t {
				if has(k) {
					return true
				}
			}
		case []any:
			for _, k := range t {
				if has(k) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range files {
		var v any
		if json.Unmarshal([]byte(f.Text), &v) == nil && has(v) {
			return true
		}
	}
	return false
}
