package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c01Spec struct {
	Schema string
	XML    bool
	Docs   []string
	Echo   []int   // further documents: what the transform makes of these
	Reuse  bool    // each thread hands over its documents in one buffer
	Calls  [][]int // documents each thread transforms, in order
	Own    []bool  // the thread builds its own transformer from the shared schema
	Share  bool    // threads pass the same byte slice
	NoVal  bool
}

var c01 = &harness.Check{
	ID:        "C01",
	Title:     "Transformer calls are independent",
	Quick:     6500,
	Thorough:  60000,
	Schedules: 5,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"transform", "jsonschema", "gojsonschema", "jsonparser", "jsonpath", "xmlquery", "bluemonday", "encoding/json", "sync, race detector"},
	Stub:      []string{"goroutine scheduler", "runtime random numbers (map order, select)", "sync.Pool contents", "clock (no reading taken)"},
	Kinds:     []string{"preemption", "thread-stalled-inside-call"},
	Assume:    []string{"interleavings are explored at statement granularity in transform and jsonschema and at lock operations elsewhere; weak-memory effects are seen only through the race detector"},
	New:       func() any { return &c01Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		g := wl.NewTGen(r)
		s := &c01Spec{Schema: wl.J(g.Schema()), XML: g.XML, Share: r.Chance(0.3), NoVal: r.Chance(0.5)}
		for i := r.Range(1, 4); i > 0; i-- {
			s.Docs = append(s.Docs, g.Doc())
		}
		s.Echo = echoes(r, len(s.Docs))
		s.Reuse = !s.Share && r.Chance(0.3)
		for i := simrt.Pick(r, 1, 2, 2, 2, 3, 4); i > 0; i-- {
			var c []int
			for j := r.Range(1, 4); j > 0; j-- {
				c = append(c, r.Intn(len(s.Docs)+len(s.Echo)))
			}
			s.Calls = append(s.Calls, c)
			s.Own = append(s.Own, r.Chance(0.15))
		}
		if r.Chance(0.006) && g.Long < 10_000 {
			for i := r.Intn(30); i > 0; i-- {
				s.Docs = append(s.Docs, g.Doc())
			}
			s.Calls[0] = wl.History(r, len(s.Docs)+len(s.Echo))
		}
		return s
	},
	Run: runC01,
}

// refMemo keeps the reference answers while the schedules of one workload are run.
var refMemo struct {
	spec any
	val  any
}

func memo(spec any, f func() any) any {
	if refMemo.spec != spec {
		refMemo.spec, refMemo.val = spec, f()
	}
	return refMemo.val
}

type c01Ref struct {
	docs []string
	ok   bool
	ans  []answer
	runs int
	race string
}

func runC01(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c01Spec)
	dir := scratch()
	defer cleanScratch()
	file := filepath.Join(dir, "s.json")
	writeFile(file, spec.Schema)

	load := func() (s *jsonschema.Schema, tr *transform.Transformer, err error) {
		if s, err = jsonschema.SchemaFromFile(file, ""); err == nil {
			tr, err = newTransformer(s, spec.XML)
		}
		return
	}
	ref := memo(spec, func() any {
		ref := &c01Ref{ok: true}
		ref.docs = withEchoes(file, spec.Schema, spec.XML, spec.Docs, spec.Echo)
		for i := range ref.docs {
			reset()
			var a answer
			o := solo(uint64(i)+sched.Seed%3, func() {
				_, tr, err := load()
				if err != nil {
					ref.ok = false
					return
				}
				a, _ = call(tr, []byte(ref.docs[i]), spec.NoVal)
			})
			if c, d := verdict(o); c == "race" {
				ref.race = d
			} else if c != "" {
				ref.ok = false
			}
			ref.runs++
			ref.ans = append(ref.ans, a)
			if !ref.ok {
				break
			}
		}
		return ref
	}).(*c01Ref)
	res.Probes = map[string]int{}
	res.Runs = ref.runs
	ref.runs = 0
	if ref.race != "" {
		res.Class, res.Detail = "race", "a call alone: "+ref.race
		return
	}
	if !ref.ok || len(spec.Docs) == 0 {
		res.Skip = true
		res.Probes["schema rejected"]++
		return
	}

	reset()
	var schema *jsonschema.Schema
	var shared *transform.Transformer
	solo(5, func() { schema, shared, _ = load() })
	shares := make([][]byte, len(ref.docs))
	for i, d := range ref.docs {
		shares[i] = []byte(d)
	}
	type rec struct {
		doc  int
		got  answer
		out  []byte
		in   []byte
		snap string
	}
	recs := make([][]rec, len(spec.Calls))
	var threads []simrt.Thread
	for i, docs := range spec.Calls {
		own := i < len(spec.Own) && spec.Own[i]
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			tr := shared
			if own {
				var err error
				if tr, err = newTransformer(schema, spec.XML); err != nil {
					panic("building a transformer from the shared schema failed: " + err.Error())
				}
			}
			var buf []byte
			defer func() {
				for k := range buf {
					buf[k] = '#'
				}
			}()
			for _, d := range docs {
				if d >= len(shares) {
					continue
				}
				in := shares[d]
				switch {
				case spec.Reuse:
					buf = append(buf[:0], in...)
					in = buf
				case !spec.Share:
					in = append([]byte(nil), in...)
				}
				a, out := call(tr, json.RawMessage(in), spec.NoVal)
				recs[i] = append(recs[i], rec{d, a, out, in, string(out)})
				if spec.Reuse {
					recs[i][len(recs[i])-1].in = append([]byte(nil), in...)
				}
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults = map[string]int{"preemption": res.Out.Switches}
	if res.Out.Switches > 2*len(threads) {
		res.Faults["thread-stalled-inside-call"] = 1
	}
	var tr []string
	for i, rs := range recs {
		for j, r := range rs {
			tr = append(tr, r.got.key())
			want := ref.ans[r.doc]
			switch {
			case want.Panic:
				res.Probes["reference panics"]++
			case want.Err:
				res.Probes["reference reports an error"]++
			default:
				res.Probes["reference returns a document"]++
			}
			if res.Class != "" {
				continue
			}
			if !r.got.same(want) {
				res.Class, res.Detail = "answer", fmt.Sprintf("caller %d, call %d, document %d: got %v, alone it gives %v", i, j, r.doc, r.got, want)
			} else if string(r.out) != r.snap {
				res.Class, res.Detail = "changed-later", fmt.Sprintf("caller %d, call %d: the returned document changed after the call, from %s to %s", i, j, r.snap, r.out)
			} else if string(r.in) != ref.docs[r.doc] {
				res.Class, res.Detail = "input-changed", fmt.Sprintf("caller %d, call %d: the input was overwritten: %s", i, j, r.in)
			}
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tr...)
	res.State = harness.Hash(wl.J(spec))
	return
}
