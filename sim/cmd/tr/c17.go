package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type damagedDoc struct {
	Of   int    // the intact document it was made from
	Kind string // what was done to it
	Raw  []byte
}

type c17Spec struct {
	Schema  string
	XML     bool
	Docs    []string
	Damaged []damagedDoc
	Calls   [][]int // documents each thread transforms, in order; damaged ones are counted on
	NoVal   bool
}

var c17 = &harness.Check{
	ID:        "C17",
	Title:     "Damaged input is answered, never fatal",
	Quick:     12500,
	Thorough:  150000,
	Schedules: 3,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"transform", "jsonschema", "gojsonschema", "jsonparser", "jsonpath", "xmlquery", "bluemonday", "encoding/json", "race detector"},
	Stub:      []string{"goroutine scheduler", "runtime random numbers (map order)"},
	Kinds:     append([]string{"preemption"}, damageKinds...),
	Assume:    []string{"the schema and its transform section are intact"},
	New:       func() any { return &c17Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		g := wl.NewTGen(r)
		s := &c17Spec{Schema: wl.J(g.Schema()), XML: g.XML, NoVal: r.Chance(0.7)}
		for i := r.Range(1, 2); i > 0; i-- {
			s.Docs = append(s.Docs, g.Doc())
		}
		for i := r.Range(1, 5); i > 0; i-- {
			of := r.Intn(len(s.Docs))
			raw := []byte(s.Docs[of])
			var kinds []string
			for n := simrt.Pick(r, 1, 1, 1, 2, 3); n > 0; n-- {
				k := simrt.Pick(r, damageKinds...)
				raw = damage(r, raw, k, g.XML)
				kinds = append(kinds, k)
			}
			s.Damaged = append(s.Damaged, damagedDoc{of, strings.Join(kinds, "+"), raw})
		}
		n := len(s.Docs) + len(s.Damaged)
		for i := simrt.Pick(r, 1, 2, 2, 3); i > 0; i-- {
			var c []int
			for j := r.Range(2, 6); j > 0; j-- {
				c = append(c, r.Intn(n))
			}
			s.Calls = append(s.Calls, c)
		}
		if r.Chance(0.006) && g.Long < 10_000 {
			s.Calls[0] = wl.History(r, n)
		}
		return s
	},
	Run: runC17,
}

var damageKinds = []string{"truncated", "bit-flipped", "bytes-dropped", "bytes-duplicated", "bytes-replaced", "value-replaced", "value-dropped", "value-duplicated", "nested-deeper", "bad-utf8"}

func damage(r *simrt.Rand, in []byte, kind string, xml bool) []byte {
	out := append([]byte(nil), in...)
	if len(out) == 0 {
		return out
	}
	at := r.Intn(len(out))
	end := min(len(out), at+r.Range(1, 12))
	switch kind {
	case "truncated":
		return out[:at]
	case "bit-flipped":
		out[at] ^= 1 << r.Intn(8)
		return out
	case "bytes-dropped":
		return append(out[:at], in[end:]...)
	case "bytes-duplicated":
		return append(out[:end], in[at:]...)
	case "bytes-replaced":
		for i := at; i < end; i++ {
			out[i] = simrt.Pick(r, byte('"'), '{', '}', '[', ']', ',', ':', '0', ' ', '\\', 0, 'a', '<', '>', '/', '-')
		}
		return out
	case "bad-utf8":
		bad := simrt.Pick(r, "\xff", "\xc0\x80", "\xed\xa0\x80", "\\ud800", "\\u0000", "\x00", "\xef\xbb\xbf")
		return []byte(string(in[:at]) + bad + string(in[at:]))
	}
	if xml {
		// Whole elements.
		s := string(in)
		i := strings.IndexByte(s[at:], '<')
		if i < 0 {
			return out[:at]
		}
		i += at
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return out[:i]
		}
		j += i + 1
		switch kind {
		case "value-dropped":
			return []byte(s[:i] + s[j:])
		case "value-duplicated":
			return []byte(s[:j] + s[i:])
		case "nested-deeper":
			return []byte(s[:i] + strings.Repeat("<x>", r.Range(1, 40)) + s[i:])
		}
		return []byte(s[:i] + simrt.Pick(r, "<a/>", "text", "<![CDATA[x]]>", "<!-- c -->", "<?pi?>", "&amp;", "&bogus;", "<a b='c'>x</a>") + s[j:])
	}
	var v any
	if json.Unmarshal(in, &v) != nil {
		return out[:at]
	}
	// Choose a place in the value tree.
	type place struct {
		set func(any)
		val any
	}
	var places []place
	var visit func(v any, set func(any))
	visit = func(v any, set func(any)) {
		places = append(places, place{set, v})
		switch v := v.(type) {
		case map[string]any:
			for _, k := range keys(v) {
				visit(v[k], func(n any) { v[k] = n })
			}
		case []any:
			for i := range v {
				visit(v[i], func(n any) { v[i] = n })
			}
		}
	}
	visit(v, func(n any) { v = n })
	p := places[r.Intn(len(places))]
	q := places[r.Intn(len(places))]
	odd := func() any {
		return simrt.Pick[any](r, nil, true, 3, -1.5, 1e300, "", "x", "2020-01-01T00:00:00Z", []any{}, map[string]any{}, []any{nil}, []any{[]any{"a"}}, map[string]any{"a": "b"}, []any{1, "x", nil}, []any{map[string]any{}})
	}
	switch kind {
	case "value-replaced":
		p.set(odd())
	case "value-dropped":
		if m, ok := p.val.(map[string]any); ok && len(m) > 0 {
			delete(m, simrt.Pick(r, keys(m)...))
		} else if a, ok := p.val.([]any); ok && len(a) > 0 {
			p.set(a[:r.Intn(len(a))])
		} else {
			p.set(nil)
		}
	case "value-duplicated":
		b, _ := json.Marshal(q.val)
		var c any
		json.Unmarshal(b, &c)
		if a, ok := p.val.([]any); ok {
			p.set(append(a[:len(a):len(a)], c))
		} else {
			p.set(c)
		}
	case "nested-deeper":
		w := p.val
		for n := r.Range(1, 30); n > 0; n-- {
			if r.Chance(0.5) {
				w = []any{w}
			} else {
				w = map[string]any{simrt.Pick(r, "a", "id", "s0"): w}
			}
		}
		b, _ := json.Marshal(w)
		var c any
		json.Unmarshal(b, &c)
		p.set(c)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return out[:at]
	}
	return b
}

func runC17(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c17Spec)
	dir := scratch()
	defer cleanScratch()
	file := filepath.Join(dir, "s.json")
	writeFile(file, spec.Schema)
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	var docs [][]byte
	for _, d := range spec.Docs {
		docs = append(docs, []byte(d))
	}
	for _, d := range spec.Damaged {
		docs = append(docs, d.Raw)
	}
	res.State = harness.Hash(wl.J(spec))
	if len(docs) == 0 {
		res.Skip = true
		return
	}
	load := func() (s *jsonschema.Schema, tr *transform.Transformer, err error) {
		if s, err = jsonschema.SchemaFromFile(file, ""); err == nil {
			tr, err = newTransformer(s, spec.XML)
		}
		return
	}
	type refT struct {
		ok            bool
		class, detail string
		ans           []answer
	}
	what := func(i int) string {
		if i < len(spec.Docs) {
			return fmt.Sprintf("intact document %d", i)
		}
		return fmt.Sprintf("document %d (%s)", i, spec.Damaged[i-len(spec.Docs)].Kind)
	}
	ref := memo(spec, func() any {
		ref := &refT{ok: true}
		for i, d := range docs {
			reset()
			var a answer
			o := solo(uint64(i), func() {
				_, tr, err := load()
				if err != nil {
					ref.ok = false
					return
				}
				a, _ = call(tr, d, spec.NoVal)
			})
			res.Runs++
			if !ref.ok {
				break
			}
			c, detail := verdict(o)
			switch {
			case c != "":
			case a.Panic:
				c, detail = "panic", a.Text
			case !a.Err && !json.Valid([]byte(a.Out)):
				c, detail = "no-document", "the answer is no JSON: "+a.Out
			}
			if c != "" && ref.class == "" {
				ref.class, ref.detail = c, fmt.Sprintf("%s, alone: %s", what(i), detail)
			}
			ref.ans = append(ref.ans, a)
		}
		return ref
	}).(*refT)
	if !ref.ok {
		res.Skip = true
		res.Probes["schema rejected"]++
		return
	}
	if ref.class != "" {
		res.Class, res.Detail = ref.class, ref.detail
		return
	}
	reset()
	var shared *transform.Transformer
	solo(5, func() { _, shared, _ = load() })
	type rec struct {
		doc int
		got answer
	}
	recs := make([][]rec, len(spec.Calls))
	var threads []simrt.Thread
	for i, calls := range spec.Calls {
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			for _, d := range calls {
				d %= len(docs)
				a, _ := call(shared, append([]byte(nil), docs[d]...), spec.NoVal)
				recs[i] = append(recs[i], rec{d, a})
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	var tr []string
	check := func(who string, d int, got answer) {
		want := ref.ans[d]
		if d >= len(spec.Docs) {
			for _, k := range strings.Split(spec.Damaged[d-len(spec.Docs)].Kind, "+") {
				res.Faults[k]++
			}
			res.Probes[fmt.Sprintf("damaged document answered with an error: %v", got.Err)]++
		} else {
			res.Probes[fmt.Sprintf("intact document answered with an error: %v", got.Err)]++
		}
		switch {
		case res.Class != "":
		case got.Panic:
			res.Class, res.Detail = "panic", fmt.Sprintf("%s, %s: %v", who, what(d), got)
		case !got.same(want):
			res.Class, res.Detail = "answer", fmt.Sprintf("%s, %s: got %v, alone it gives %v", who, what(d), got, want)
		}
	}
	for i, rs := range recs {
		for j, r := range rs {
			tr = append(tr, r.got.key())
			check(fmt.Sprintf("caller %d, call %d", i, j), r.doc, r.got)
		}
	}
	// Afterwards the transformer is what it was.
	if !res.Out.Deadlock && !res.Out.Overrun {
		for d := range spec.Docs {
			var a answer
			solo(uint64(d), func() { a, _ = call(shared, []byte(spec.Docs[d]), spec.NoVal) })
			res.Runs++
			check("afterwards", d, a)
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tr...)
	return
}
