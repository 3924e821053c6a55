package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c04Field struct {
	Where  int      // 0 top, 1 in object o, 2 in the items of array a
	Format string   //
	Miss   bool     // the path is not in the document
	First  bool     // an instruction before it whose path is not in the document
	Last   bool     // method last
	Then   string   // "" or the case to change to afterwards
	Typ    string   // path used: "s" or "n"
	Method string   // "", "first", "last"
	Extra  []string // further layouts of instructions that are not reached
}

type c04Spec struct {
	XML    bool
	Fields []c04Field
	Items  int
	Calls  []int // number of calls per thread
	NoVal  bool
	Zone   int // seconds east
	Start  int64
	Steps  []int64
}

var c04 = &harness.Check{
	ID:        "C04",
	Title:     "The current-time operation reads the clock of the call",
	Quick:     6250,
	Thorough:  60000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      []string{"transform", "jsonschema", "gojsonschema", "jsonparser", "jsonpath", "xmlquery", "time formatting"},
	Stub:      []string{"wall clock (scripted readings)", "local time zone (fixed offset)", "goroutine scheduler", "runtime random numbers"},
	Kinds:     []string{"clock-jump-back", "clock-jump-forward", "clock-stands-still", "preemption"},
	Assume:    []string{"readings are taken with time.Now; a field must show one of the readings taken during its call"},
	New:       func() any { return &c04Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c04Spec{XML: r.Chance(0.25), Items: r.Range(1, 3), NoVal: r.Chance(0.5)}
		layouts := []string{"RFC3339", time.RFC3339, time.RFC3339Nano, time.RFC1123Z, time.Kitchen, "2006-01-02 15:04:05.000000000 -0700 MST", "15:04:05.000000", time.UnixDate, time.StampMicro, "02/01/06 03:04:05.000PM", "2006", "Monday", "x", "2006-01-02T15:04:05.999999999Z07:00"}
		for i := r.Range(1, 4); i > 0; i-- {
			f := c04Field{Where: simrt.Pick(r, 0, 0, 0, 1, 2), Format: simrt.Pick(r, layouts...), Miss: r.Chance(0.1), Method: simrt.Pick(r, "", "", "first", "last"), Typ: simrt.Pick(r, "s", "n")}
			if r.Chance(0.2) {
				f.Then = simrt.Pick(r, "upper", "lower")
			}
			for r.Chance(0.3) {
				f.Extra = append(f.Extra, simrt.Pick(r, layouts...))
			}
			f.First = r.Chance(0.2)
			s.Fields = append(s.Fields, f)
		}
		for i := simrt.Pick(r, 1, 1, 2, 2, 3, 4); i > 0; i-- {
			s.Calls = append(s.Calls, r.Range(1, 4))
		}
		s.Zone = simrt.Pick(r, 0, 3600, -5*3600, 19800, 14*3600, -43200, 45*60+7)
		s.Start = simrt.Pick[int64](r, 0, 1500000000e9, 1700000000e9+123456789, -1e18, 951782400e9-1, 4102444799e9+999999999) + int64(r.Intn(1e9))
		mode := r.Intn(5)
		for i := r.Range(1, 12); i > 0; i-- {
			var d int64
			switch mode {
			case 0:
				d = int64(r.Intn(5e6))
			case 1:
				d = int64(r.Intn(10))*1e9 - 3e9
			case 2:
				d = simrt.Pick[int64](r, 0, 0, 1, 3600e9, -3600e9, 86400e9*400, -86400e9*400)
			case 3:
				d = int64(r.Range(1, 90)) * 1e9
			case 4:
				d = simrt.Pick[int64](r, 0, 0, 0, 1e9)
			}
			s.Steps = append(s.Steps, d)
		}
		return s
	},
	Run: runC04,
}

func (s *c04Spec) schema() string {
	top, obj, item := wl.M{}, wl.M{}, wl.M{}
	key := "jsonPath"
	if s.XML {
		key = "xmlPath"
	}
	for i, f := range s.Fields {
		path := []string{"$.", "$.o.", "@."}[f.Where%3] + f.Typ
		missing := []string{"$.missing", "$.o.missing", "@.missing"}[f.Where%3]
		if s.XML {
			path = []string{"/root/", "/root/o/", ""}[f.Where%3] + f.Typ
			missing = []string{"/root/missing", "/root/o/missing", "missing"}[f.Where%3]
		}
		if f.Miss {
			path = missing
		}
		ops := []any{wl.M{"type": "currentTime", "args": wl.M{"format": f.Format}}}
		if f.Then != "" {
			ops = append(ops, wl.M{"type": "changeCase", "args": wl.M{"to": f.Then}})
		}
		from := []any{wl.M{key: path, "operations": ops}}
		if f.First {
			from = append([]any{wl.M{key: missing}}, from...)
		}
		for _, l := range f.Extra {
			e := wl.M{key: path, "operations": []any{wl.M{"type": "currentTime", "args": wl.M{"format": l}}}}
			if f.Method == "last" {
				from = append([]any{e}, from...)
			} else {
				from = append(from, e)
			}
		}
		tr := wl.M{"from": from}
		if f.Method != "" {
			tr["method"] = f.Method
		}
		p := wl.M{"type": "string", "transform": wl.M{"sim": tr}}
		[]wl.M{top, obj, item}[f.Where%3][fmt.Sprintf("f%d", i)] = p
	}
	if len(obj) > 0 {
		top["o"] = wl.M{"type": "object", "properties": obj}
	}
	if len(item) > 0 {
		a := wl.M{"type": "array", "items": wl.M{"type": "object", "properties": item}}
		path := "$.a"
		if s.XML {
			path = "/root/a/e"
		}
		a["transform"] = wl.M{"sim": wl.M{"from": []any{wl.M{key: path}}}}
		top["a"] = a
	}
	top["s"] = wl.M{"type": "string"}
	if s.XML {
		top["s"].(wl.M)["transform"] = wl.M{"sim": wl.M{"from": []any{wl.M{key: "/root/s"}}}}
	}
	return wl.J(wl.M{"$schema": "http://json-schema.org/draft-04/schema#", "type": "object", "properties": top})
}

func (s *c04Spec) doc() string {
	if s.XML {
		return "<root><s>t</s><n>5</n><o><s>t</s><n>6</n></o><a>" + strings.Repeat("<e><s>t</s><n>6</n></e>", s.Items) + "</a></root>"
	}
	var items []any
	for i := 0; i < s.Items; i++ {
		items = append(items, wl.M{"s": "t", "n": i})
	}
	return wl.J(wl.M{"s": "t", "n": 5, "o": wl.M{"s": "t", "n": 1}, "a": items})
}

func runC04(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c04Spec)
	if spec.Items < 1 {
		spec.Items = 1
	}
	file := filepath.Join(scratch(), "s.json")
	defer cleanScratch()
	writeFile(file, spec.schema())
	doc := spec.doc()
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	memo(spec, func() any { // fills the caches of the dependencies
		eval(file, spec.schema(), spec.XML, doc, spec.NoVal, 1)
		res.Runs++
		return true
	})
	local := time.Local
	defer func() { time.Local = local; simrt.RealClock() }()
	time.Local = time.FixedZone("SIM", spec.Zone)
	reset()
	var tr *transform.Transformer
	simrt.UseClock(simrt.Clock{Start: spec.Start, Steps: spec.Steps})
	solo(5, func() {
		s, err := jsonschema.SchemaFromFile(file, "")
		if err == nil {
			tr, _ = newTransformer(s, spec.XML)
		}
	})
	if tr == nil {
		res.Skip = true
		return
	}
	type rec struct {
		got        answer
		begin, end int
	}
	recs := make([][]rec, len(spec.Calls))
	var threads []simrt.Thread
	for i, n := range spec.Calls {
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("caller%d", i), Run: func() {
			for ; n > 0; n-- {
				r := rec{begin: simrt.Record("begin", "", "")}
				r.got, _ = call(tr, []byte(doc), spec.NoVal)
				r.end = simrt.Record("end", "", "")
				recs[i] = append(recs[i], r)
			}
		}})
	}
	res.Out = simrt.Run(sched, stepLimit, threads...)
	res.Faults["preemption"] = res.Out.Switches
	type reading struct {
		seq, thread int
		t           time.Time
	}
	var readings []reading
	for _, e := range simrt.Events() {
		if e.Kind == "now" {
			ns, _ := strconv.ParseInt(e.Data, 10, 64)
			r := reading{e.Seq, e.Thread, time.Unix(0, ns)}
			if k := len(readings); k > 0 {
				switch d := r.t.Sub(readings[k-1].t); {
				case d < 0:
					res.Faults["clock-jump-back"]++
				case d == 0:
					res.Faults["clock-stands-still"]++
				case d >= time.Second:
					res.Faults["clock-jump-forward"]++
				}
			}
			readings = append(readings, r)
		}
	}
	fail := func(class, f string, args ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(f, args...)
		}
	}
	var tracks []string
	for i, rs := range recs {
		for j, r := range rs {
			tracks = append(tracks, r.got.key())
			who := fmt.Sprintf("caller %d, call %d", i, j)
			if r.got.Err || r.got.Panic {
				fail("answer", "%s: %v", who, r.got)
				continue
			}
			var out struct {
				M map[string]json.RawMessage
			}
			if err := json.Unmarshal([]byte(r.got.Out), &out.M); err != nil {
				fail("answer", "%s: %v", who, err)
				continue
			}
			for k, f := range spec.Fields {
				name := fmt.Sprintf("f%d", k)
				var vals []*string
				switch f.Where % 3 {
				case 0:
					vals = append(vals, str(out.M[name]))
				case 1:
					vals = append(vals, str(object2(out.M["o"])[name]))
				case 2:
					var items []map[string]json.RawMessage
					json.Unmarshal(out.M["a"], &items)
					if len(items) != spec.Items && !f.Miss {
						fail("answer", "%s: field a[].%s: %d items instead of %d: %v", who, name, len(items), spec.Items, r.got)
					}
					for _, it := range items {
						vals = append(vals, str(it[name]))
					}
				}
				for _, val := range vals {
					if f.Miss {
						if val != nil {
							fail("answer", "%s: field %s is %q, its path is not in the document", who, name, *val)
						}
						continue
					}
					if val == nil {
						fail("answer", "%s: field %s is not in the document %v", who, name, r.got)
						continue
					}
					own, all := 0, 0
					ok := false
					layout := f.Format
					if layout == "RFC3339" {
						layout = time.RFC3339
					}
					show := func(t time.Time) string {
						s := t.Format(layout)
						switch f.Then {
						case "upper":
							s = strings.ToUpper(s)
						case "lower":
							s = strings.ToLower(s)
						}
						return s
					}
					var seen []string
					for _, e := range readings {
						if e.seq < r.begin || e.seq > r.end {
							continue
						}
						all++
						if e.thread == i {
							own++
						}
					}
					for _, e := range readings {
						if e.seq < r.begin || e.seq > r.end || own > 0 && e.thread != i {
							continue
						}
						seen = append(seen, show(e.t))
						if show(e.t) == *val {
							ok = true
						}
					}
					res.Probes["fields checked"]++
					if !ok {
						fail("clock", "%s: field %s with format %q is %q; readings during the call: %q", who, name, f.Format, *val, seen)
					}
				}
			}
		}
	}
	if c, d := verdict(res.Out); c != "" {
		res.Class, res.Detail = c, d
	}
	res.Trace = harness.Hash(tracks...)
	res.State = harness.Hash(wl.J(spec))
	return
}

func str(raw json.RawMessage) *string {
	if raw == nil {
		return nil
	}
	var s string
	if json.Unmarshal(raw, &s) != nil {
		s = string(raw)
	}
	return &s
}

func object2(raw json.RawMessage) map[string]json.RawMessage {
	m := map[string]json.RawMessage{}
	json.Unmarshal(raw, &m)
	return m
}
