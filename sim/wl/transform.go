// Package wl generates workloads: JSON schemas with transform sections, documents for them and
// graphs of schema files.
package wl

import (
	"encoding/json"
	"fmt"
	"strings"

	"verifsim/simrt"
)

type R = simrt.Rand

// M is a JSON object.
type M = map[string]any

func J(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// TGen generates transform schemas. Which features are on varies from schema to schema.
type TGen struct {
	R        *R
	XML      bool
	Defaults bool
	Ops      bool
	Clock    bool // currentTime is used
	Bad      float64
	Deep     int
	Long     int // length of what all strings begin with
	last     string
	budget   int
}

func NewTGen(r *R) *TGen {
	return (&TGen{R: r, XML: r.Chance(0.25), Defaults: r.Chance(0.7), Ops: r.Chance(0.8), Bad: simrt.Pick(r, 0, 0, 0.05, 0.2), Deep: r.Range(1, 3), Long: simrt.Pick(r, 0, 0, 0, 0, 12, 40, 150, 600)}).huge()
}

// huge makes some of the strings exceed every buffer, in few schemas.
func (g *TGen) huge() *TGen {
	if g.R.Chance(0.006) {
		g.Long = 70_000
	}
	return g
}

// History returns the calls of a caller with a long history, for n documents.
func History(r *R, n int) []int {
	var c []int
	for i := r.Range(30, 220); i > 0; i-- {
		c = append(c, r.Intn(n))
	}
	return c
}

var outNames = []string{"s0", "s1", "n0", "b0", "d0", "o0", "a0", "a1", "aa", "x0", "x1", "x2", "x3", "title", "tags", "list", "cs", "o1"}
var itemNames = []string{"id", "type", "url", "n", "tags", "subs", "k0", "k1", "s0", "o2"}

// Schema returns a schema document.
func (g *TGen) Schema() M {
	g.budget = g.R.Range(3, 16)
	props := M{}
	n := g.R.Range(1, 7)
	for i := 0; i < n; i++ {
		name := simrt.Pick(g.R, outNames...)
		if _, ok := props[name]; !ok {
			props[name] = g.node(g.Deep, "")
		}
	}
	if g.R.Chance(0.2) {
		g.twins(props)
	}
	if !g.XML && g.R.Chance(0.3) {
		g.shared(props)
	}
	s := M{"$schema": "http://json-schema.org/draft-04/schema#", "type": "object", "properties": props}
	if g.R.Chance(0.2) {
		s["additionalProperties"] = false
	}
	if g.R.Chance(0.25) {
		for k := range sorted(props) {
			s["required"] = []string{sorted(props)[k]}
			break
		}
	}
	return s
}

// twins adds properties whose names differ from those of others in case only or begin with them.
func (g *TGen) twins(props M) {
	for _, name := range sorted(props) {
		if g.R.Chance(0.5) {
			props[simrt.Pick(g.R, strings.ToUpper(name), strings.ToUpper(name), strings.Title(name), name+"x", name+"0")] = g.node(g.Deep, "")
		}
	}
}

// shared adds an array below another property that stands at a path where the input has something
// too, and properties that read the input there.
func (g *TGen) shared(props M) {
	from := func(paths ...string) M {
		var in []any
		for _, p := range paths {
			in = append(in, M{"jsonPath": p})
		}
		return M{"sim": M{"from": in}}
	}
	scalars := func() M {
		return M{"type": "array", "items": M{"type": "string"}, "transform": from(simrt.Pick(g.R, "$.a0", "$.tags", "$.s0", "$.a1[*].url", "$.cs", "$.list[*].id"))}
	}
	objects := func() M {
		return M{"type": "array", "items": M{"type": "object", "properties": M{"id": M{"type": "string"}, "url": M{"type": "string"}}}, "transform": from(simrt.Pick(g.R, "$.a1", "$.list", "$.a1[0].subs", "$.a1[?(@.n>1)]"))}
	}
	var readers []string
	add := func(m M, name string, v M) {
		if g.Defaults && g.R.Chance(0.2) {
			delete(v, "transform")
			if v["items"].(M)["type"] == "string" {
				v["default"] = []any{"da", "db"}
			} else {
				v["default"] = []any{M{"id": "d1"}}
			}
		}
		m[name] = v
	}
	if g.R.Chance(0.65) {
		top, in := simrt.Pick(g.R, "o0", "o0", "o1", "o2"), M{}
		path := "$." + top
		o := M{"type": "object", "properties": in}
		props[top] = o
		if g.R.Chance(0.3) {
			deep := M{}
			in["o1"] = M{"type": "object", "properties": deep}
			in, path = deep, path+".o1"
		}
		for i := g.R.Range(1, 2); i > 0; i-- {
			if g.R.Chance(0.5) {
				n := simrt.Pick(g.R, "tags", "a0", "s0")
				add(in, n, scalars())
				readers = append(readers, path+"."+n, path+"."+n+"[0]", "$.."+n)
			} else {
				add(in, "list", objects())
				readers = append(readers, path+".list", path+".list[0].id", path+".list[*].url")
			}
		}
		readers = append(readers, path, "$."+top)
	} else {
		top, in := simrt.Pick(g.R, "a1", "a1", "list"), M{"id": M{"type": "string"}}
		props[top] = M{"type": "array", "items": M{"type": "object", "properties": in}}
		if g.R.Chance(0.5) {
			props[top].(M)["transform"] = from(simrt.Pick(g.R, "$.a1", "$.list", "$."+top))
		}
		if g.R.Chance(0.6) {
			n := simrt.Pick(g.R, "tags", "url", "id")
			add(in, n, M{"type": "array", "items": M{"type": "string"}, "transform": from(simrt.Pick(g.R, "@.id", "@.url", "$.a0", "$.tags"))})
			readers = append(readers, "$."+top+"[*]."+n, "$."+top+"[0]."+n, "$.."+n)
		} else {
			v := objects()
			v["transform"] = from(simrt.Pick(g.R, "@.subs", "@.o2", "$.list", "$.a1"))
			add(in, "subs", v)
			readers = append(readers, "$."+top+"[0].subs", "$."+top+"[*].subs", "$."+top+"[0].subs[0].id")
		}
		readers = append(readers, "$."+top, "$."+top+"[0]")
	}
	for i := g.R.Range(1, 3); i > 0; i-- {
		v := simrt.Pick(g.R, M{"type": "string"}, M{"type": "array", "items": M{"type": "string"}}, M{"type": "array", "items": M{"type": "object", "properties": M{"id": M{"type": "string"}}}}, M{"type": "object", "properties": M{"n9": M{"type": "number"}}}, M{"type": "boolean"})
		v["transform"] = from(simrt.Pick(g.R, readers...))
		if v["type"] == "boolean" {
			v["transform"].(M)["sim"].(M)["from"].([]any)[0].(M)["operations"] = []any{op("valueExists")}
		}
		props[simrt.Pick(g.R, "r0", "r1", "r2", "zz", "aaa")] = v
	}
}

func sorted(m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// node returns a property schema. item is "" at the top, "@" inside an array of objects and "."
// inside an object.
func (g *TGen) node(depth int, item string) M {
	g.budget--
	k := g.R.Intn(10)
	if depth <= 0 || g.budget <= 0 {
		k = 0
	}
	switch {
	case k < 5:
		return g.scalar(item)
	case k < 7:
		return g.object(depth, item)
	default:
		return g.array(depth, item)
	}
}

func (g *TGen) scalar(item string) M {
	typ := simrt.Pick(g.R, "string", "string", "string", "number", "integer", "boolean", "date-time")
	m := M{"type": typ}
	if typ == "date-time" {
		m = M{"type": "string", "format": "date-time"}
	}
	if g.Defaults && g.R.Chance(0.3) {
		m["default"] = g.value(typ)
	}
	if g.R.Chance(0.75) {
		g.transform(m, typ, item)
	}
	return m
}

func (g *TGen) value(typ string) any {
	switch typ {
	case "string":
		return simrt.Pick[any](g.R, "dflt", "", "a-b", "1:30")
	case "number":
		return simrt.Pick[any](g.R, 1.5, 7.0)
	case "integer":
		return g.R.Range(0, 9)
	case "boolean":
		return g.R.Chance(0.5)
	}
	return "2018-01-02T03:04:05Z"
}

func (g *TGen) object(depth int, item string) M {
	props := M{}
	names := outNames
	if item == "@" {
		names = itemNames
	}
	sub := "."
	if item == "@" {
		sub = "@"
	}
	for i := g.R.Range(1, 3); i > 0; i-- {
		name := simrt.Pick(g.R, names...)
		if _, ok := props[name]; !ok {
			props[name] = g.node(depth-1, sub)
		}
	}
	m := M{"type": "object", "properties": props}
	if g.R.Chance(0.06) {
		m["properties"] = M{}
	}
	if g.Defaults && g.R.Chance(0.35) {
		d := M{}
		for _, k := range sorted(props) {
			if g.R.Chance(0.5) {
				if t, ok := props[k].(M)["type"].(string); ok && t != "array" && t != "object" {
					d[k] = g.value(t)
				}
			}
		}
		if g.R.Chance(0.5) {
			d["extra"] = "e"
		}
		if g.R.Chance(0.3) {
			d["deep"] = M{"v": 1}
		}
		m["default"] = d
	}
	if g.R.Chance(0.35) {
		g.transform(m, "object", item)
	}
	return m
}

func (g *TGen) array(depth int, item string) M {
	m := M{"type": "array"}
	what := "array"
	switch g.R.Intn(6) {
	case 0, 1:
		it := M{"type": simrt.Pick(g.R, "string", "string", "number", "integer")}
		if g.R.Chance(0.15) {
			it["default"] = g.value(it["type"].(string))
		}
		m["items"] = it
		what = "array-scalar"
	case 2:
		m["items"] = M{"type": "array", "items": M{"type": "number"}}
		what = "array-array"
	default:
		m["items"] = g.object(depth-1, "@")
		if g.R.Chance(0.7) {
			delete(m["items"].(M), "transform")
		}
		what = "array-object"
	}
	if g.Defaults && g.R.Chance(0.3) {
		switch what {
		case "array-scalar":
			if m["items"].(M)["type"] == "string" {
				m["default"] = []any{"da", "db"}
			} else {
				m["default"] = []any{1, 2}
			}
		case "array-array":
			m["default"] = []any{[]any{1, 2}, []any{3}}
		default:
			m["default"] = []any{M{"id": "d1", "url": "du", "tags": []any{"t"}, "subs": []any{M{"id": "ds"}}}, M{"id": "d2"}}
		}
	}
	if g.R.Chance(0.7) {
		g.transform(m, what, item)
	}
	return m
}

var jsonPaths = map[string][]string{
	"string":       {"$.s0", "$.s1", "$.o0.s0", "$.o0.o1.s0", "$.a1[0].url", "$.a1[*].url", "$.a0[1]", "$..url", "$.a1[?(@.type==\"v\")].url", "$.n0", "$.missing", "$.title", "$.tags", "$.x0", "$.cs", "$.a0", "$.list[0].id", "$.dur", "$.html", "$.b0", "$.x1"},
	"number":       {"$.n0", "$.n1", "$.a1[*].n", "$.o0.n0", "$.num", "$.aa[0][1]", "$.missing", "$.a1[1].n", "$.x2"},
	"integer":      {"$.i0", "$.i1", "$.a1[0].i", "$.num", "$.missing", "$.o0.i0"},
	"boolean":      {"$.b0", "$.b1", "$.o0.b0", "$.n0", "$.missing", "$.bs"},
	"date-time":    {"$.d0", "$.d1", "$.o0.d0", "$.epoch", "$.missing"},
	"object":       {"$.o0", "$.o0.o1", "$.a1[0]", "$.missing", "$.o2", "$.o1"},
	"array":        {"$.a0", "$.a1"},
	"array-scalar": {"$.a0", "$.a1[*].url", "$.tags", "$.s0", "$.a1[0].tags", "$.missing", "$..id", "$.cs"},
	"array-array":  {"$.aa", "$.missing", "$.a0"},
	"array-object": {"$.a1", "$.a1[?(@.n>1)]", "$.o0.list", "$.missing", "$.list", "$.a1[0].subs", "$.o0", "$.x0"},
}
var itemPaths = map[string][]string{
	"string":       {"@.id", "@.type", "@.url", "@.k0", "$.s0", "@.o2.s0", "@.tags[0]"},
	"number":       {"@.n", "@.k1", "$.n0"},
	"integer":      {"@.i", "@.n"},
	"boolean":      {"@.ok", "$.b0"},
	"date-time":    {"@.d", "$.d0"},
	"object":       {"@.o2", "@.subs[0]", "$.o0"},
	"array-scalar": {"@.tags", "@.id", "$.a0", "@.cs"},
	"array-array":  {"@.aa", "$.aa"},
	"array-object": {"@.subs", "@.o2", "$.a1"},
}
var xmlPaths = map[string][]string{
	"string":       {"/root/s0", "/root/s1", "//url", "/root/o0/s0", "/root/a1/e[1]/url", "/root/missing", "/root/n0", "/root/a0/item", "/root/cs"},
	"number":       {"/root/n0", "/root/n1", "//n", "/root/missing", "/root/num"},
	"integer":      {"/root/i0", "//i", "/root/missing"},
	"boolean":      {"/root/b0", "/root/b1", "/root/missing"},
	"date-time":    {"/root/d0", "/root/missing"},
	"object":       {"/root/o0", "//o1", "/root/missing", "/root/empty"},
	"array-scalar": {"/root/a0/item", "/root/s0", "/root/missing", "/root/cs"},
	"array-array":  {"/root/a0", "/root/missing"},
	"array-object": {"//e", "/root/a1/e", "/root/missing"},
}
var xmlItemPaths = map[string][]string{
	"string": {"id", "type", "url", "//s0", "@k"}, "number": {"n"}, "integer": {"i", "n"}, "boolean": {"ok"}, "date-time": {"d"},
	"object": {"o2", "."}, "array-scalar": {"tags/t", "id"}, "array-array": {"tags"}, "array-object": {"subs/e", "o2"},
}

func (g *TGen) transform(m M, typ, item string) {
	tbl, pathKey := jsonPaths, "jsonPath"
	if g.XML {
		tbl, pathKey = xmlPaths, "xmlPath"
	}
	if item == "@" && g.R.Chance(0.85) {
		tbl = itemPaths
		if g.XML {
			tbl = xmlItemPaths
		}
	}
	n := simrt.Pick(g.R, 1, 1, 1, 2, 2, 3)
	var from []any
	for i := 0; i < n; i++ {
		if rs := recipes[recipeKey(typ, g.XML, item == "@")]; g.Ops && len(rs) > 0 && g.R.Chance(0.3) {
			r := rs[g.R.Intn(len(rs))]
			from = append(from, M{pathKey: r.path, "operations": r.ops})
			continue
		}
		in := M{pathKey: simrt.Pick(g.R, tbl[typ]...)}
		if ops := g.ops(typ); len(ops) > 0 {
			in["operations"] = ops
		}
		from = append(from, in)
	}
	t := M{"from": from}
	if n > 1 || g.R.Chance(0.2) {
		switch meth := simrt.Pick(g.R, "first", "last", "last", "concatenate", ""); meth {
		case "":
		case "concatenate":
			if typ == "string" || g.R.Chance(0.05) {
				t["method"] = meth
				if g.R.Chance(0.6) {
					t["methodOptions"] = M{"concatenateDelimiter": simrt.Pick(g.R, "-", " ", ", ")}
				}
			}
		default:
			t["method"] = meth
		}
	}
	m["transform"] = M{"sim": t}
	if g.R.Chance(0.15) {
		m["transform"].(M)["other"] = M{"from": []any{M{"jsonPath": "$.zzz"}}}
	}
}

func op(name string, args ...string) M {
	m := M{"type": name}
	if len(args) > 0 {
		a := M{}
		for i := 0; i < len(args); i += 2 {
			a[args[i]] = args[i+1]
		}
		m["args"] = a
	}
	return m
}

// recipes are paths with operations that suit the values found there; the key is the type, with
// "@" for a path inside an item and "/" for XML.
type recipe struct {
	path string
	ops  []any
}

func rec(path string, ops ...M) recipe {
	r := recipe{path: path}
	for _, o := range ops {
		r.ops = append(r.ops, o)
	}
	return r
}

func recipeKey(typ string, xml, item bool) string {
	if xml {
		typ = "/" + typ
	}
	if item {
		typ = "@" + typ
	}
	return typ
}

func parseTime(layout string) M {
	return op("timeParse", "format", "2006-01-02T15:04:05Z07:00", "layout", layout)
}

func maxBy(by, ret string) M { return op("max", "by", "@."+by, "return", "@."+ret) }

var recipes = map[string][]recipe{
	"string": {
		rec("$.d0", parseTime("Jan 2, 2006")), rec("$.d0", parseTime("02.01.06 15:04")), rec("$.d1", parseTime("2006")),
		rec("$.a1", maxBy("n", "url")), rec("$.a1", maxBy("i", "id")), rec("$.list", maxBy("n", "id")), rec("$.a1[*]", maxBy("i", "type")),
		rec("$.html", op("removeHTML"), op("changeCase", "to", "upper")), rec("$.title", op("replace", "regex", "T(.*) ", "new", "$1"), op("toCamelCase", "delimiter", " ")),
		rec("$.s1", op("toCamelCase", "delimiter", "-"), op("replace", "regex", "[0-9]+", "new", "#")),
	},
	"integer": {
		rec("$.dur", op("duration")), rec("$.a1", maxBy("n", "i")), rec("$.a1", maxBy("i", "n")), rec("$.n0", op("convertToInt64")), rec("$.i1", op("convertToInt64")),
	},
	"number": {
		rec("$.a1", maxBy("i", "n")), rec("$.list", maxBy("n", "n")), rec("$.num", op("convertToFloat64")), rec("$.i1", op("convertToFloat64")),
	},
	"boolean": {
		rec("$.s0", op("valueExists")), rec("$.s1", op("valueExists"), op("inverse")), rec("$.bs", op("convertToBool"), op("inverse")), rec("$.b0", op("inverse")), rec("$.missing", op("valueExists")),
	},
	"array-scalar":  {rec("$.cs", op("split", "on", ",")), rec("$.s1", op("split", "on", " ")), rec("$.title", op("changeCase", "to", "lower"), op("split", "on", "t"))},
	"@string":       {rec("@.subs", maxBy("n", "id")), rec("@.url", op("replace", "regex", "u", "new", "/")), rec("@.id", op("changeCase", "to", "upper")), rec("$.a1", maxBy("n", "id")), rec("$.d0", parseTime("Jan 2"))},
	"@integer":      {rec("@.subs", maxBy("i", "n")), rec("$.dur", op("duration"))},
	"@boolean":      {rec("@.id", op("valueExists")), rec("@.ok", op("inverse"))},
	"@array-scalar": {rec("@.url", op("split", "on", "1"))},
	"/string":       {rec("/root/d0", parseTime("Jan 2, 2006")), rec("/root/d0", parseTime("02.01.06")), rec("/root/s1", op("changeCase", "to", "upper"), op("replace", "regex", "L+", "new", "1")), rec("//s0", op("toCamelCase", "delimiter", " "))},
	"/integer":      {rec("/root/dur", op("duration")), rec("/root/i0", op("convertToInt64"))},
	"/number":       {rec("/root/n1", op("convertToFloat64"))},
	"/boolean":      {rec("/root/s0", op("valueExists")), rec("/root/b0", op("inverse")), rec("//e", op("valueExists")), rec("/root/b1", op("convertToBool"))},
	"/array-scalar": {rec("/root/cs", op("split", "on", ",")), rec("/root/s1", op("split", "on", " "))},
	"@/string":      {rec("id", op("changeCase", "to", "upper")), rec("url", op("replace", "regex", "u", "new", "/"))},
	"@/boolean":     {rec("subs/e", op("valueExists")), rec("id", op("valueExists"))},
}

// TimeLayouts are the formats a currentTime operation is given.
var TimeLayouts = []string{"RFC3339", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02 15:04:05.000", "15:04:05.000000000", "Mon Jan _2 2006 15:04:05.000000"}

func (g *TGen) ops(typ string) []any {
	if !g.Ops || g.R.Chance(0.4) {
		return nil
	}
	if g.R.Chance(g.Bad) {
		return []any{simrt.Pick(g.R, op("inverse"), op("duration"), op("max", "by", "@.n", "return", "@.url"), op("timeParse", "format", "2006", "layout", "01"))}
	}
	if g.Clock && typ == "string" && g.R.Chance(0.8) {
		return []any{op("currentTime", "format", simrt.Pick(g.R, TimeLayouts...))}
	}
	var out []any
	switch typ {
	case "string":
		for i := g.R.Range(1, 2); i > 0; i-- {
			out = append(out, simrt.Pick(g.R, op("changeCase", "to", "upper"), op("changeCase", "to", "lower"), op("replace", "regex", "[aeiou]", "new", "_"), op("replace", "regex", "(\\w)(\\w)", "new", "$2$1"), op("removeHTML"), op("toCamelCase", "delimiter", "-")))
		}
	case "boolean":
		out = append(out, simrt.Pick(g.R, op("inverse"), op("convertToBool")))
	case "number":
		out = append(out, op("convertToFloat64"))
	case "integer":
		out = append(out, op("convertToInt64"))
	case "array-scalar":
		if g.R.Chance(0.5) {
			out = append(out, op("split", "on", ","))
		}
	}
	return out
}

// Doc returns an input document. Some differ in a little from the one before.
func (g *TGen) Doc() string {
	if g.last != "" && g.R.Chance(0.35) {
		g.last = sibling(g.R, g.last, g.XML)
	} else if g.XML {
		g.last = g.xmlDoc()
	} else {
		g.last = g.jsonDoc()
	}
	return g.last
}

// sibling changes a few characters: documents alike in length, in beginning and end, or up to case.
func sibling(r *R, doc string, xml bool) string {
	b := []byte(doc)
	for n, tries := r.Range(1, 3), 0; n > 0 && tries < 50; tries++ {
		i := r.Intn(len(b))
		old := b[i]
		switch c := old; {
		case c >= '0' && c <= '9':
			b[i] = '0' + byte(r.Intn(10))
		case c >= 'a' && c <= 'z' && r.Chance(0.1):
			b[i] = c - 32
		case c >= 'A' && c <= 'Z' && r.Chance(0.5):
			b[i] = c + 32
		case c == '+':
			b[i] = '-'
		case c == '-' && r.Chance(0.3):
			b[i] = '+'
		default:
			continue
		}
		if b[i] == old || !xml && json.Valid([]byte(doc)) && !json.Valid(b) {
			b[i] = old
			continue
		}
		n--
	}
	return string(b)
}

const filler = "The quick brown fox, jumps over the lazy dog and Runs on; "

// uniq returns a string that is one of a thousand.
func (g *TGen) uniq(s string) string {
	if g.Long > 0 && (g.Long < 10_000 || g.R.Chance(0.08)) {
		s += strings.Repeat(filler, 1+g.Long/len(filler))[:g.Long]
	}
	return fmt.Sprintf("%s%d", s, g.R.Intn(1000))
}

// numText, dateText and their like return texts that differ in little more than how they write a value.
func (g *TGen) numText() string {
	n := fmt.Sprint(g.R.Intn(4))
	return simrt.Pick(g.R, n, n, "0"+n, "00"+n, n+".0", n+".5", "-"+n, "+"+n, n+"e1", " "+n, n+" ", "", "0", "x"+n, fmt.Sprint(g.R.Intn(100)))
}

func (g *TGen) dateText() string {
	if g.R.Chance(0.1) {
		return simrt.Pick(g.R, "", "nonsense", "2020-02-30T00:00:00Z", "2020-01-01", "0001-01-01T00:00:00Z")
	}
	return fmt.Sprintf("20%02d-0%d-03T04:05:06", g.R.Range(20, 22), g.R.Range(1, 2)) +
		simrt.Pick(g.R, "", ".5", ".25", ".000000001", ".123456789") + simrt.Pick(g.R, "Z", "Z", "+00:00", "-07:00", "+05:30", "+02:00", "z", "")
}

func (g *TGen) boolText() string {
	return simrt.Pick(g.R, "true", "false", "True", "FALSE", "t", "1", "0", "", "maybe", " true")
}

func (g *TGen) listText() string {
	n := func() string { return fmt.Sprint(g.R.Intn(30)) }
	return simrt.Pick(g.R, "a,b,c", "a,b,c,", ",a,b,c", "a, b, c", "A,B,C", "abc", ",", "", "q"+n()+",r"+n(), "q"+n()+"-r"+n())
}

func (g *TGen) durText() string {
	n := g.R.Intn(4)
	return fmt.Sprintf(simrt.Pick(g.R, "%d:30", "0%d:30", "%d:02:03", "0:%d:30", "%d:00:30", ":%d", "%d:", "0%d", "x%d", "%d:30 "), n)
}

func (g *TGen) htmlText() string {
	u := g.uniq("h")
	return simrt.Pick(g.R, "<p>"+u+" &amp; <b>x</b></p>", "<p>"+u+" &amp;amp; x</p>", u+"<br>"+u, "<P>"+u+"</P>", u+" &lt;b&gt;x", "<p>"+u, "<!-- "+u+" -->x", "<script>"+u+"</script>y", "  "+u+"  ")
}

func (g *TGen) jsonDoc() string {
	d := M{}
	p := simrt.Pick(g.R, 0.3, 0.7, 0.95)
	put := func(m M, k string, v any) {
		if g.R.Chance(p) {
			m[k] = v
		}
	}
	uniq := g.uniq
	put(d, "s0", uniq("s"))
	put(d, "s1", simrt.Pick[any](g.R, "", uniq("Hello-World "), uniq("hello-world "), uniq("Hello World-"), "ünï "+uniq("x"), " "+uniq("Hello-World"), uniq("Hello-World")+" "))
	put(d, "title", uniq("Title "))
	put(d, "n0", float64(g.R.Intn(100))/4)
	put(d, "n1", g.R.Intn(100))
	put(d, "i0", g.R.Intn(100))
	put(d, "i1", g.numText())
	put(d, "num", g.numText())
	put(d, "b0", g.R.Chance(0.5))
	put(d, "b1", simrt.Pick[any](g.R, g.boolText(), g.boolText(), g.boolText(), 1))
	put(d, "bs", g.boolText())
	put(d, "d0", g.dateText())
	put(d, "d1", g.dateText())
	put(d, "epoch", 1500000000+g.R.Intn(1000))
	put(d, "cs", g.listText())
	put(d, "dur", g.durText())
	put(d, "html", g.htmlText())
	put(d, "o0", g.obj(p, 2))
	put(d, "o1", g.obj(p, 1))
	put(d, "o2", g.obj(p, 1))
	put(d, "a0", g.strings())
	put(d, "tags", g.strings())
	put(d, "a1", g.items(p, 2))
	put(d, "list", g.items(p, 1))
	put(d, "x0", simrt.Pick[any](g.R, uniq("x0"), g.items(p, 1), g.strings()))
	put(d, "x1", uniq("x1"))
	put(d, "x2", g.R.Intn(50))
	put(d, "aa", []any{[]any{g.R.Intn(9), g.R.Intn(9)}, []any{g.R.Intn(9)}, []any{}})
	for _, k := range sorted(d) {
		if g.R.Chance(0.05) {
			d[simrt.Pick(g.R, strings.ToUpper(k), k+"x", k+"0")] = simrt.Pick(g.R, d[k], d["s0"], d["o0"], d["a1"])
		}
	}
	if g.R.Chance(g.Bad) {
		g.corrupt(d)
	}
	s := J(d)
	if g.R.Chance(g.Bad / 4) {
		s = s[:g.R.Intn(len(s))]
	}
	return s
}

// corrupt replaces a value with one of another type.
func (g *TGen) corrupt(d M) {
	ks := sorted(d)
	if len(ks) == 0 {
		return
	}
	d[ks[g.R.Intn(len(ks))]] = simrt.Pick[any](g.R, nil, "corrupt", 7, true, M{"id": "c"}, []any{}, []any{nil, 1}, []any{M{}}, M{})
}

func (g *TGen) strings() []any {
	var out []any
	for i := g.R.Intn(4); i > 0; i-- {
		out = append(out, g.uniq("t"))
	}
	if out == nil {
		return []any{}
	}
	return out
}

func (g *TGen) obj(p float64, depth int) M {
	o := M{}
	for _, k := range []string{"s0", "title", "id", "k0", "x0"} {
		if g.R.Chance(p) {
			o[k] = g.uniq("o")
		}
	}
	for _, k := range []string{"n0", "i0", "n"} {
		if g.R.Chance(p) {
			o[k] = g.R.Intn(100)
		}
	}
	if g.R.Chance(p) {
		o["b0"] = true
	}
	if depth > 0 {
		if g.R.Chance(p) {
			o["o1"] = g.obj(p, depth-1)
		}
		if g.R.Chance(p) {
			o["list"] = g.items(p, depth-1)
		}
		if g.R.Chance(p) {
			o["tags"] = g.strings()
		}
		if g.R.Chance(p) {
			o["a0"] = g.strings()
		}
	}
	return o
}

func (g *TGen) items(p float64, depth int) []any {
	out := []any{}
	for i := g.R.Intn(4); i > 0; i-- {
		e := M{"id": g.uniq("i"), "type": simrt.Pick[any](g.R, "v", "w")}
		if g.R.Chance(p) {
			e["url"] = g.uniq("u")
		}
		if g.R.Chance(p) {
			e["n"] = g.R.Intn(5)
		}
		if g.R.Chance(p) {
			e["i"] = g.R.Intn(5)
		}
		if g.R.Chance(p) {
			e["ok"] = true
		}
		if g.R.Chance(p) {
			e["tags"] = g.strings()
		}
		if g.R.Chance(p / 2) {
			e["o2"] = g.obj(p, 0)
		}
		if depth > 0 && g.R.Chance(p) {
			e["subs"] = g.items(p, depth-1)
		}
		out = append(out, e)
	}
	return out
}

func (g *TGen) xmlDoc() string {
	var b strings.Builder
	el := func(name, text string) {
		if g.R.Chance(0.75) {
			fmt.Fprintf(&b, "<%s>%s</%s>", name, text, name)
		}
	}
	num := func(p string) string {
		if p == "" {
			return fmt.Sprint(g.R.Intn(1000))
		}
		return g.uniq(p)
	}
	b.WriteString("<root>")
	el("s0", num("s"))
	el("s1", num("Hello "))
	el("n0", fmt.Sprint(g.R.Intn(100)))
	el("n1", g.numText())
	el("num", g.numText())
	el("i0", fmt.Sprint(g.R.Intn(100)))
	el("b0", simrt.Pick(g.R, "true", "false"))
	el("b1", g.boolText())
	el("d0", g.dateText())
	el("cs", g.listText())
	el("dur", g.durText())
	el("empty", "")
	el("o0", "<s0>"+num("os")+"</s0><n0>"+num("")+"</n0><o1><s0>"+num("oo")+"</s0></o1>")
	var items strings.Builder
	for i := g.R.Intn(4); i > 0; i-- {
		fmt.Fprintf(&items, "<item>%s</item>", num("t"))
	}
	el("a0", items.String())
	items.Reset()
	for i := g.R.Intn(4); i > 0; i-- {
		fmt.Fprintf(&items, "<e k=%q><id>%s</id><type>v</type><url>%s</url>", num("k"), num("i"), num("u"))
		if g.R.Chance(0.6) {
			fmt.Fprintf(&items, "<n>%d</n>", g.R.Intn(9))
		}
		if g.R.Chance(0.6) {
			fmt.Fprintf(&items, "<tags><t>%s</t><t>%s</t></tags>", num("a"), num("b"))
		}
		if g.R.Chance(0.4) {
			fmt.Fprintf(&items, "<subs><e><id>%s</id></e></subs><o2><s0>%s</s0></o2>", num("z"), num("y"))
		}
		items.WriteString("</e>")
	}
	el("a1", items.String())
	b.WriteString("</root>")
	s := b.String()
	if g.R.Chance(g.Bad / 4) {
		s = s[:g.R.Intn(len(s))]
	}
	return s
}

// Parse reads a JSON object.
func Parse(text string) M {
	var m M
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		panic(err)
	}
	return m
}
