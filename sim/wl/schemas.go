package wl

import (
	"fmt"
	"path"
	"slices"
	"strings"

	"verifsim/simrt"
)

// File is one schema file of a graph.
type File struct {
	Name string // relative, with slashes
	Text string
}

// SGen generates graphs of schema files that refer to each other.
type SGen struct {
	R      *R
	Cyclic bool               // references may point anywhere
	Broken float64            // chance of a broken reference or file
	HTTP   func(i int) string // URL of file i, if references may use it; nil otherwise
	Flat   bool               // all files in one directory
	Part   float64            // chance of a reference into another file, not to all of it
	Alike  bool               // file names have much in common
	Rules  float64            // chance of validation rules in an instance
	Odd    float64            // chance of an unusual property name
	Deep   int                // further levels of nesting
	Long   float64            // chance of a long chain or a wide object as a property of a file
	InFile float64            // cyclic graphs: chance of a reference within the file
	Back   float64            // cyclic graphs: chance that a reference may point backwards
	last   string             // the document before
	names  []string
	defs   []int
	depth  int
}

func NewSGen(r *R) *SGen { return &SGen{R: r} }

// Graph returns n files. File i refers to files after it only, unless the graph is cyclic.
func (g *SGen) Graph(n int) []File {
	g.names = nil
	for i := 0; i < n; i++ {
		dir := Pick(g.R, "", "", "sub/", "sub/deep/")
		if i == 0 || g.Flat {
			dir = ""
		}
		name := fmt.Sprintf("%sf%d.json", dir, i)
		for g.Alike {
			dir = Pick(g.R, "", "sub/", "sub/deep/", "SUB/", "deep/sub/", "a/very/long/way/to/go/until/the/files/are/found/sub/")
			if i == 0 || g.Flat {
				dir = ""
			}
			name = dir + Pick(g.R, "f0", "f0", "F0", "f0_", "f0-f0", "f", "f00") + Pick(g.R, ".json", ".json", ".JSON", ".schema.json", "")
			if strings.HasSuffix(name, "/f") || name == "f" || slices.Contains(g.names, name) {
				continue
			}
			break
		}
		g.names = append(g.names, name)
	}
	var out []File
	for i := range g.names {
		g.depth = g.R.Range(1, 3) + g.Deep
		text := J(g.file(i))
		if g.R.Chance(g.Broken / 3) {
			text = text[:g.R.Intn(len(text))]
		}
		out = append(out, File{g.names[i], text})
	}
	return out
}

// Chain returns n files, each of which refers to the next one; unless close is negative, the last
// one refers to the one with that number.
func (g *SGen) Chain(n, close int) []File {
	g.names = nil
	for i := 0; i < n; i++ {
		dir := Pick(g.R, "", "", "sub/", "sub/deep/")
		if i == 0 || g.Flat {
			dir = ""
		}
		g.names = append(g.names, fmt.Sprintf("%sf%d.json", dir, i))
	}
	// A chain within the last file as well. In each it would make the result larger by a factor.
	in := Pick(g.R, -1, -1, n-1)
	var out []File
	for i := range g.names {
		g.depth = 1
		j := i + 1
		if j == n {
			j = close
		}
		props := M{"a": g.plain(i, 0, 0)}
		if g.R.Chance(0.2) {
			props["b"] = M{"type": "object", "properties": M{g.name(): g.plain(i, 0, 0)}}
		}
		m := M{"type": "object", "properties": props}
		var at M
		if j >= 0 {
			ref := relative(path.Dir(g.names[i]), g.names[j])
			if g.R.Chance(0.1) {
				ref += "#"
			}
			at = M{"$ref": ref}
		}
		if i == in {
			if at == nil {
				at = M{"type": "string"}
			}
			defs, k := M{}, g.R.Range(2, 9)
			defs[fmt.Sprint("d", k)] = at
			for k--; k >= 0; k-- {
				next := M{"$ref": fmt.Sprint("#/definitions/d", k+1)}
				defs[fmt.Sprint("d", k)] = next
				if g.R.Chance(0.2) {
					defs[fmt.Sprint("d", k)] = M{"type": "object", "properties": M{"c": next}}
				}
			}
			m["definitions"] = defs
			at = M{"$ref": "#/definitions/d0"}
		}
		if at != nil {
			switch g.R.Intn(8) {
			case 0:
				m["allOf"] = []any{at}
			case 1:
				m["oneOf"] = []any{at}
			case 2:
				props["list"] = M{"type": "array", "items": at}
			default:
				props["next"] = at
			}
			if (m["allOf"] != nil || m["oneOf"] != nil) && m["definitions"] != nil {
				delete(m, "allOf")
				delete(m, "oneOf")
				props["next"] = at
			}
		}
		out = append(out, File{g.names[i], J(m)})
	}
	return out
}

// Name is the name of file i.
func (g *SGen) Name(i int) string { return g.names[i] }

func Pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }

func (g *SGen) file(i int) M {
	nd := g.R.Intn(3)
	m := M{"$schema": "http://json-schema.org/draft-04/schema#"}
	defs := M{}
	for d := nd - 1; d >= 0; d-- {
		defs[fmt.Sprintf("d%d", d)] = g.instance(i, d, g.depth-1)
	}
	if nd > 0 {
		m["definitions"] = defs
	}
	g.defs = nil
	if g.R.Chance(0.12) {
		m["type"] = "array"
		m["items"] = g.objectInst(i, nd, g.depth)
		return m
	}
	m["type"] = "object"
	props := M{}
	for k := g.R.Range(1, 4); k > 0; k-- {
		props[g.name()] = g.maybeRef(i, nd, g.depth)
	}
	if g.R.Chance(g.Long) {
		props[g.name()] = g.long(i, nd)
	}
	if g.R.Chance(0.9) {
		m["properties"] = props
		if g.R.Chance(0.3) {
			m["required"] = []string{sorted(props)[g.R.Intn(len(props))]}
		}
	} else if g.R.Chance(0.5) {
		m["properties"] = M{}
	}
	if g.R.Chance(0.35) {
		var all []any
		for k := g.R.Range(1, 2); k > 0; k-- {
			if r := g.ref(i, nd, true); r != nil && g.R.Chance(0.75) {
				all = append(all, r)
			} else {
				all = append(all, g.objectInst(i, nd, 1))
			}
		}
		m["allOf"] = all
	}
	if g.R.Chance(0.35) {
		var one []any
		for k := g.R.Range(1, 2); k > 0; k-- {
			if r := g.ref(i, nd, true); r != nil {
				one = append(one, r)
			} else {
				one = append(one, g.objectInst(i, nd, 1))
			}
		}
		m["oneOf"] = one
	}
	if g.R.Chance(0.2) {
		m["description"] = fmt.Sprintf("file %d", i)
	}
	if g.R.Chance(0.06) { // a reference at the top
		if nd > 0 && g.R.Chance(0.5) {
			m["$ref"] = fmt.Sprintf("#/definitions/d%d", g.R.Intn(nd))
		} else if r := g.ref(i, nd, false); r != nil {
			m["$ref"] = r["$ref"]
		}
	}
	if g.R.Chance(0.15) {
		m["additionalProperties"] = false
	}
	return m
}

// long returns an object with many properties, or one far down in others.
func (g *SGen) long(i, nd int) M {
	m := g.objectInst(i, nd, 1)
	if g.R.Chance(0.3) {
		m["description"] = strings.Repeat("long text ", g.R.Range(10, 150))
	}
	if g.R.Chance(0.4) {
		props := m["properties"].(M)
		for k := g.R.Range(8, 60); k > 0; k-- {
			props[fmt.Sprint(Pick(g.R, "p", "p", "x", "P"), k)] = g.plain(i, nd, 0)
		}
	}
	for k := Pick(g.R, 0, g.R.Range(3, 16)); k > 0; k-- {
		if g.R.Chance(0.3) {
			m = M{"type": "array", "items": m}
			continue
		}
		props := M{g.name(): m}
		if g.R.Chance(0.3) {
			props[g.name()] = g.plain(i, nd, 0)
		}
		m = M{"type": "object", "properties": props}
	}
	return m
}

func (g *SGen) name() string {
	if g.R.Chance(g.Odd) {
		return Pick(g.R, "a.b", "é ", "q\"t", "back\\slash", "type", "items", "properties", "definitions", "format", "[*]", "$", "A", "allOf")
	}
	return Pick(g.R, "a", "b", "c", "d", "e", "url", "title", "tags", "byline", "x1", "x2")
}

// ref returns a reference from file i, or nil when there is nothing to refer to. nd is the number
// of the first definition of the file that may be referred to.
func (g *SGen) ref(i, nd int, fileOnly bool) M {
	var to []int
	for j := range g.names {
		if j > i || g.Cyclic && g.R.Chance(g.Back) {
			to = append(to, j)
		}
	}
	if g.Cyclic && g.R.Chance(g.InFile) {
		return M{"$ref": Pick(g.R, "#/definitions/d0", "#/definitions/d1", "#/definitions/d0", "#/properties/a", "#/properties/title", "#")}
	}
	if len(to) == 0 {
		return nil
	}
	j := to[g.R.Intn(len(to))]
	rel := relative(path.Dir(g.names[i]), g.names[j])
	if g.R.Chance(0.1) {
		rel = Pick(g.R, "./"+rel, "x/../"+rel, rel+"#")
	}
	if g.HTTP != nil && g.R.Chance(0.5) {
		rel = g.HTTP(j)
	}
	if g.R.Chance(g.Broken) {
		rel = Pick(g.R, "missing.json", rel+"#/properties/none", "sub/none/f9.json")
	} else if g.R.Chance(max(g.Part, 0.15)) && !fileOnly {
		rel += Pick(g.R, "#/properties/a", "#/definitions/d0", "#/properties/title", "#")
	}
	m := M{"$ref": rel}
	if g.R.Chance(0.15) {
		m["description"] = "beside the reference"
	}
	if g.R.Chance(0.1) { // replaces what it refers to
		m[Pick(g.R, "properties", "properties", "items", "required", "type")] = M{}
		if m["required"] != nil {
			m["required"] = []string{"a"}
		}
		if m["type"] != nil {
			m["type"] = "object"
		}
	}
	return m
}

// relative is filepath.Rel for the slash paths used here.
func relative(dir, file string) string {
	if dir == "." {
		return file
	}
	up := ""
	for d := dir; d != "."; d = path.Dir(d) {
		if len(file) > len(d) && file[:len(d)+1] == d+"/" {
			return up + file[len(d)+1:]
		}
		up += "../"
	}
	return up + file
}

func (g *SGen) maybeRef(i, nd, depth int) M {
	if g.R.Chance(0.35) {
		if nd > 0 && !g.Cyclic && g.R.Chance(0.4) {
			if g.R.Chance(0.2) {
				return M{"$ref": fmt.Sprintf("%s#/definitions/d%d", path.Base(g.names[i]), g.R.Intn(nd))}
			}
			return M{"$ref": fmt.Sprintf("#/definitions/d%d", g.R.Intn(nd))}
		}
		if r := g.ref(i, nd, false); r != nil {
			return r
		}
	}
	return g.instance(i, 0, depth)
}

func (g *SGen) instance(i, nd, depth int) M {
	m := g.plain(i, nd, depth)
	if g.R.Chance(g.Rules) {
		g.rules(m, depth)
	}
	return m
}

// rules adds validation rules.
func (g *SGen) rules(m M, depth int) {
	typ := m["type"]
	if ts, ok := typ.([]string); ok {
		typ = ts[0]
		if typ == "null" {
			typ = ts[1]
		}
	}
	switch typ {
	case "string":
		switch g.R.Intn(4) {
		case 0:
			m["enum"] = []string{"t1", "t2", "x", "t3"}[:g.R.Range(1, 4)]
		case 1:
			m["pattern"] = Pick(g.R, "^t[0-4]$", "^[a-z]", "1")
		case 2:
			m["minLength"] = g.R.Intn(4)
		case 3:
			m["format"] = Pick(g.R, "date-time", "uri", "email", "ipv4")
		}
	case "number", "integer":
		m[Pick(g.R, "minimum", "maximum", "multipleOf")] = g.R.Range(1, 8)
	case "object":
		switch g.R.Intn(7) {
		case 0, 1:
			var req []string
			for k := g.R.Range(1, 3); k > 0; k-- {
				n := g.name()
				dup := false
				for _, o := range req {
					dup = dup || o == n
				}
				if !dup {
					req = append(req, n)
				}
			}
			m["required"] = req
		case 2:
			m["additionalProperties"] = false
		case 3:
			m["minProperties"] = g.R.Intn(4)
			m["maxProperties"] = g.R.Intn(4)
		case 4:
			m["patternProperties"] = M{"^[a-c]$": M{"type": "string"}, "^t": M{"type": Pick(g.R, "string", "array")}, Pick(g.R, "^[n-z]", "[0-9]", "e"): M{"type": Pick(g.R, "string", "number", "null")}}
		case 5:
			deps := M{g.name(): []string{g.name()}, g.name(): M{"required": []string{g.name()}}}
			for k := Pick(g.R, 0, 0, 1, 3, 6); k > 0; k-- {
				deps[g.name()] = []string{g.name(), "none"}
			}
			m["dependencies"] = deps
		case 6:
			m["additionalProperties"] = M{"type": Pick(g.R, "string", "number")}
		}
	case "array":
		switch g.R.Intn(3) {
		case 0:
			m["minItems"] = g.R.Intn(3)
		case 1:
			m["uniqueItems"] = true
		case 2:
			m["maxItems"] = g.R.Intn(3)
		}
	}
	if depth > 0 && g.R.Chance(0.25) {
		var alts []any
		for k := g.R.Range(2, 3); k > 0; k-- {
			a := M{"type": Pick(g.R, "string", "number", "object", "boolean", "array")}
			g.rules(a, 0)
			alts = append(alts, a)
		}
		m[Pick(g.R, "anyOf", "oneOf", "anyOf")] = alts
		if g.R.Chance(0.3) {
			m["not"] = M{"type": Pick(g.R, "string", "number")}
		}
	}
}

func (g *SGen) plain(i, nd, depth int) M {
	switch k := g.R.Intn(10); {
	case k < 5 || depth <= 0:
		m := M{"type": Pick(g.R, "string", "string", "number", "integer", "boolean")}
		if g.R.Chance(0.2) {
			m["description"] = "text"
		}
		if m["type"] == "string" && g.R.Chance(0.2) {
			m["format"] = "date-time"
		}
		g.maybeNull(m)
		return m
	case k < 8:
		m := g.objectInst(i, nd, depth-1)
		g.maybeNull(m)
		return m
	}
	items := g.instance(i, nd, depth-1)
	if g.R.Chance(0.4) {
		if r := g.ref(i, nd, true); r != nil {
			items = r
		}
	}
	m := M{"type": "array", "items": items}
	g.maybeNull(m)
	return m
}

// maybeNull lets the value be null as well.
func (g *SGen) maybeNull(m M) {
	if g.R.Chance(0.1) {
		m["type"] = []string{m["type"].(string), "null"}
		if g.R.Chance(0.5) {
			m["type"] = []string{"null", m["type"].([]string)[0]}
		}
	}
}

func (g *SGen) objectInst(i, nd, depth int) M {
	props := M{}
	for k := g.R.Range(1, 3); k > 0; k-- {
		props[g.name()] = g.maybeRef(i, nd, depth-1)
	}
	return M{"type": "object", "properties": props}
}

// Document returns a document that may or may not meet such schemas. Some differ in a little from
// the one before.
func (g *SGen) Document() string {
	switch {
	case g.last != "" && g.R.Chance(0.15):
		g.last = sibling(g.R, g.last, false)
	case g.last != "" && g.R.Chance(0.2):
		// Another value of another type, all else the same.
		m := Parse(g.last)
		for n := 0; n < 20; n++ {
			at, ks := m, sorted(m)
			for len(ks) > 0 {
				k := ks[g.R.Intn(len(ks))]
				if c, ok := at[k].(map[string]any); ok && len(c) > 0 && g.R.Chance(0.7) {
					at, ks = c, sorted(c)
					continue
				}
				at[k] = Pick[any](g.R, nil, true, g.R.Intn(10), fmt.Sprintf("t%d", g.R.Intn(10)), []any{"x", 1})
				n = 20
				break
			}
		}
		g.last = J(m)
	default:
		g.last = g.document()
	}
	return g.last
}

func (g *SGen) document() string {
	var obj func(depth int) any
	many := g.R.Chance(0.15)
	obj = func(depth int) any {
		m := M{}
		if many && g.R.Chance(0.5) {
			for k := g.R.Range(5, 25); k > 0; k-- {
				m[fmt.Sprint(Pick(g.R, "t", "x", "n", "e"), k)] = Pick[any](g.R, 1, "t1", true, nil)
			}
		}
		for k := g.R.Intn(6); k > 0; k-- {
			var v any
			switch g.R.Intn(7) {
			case 0:
				v = g.R.Intn(10)
			case 1:
				v = g.R.Chance(0.5)
			case 2:
				v = nil
			case 3:
				v = []any{"x", g.R.Intn(3)}
			case 4:
				if depth > 0 {
					v = obj(depth - 1)
					break
				}
				fallthrough
			default:
				v = fmt.Sprintf("t%d", g.R.Intn(10))
			}
			m[g.name()] = v
		}
		return m
	}
	top := obj(2)
	if g.R.Chance(0.15) {
		top.(M)["A"] = strings.Repeat(filler, simrt.Pick(g.R, 1, 5, 20))
	}
	return J(top)
}
