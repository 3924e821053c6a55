package wl

import (
	"fmt"
	"sort"
	"strings"
)

// GenSpec is one generation: schema files, options and places.
type GenSpec struct {
	Files []File // the first is the schema to generate from
	Pkg   string // name of the output directory and package

	Avro, Msgp, GraphQL        bool
	NoNested, Pointers, Embed  bool
	InterfaceFiles, DescAsTag  bool
	ScalarAny, GraphQLApart    bool
	Rename, RenameF, RenameGQL map[string]string `json:",omitempty"`
}

// GGen generates schemas for the code generator.
type GGen struct {
	R     *R
	Avro  bool
	GQL   bool
	NoNst bool
	Crash bool // also awkward names that may be refused
	depth int
}

var genWords = []string{"title", "name", "id", "crops", "tags", "body", "links", "width", "price", "published", "author", "assets", "meta", "kind", "foo", "bar", "URL", "seo", "items", "values"}

func (g *GGen) word() string {
	w := Pick(g.R, genWords...)
	if g.R.Chance(0.25) {
		w += Pick(g.R, "A", "B", "2", "Date", "List", "Name")
	}
	if g.R.Chance(0.03) {
		w = strings.ToUpper(w[:1]) + w[1:]
	}
	if g.GQL && g.R.Chance(0.03) {
		w = "total" + strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}

func (g *GGen) desc(m M, p float64) {
	if g.R.Chance(p) {
		m["description"] = Pick(g.R, "a thing", "The title of the item", "first line\nsecond line", "DEPRECATED: use another\nold text", "DEPRECATED: gone", "Unicode é — “x”", "with % and {{ braces }}")
	}
}

func (g *GGen) typ(t string, p float64) any {
	if g.R.Chance(p) {
		if g.R.Chance(0.5) {
			return []string{t, "null"}
		}
		return []string{"null", t}
	}
	return t
}

func (g *GGen) props(depth, lo, hi int) (M, []string) {
	props := M{}
	for n := g.R.Range(lo, hi); n > 0; n-- {
		props[g.word()] = g.inst(depth)
	}
	if !g.Avro && g.R.Chance(0.12) { // names that differ in case only
		n := Pick(g.R, sorted(props)...)
		if i := g.R.Intn(len(n)); i > 0 {
			v := n[:i] + strings.ToUpper(n[i:i+1]) + n[i+1:]
			props[v] = g.inst(depth)
			if depth > 0 && g.R.Chance(0.7) {
				props[n], props[v] = g.object(depth), g.object(depth)
			}
		}
	}
	names := sorted(props)
	var req []string
	for _, n := range names {
		if g.R.Chance(0.35) {
			req = append(req, n)
		}
	}
	return props, req
}

func (g *GGen) object(depth int) M {
	m := M{"type": g.typ("object", 0.06)}
	p, req := g.props(depth-1, 1, 4)
	m["properties"] = p
	if len(req) > 0 {
		m["required"] = req
	}
	g.desc(m, 0.2)
	return m
}

func (g *GGen) inst(depth int) M {
	null := 0.08
	if g.Avro {
		null = 0.01
	}
	x := g.R.Intn(100)
	switch {
	case x < 18 && depth > 0:
		return g.object(depth)
	case x < 36:
		m := M{"type": g.typ("array", 0.03)}
		switch y := g.R.Intn(10); {
		case y < 4 && depth > 0:
			m["items"] = g.object(depth)
		case y == 4 && !g.Avro:
			m["items"] = M{"type": "string", "format": "date-time"}
		case y == 5 && depth > 0 && g.Crash:
			m["items"] = M{"type": "array", "items": M{"type": "string"}}
		default:
			m["items"] = M{"type": Pick(g.R, "string", "string", "number", "integer", "boolean")}
		}
		g.desc(m, 0.2)
		return m
	case x < 40 && !g.Avro:
		m := M{"type": "object", "properties": M{}}
		g.desc(m, 0.2)
		return m
	case x < 48 && g.GQL:
		m := M{"type": "graphql-hydration", "target": Pick(g.R, "Asset", "[Asset!]!", "User")}
		if g.R.Chance(0.4) {
			m["graphql-arguments"] = Pick(g.R, []string{"id: String!"}, []string{"\"which\"", "first: Int", "", "after: String"})
		}
		g.desc(m, 0.4)
		return m
	case x < 58:
		m := M{"type": "string", "format": "date-time"}
		g.desc(m, 0.2)
		return m
	}
	m := M{"type": g.typ(Pick(g.R, "string", "string", "string", "number", "integer", "boolean"), null)}
	if g.R.Chance(0.1) {
		m["format"] = "uri"
	}
	g.desc(m, 0.25)
	if g.R.Chance(0.1) {
		m["transform"] = M{"sim": M{"from": []any{M{"jsonPath": "$.x"}}}}
	}
	return m
}

func (g *GGen) top(lo, hi int) M {
	m := M{"$schema": "http://json-schema.org/draft-04/schema#", "type": "object"}
	p, req := g.props(g.R.Range(1, 3), lo, hi)
	m["properties"] = p
	if len(req) > 0 {
		m["required"] = req
	}
	g.desc(m, 0.2)
	return m
}

// Gen returns a generation.
func (g *GGen) Gen() GenSpec {
	r := g.R
	s := GenSpec{
		Pkg:     Pick(r, "model", "article", "pkg", "doc"),
		Msgp:    r.Chance(0.4),
		GraphQL: r.Chance(0.4),
		Avro:    r.Chance(0.4),
	}
	s.NoNested, s.Pointers, s.Embed = r.Chance(0.5), r.Chance(0.3), r.Chance(0.5)
	s.InterfaceFiles, s.DescAsTag = r.Chance(0.5), r.Chance(0.5)
	s.ScalarAny, s.GraphQLApart = r.Chance(0.3), r.Chance(0.3)
	if s.Avro && s.Pointers && r.Chance(0.7) {
		s.Pointers = false
	}
	g.Avro, g.GQL, g.NoNst = s.Avro, s.GraphQL && !s.Avro && !s.Msgp, s.NoNested
	root := Pick(r, "doc", "item", "page")
	put := func(name string, m M) { s.Files = append(s.Files, File{name, J(m)}) }
	switch x := r.Intn(10); {
	case x < 4: // one file
		put(root+".json", g.top(1, 7))
	case x < 6: // parts by reference
		m := g.top(1, 5)
		p := m["properties"].(M)
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			p[g.word()] = M{"$ref": fmt.Sprintf("part%d.json", i)}
		}
		put(root+".json", m)
		for i := 0; i < n; i++ {
			put(fmt.Sprintf("part%d.json", i), g.top(1, 3))
		}
	default: // allOf and oneOf
		m := M{"$schema": "http://json-schema.org/draft-04/schema#", "type": "object"}
		var later []File
		names := []string{"image", "text", "video", "gallery"}
		if r.Chance(0.8) {
			all := []any{M{"$ref": "./base.json"}}
			later = append(later, File{"base.json", J(g.top(1, 4))})
			if r.Chance(0.3) {
				all = append(all, M{"$ref": "./extra.json"})
				later = append(later, File{"extra.json", J(g.top(1, 3))})
			}
			m["allOf"] = all
		}
		if m["allOf"] == nil || r.Chance(0.8) {
			var one []any
			for i := r.Range(1, 3); i > 0; i-- {
				n := names[i]
				if r.Chance(0.3) {
					n = root + strings.ToUpper(n[:1]) + n[1:]
				}
				one = append(one, M{"$ref": "./" + n + ".json"})
				t := g.top(1, 4)
				if r.Chance(0.25) {
					t["allOf"] = []any{M{"$ref": "./shared.json"}}
				}
				later = append(later, File{n + ".json", J(t)})
			}
			m["oneOf"] = one
			later = append(later, File{"shared.json", J(g.top(1, 3))})
		}
		if r.Chance(0.15) {
			p, _ := g.props(1, 1, 2)
			m["properties"] = p
		}
		put(root+".json", m)
		s.Files = append(s.Files, later...)
	}
	if r.Chance(0.3) {
		s.RenameF = map[string]string{}
		for i := r.Range(1, 3); i > 0; i-- {
			s.RenameF[g.word()] = Pick(r, "Renamed", "other", "alias") + fmt.Sprint(i)
		}
	}
	if r.Chance(0.25) {
		s.Rename = map[string]string{}
		for i := r.Range(1, 2); i > 0; i-- {
			f := s.Files[r.Intn(len(s.Files))].Name
			s.Rename[strings.TrimSuffix(f, ".json")] = Pick(r, "Renamed", "Other") + fmt.Sprint(i)
		}
	}
	if s.GraphQL && r.Chance(0.25) {
		f := s.Files[r.Intn(len(s.Files))].Name
		s.RenameGQL = map[string]string{strings.TrimSuffix(f, ".json"): "GQL", "DocMeta": "GMeta"}
	}
	return s
}

// Older returns another version of the schema with the same files and options.
func (g *GGen) Older(s GenSpec) GenSpec {
	o := s
	o.Files = nil
	g.Avro, g.GQL, g.NoNst = s.Avro, s.GraphQL && !s.Avro && !s.Msgp, s.NoNested
	for _, f := range s.Files {
		m := Parse(f.Text)
		if p, ok := m["properties"].(map[string]any); ok {
			ks := make([]string, 0)
			for k := range p {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				switch q := p[k].(type) {
				case map[string]any:
					if q["$ref"] == nil && g.R.Chance(0.35) {
						p[k] = g.inst(1)
					}
				}
			}
			for i := g.R.Intn(3); i > 0; i-- {
				p[g.word()] = g.inst(2)
			}
		}
		o.Files = append(o.Files, File{f.Name, J(m)})
	}
	if g.R.Chance(0.3) {
		o.DescAsTag = !o.DescAsTag
	}
	return o
}
