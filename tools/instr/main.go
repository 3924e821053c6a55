// Command instr writes copies of Go packages with a scheduling point before every statement and a
// SimReset function that gives the package variables their initial values again, and prints the
// "go build -overlay" replacements for them.
//
//	instr OUT.json OUTDIR PKGDIR...
//
// The copies are made by inserting text, so line numbers and behaviour are those of the source.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
}

type pkgVar struct {
	names []string
	deps  map[string]bool
	fn    string
	seq   int
}

func main() {
	if len(os.Args) < 4 {
		fatal(fmt.Errorf("usage: instr OUT.json OUTDIR PKGDIR..."))
	}
	out := os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	replace := map[string]string{}
	for i, dir := range os.Args[3:] {
		if err := instrument(i, dir, out, replace); err != nil {
			fatal(err)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(os.Args[1], b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

// built reports whether the file takes part in a default build.
func built(f *ast.File, name string) bool {
	if strings.HasSuffix(name, "_test.go") {
		return false
	}
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if !constraint.IsGoBuild(c.Text) {
				continue
			}
			x, err := constraint.Parse(c.Text)
			if err != nil {
				continue
			}
			if !x.Eval(func(tag string) bool {
				return tag == runtime.GOOS || tag == runtime.GOARCH || tag == "gc" || tag == "unix" || strings.HasPrefix(tag, "go1.")
			}) {
				return false
			}
		}
	}
	base := strings.TrimSuffix(name, ".go")
	parts := strings.Split(base, "_")
	for _, p := range parts[1:] {
		switch p {
		case "windows", "darwin", "freebsd", "netbsd", "openbsd", "plan9", "js", "wasm", "arm", "arm64", "386", "aix", "solaris", "android", "ios":
			return false
		}
	}
	return true
}

func instrument(n int, dir, out string, replace map[string]string) error {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	fset := token.NewFileSet()
	var vars []*pkgVar
	var inits []string
	funcDeps := map[string]map[string]bool{}
	pkgName := ""
	for fi, name := range names {
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			return err
		}
		if !built(f, filepath.Base(name)) {
			continue
		}
		pkgName = f.Name.Name
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var ins []insertion
		h := fnv.New32a()
		h.Write([]byte(filepath.Base(name)))
		site := h.Sum32() << 12
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				site++
				ins = append(ins, insertion{off(s.Pos()), fmt.Sprintf("simrt.Yield(%d); ", site)})
			}
		}
		ast.Inspect(f, func(node ast.Node) bool {
			switch x := node.(type) {
			case *ast.SwitchStmt:
				// The body's statements are case clauses.
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			}
			return true
		})
		var tail strings.Builder
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					fn := fmt.Sprintf("simInit_%d_%d", fi, len(inits))
					inits = append(inits, fn)
					ins = append(ins, insertion{off(x.Name.Pos()), fn + " /*"}, insertion{off(x.Name.End()), "*/"})
				}
				if x.Body != nil {
					funcDeps[x.Name.Name] = merge(funcDeps[x.Name.Name], idents(x.Body))
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				if x.Doc != nil && strings.Contains(x.Doc.Text(), "go:embed") {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) == 0 {
						for _, id := range vs.Names {
							if id.Name == "_" {
								continue
							}
							fn := fmt.Sprintf("simReset_%d_%d", fi, len(vars))
							fmt.Fprintf(&tail, "\nfunc %s() { simrt.Zero(&%s) }\n", fn, id.Name)
							vars = append(vars, &pkgVar{names: []string{id.Name}, fn: fn, seq: len(vars)})
						}
						continue
					}
					groups := [][2]int{}
					if len(vs.Values) == 1 {
						groups = append(groups, [2]int{0, len(vs.Names)})
					} else {
						for i := range vs.Names {
							groups = append(groups, [2]int{i, i + 1})
						}
					}
					for gi, g := range groups {
						var lhs []string
						named := false
						for _, id := range vs.Names[g[0]:g[1]] {
							lhs = append(lhs, id.Name)
							named = named || id.Name != "_"
						}
						if !named {
							continue
						}
						v := vs.Values[gi]
						fn := fmt.Sprintf("simReset_%d_%d", fi, len(vars))
						fmt.Fprintf(&tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), src[off(v.Pos()):off(v.End())])
						vars = append(vars, &pkgVar{names: lhs, deps: idents(v), fn: fn, seq: len(vars)})
					}
				}
			}
		}
		if len(ins) == 0 && tail.Len() == 0 {
			continue
		}
		ins = append(ins, insertion{off(f.Name.End()), "; import simrt \"verifsim/simrt\""})
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
		var b strings.Builder
		last := 0
		for _, in := range ins {
			b.Write(src[last:in.off])
			b.WriteString(in.text)
			last = in.off
		}
		b.Write(src[last:])
		b.WriteString(tail.String())
		b.WriteString("\nvar _ = simrt.Yield\n")
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(name)))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}
		replace[name] = dst
	}
	if pkgName == "" {
		return fmt.Errorf("no Go files in %s", dir)
	}
	// Variables reset in dependency order, functions seen through.
	owner := map[string]*pkgVar{}
	for _, v := range vars {
		for _, nm := range v.names {
			owner[nm] = v
		}
	}
	var order []string
	state := map[*pkgVar]int{}
	var visit func(v *pkgVar)
	visit = func(v *pkgVar) {
		if state[v] != 0 {
			return
		}
		state[v] = 1
		seen := map[string]bool{}
		var walk func(deps map[string]bool)
		walk = func(deps map[string]bool) {
			var ks []string
			for k := range deps {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if seen[k] {
					continue
				}
				seen[k] = true
				if o := owner[k]; o != nil && o != v {
					visit(o)
				}
				if fd := funcDeps[k]; fd != nil {
					walk(fd)
				}
			}
		}
		walk(v.deps)
		order = append(order, v.fn)
	}
	for _, v := range vars {
		visit(v)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// SimReset gives every package variable its initial value.\nfunc SimReset() {\n", pkgName)
	for _, fn := range order {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	for _, fn := range inits {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	b.WriteString("}\n")
	if len(inits) > 0 {
		b.WriteString("\nfunc init() {\n")
		for _, fn := range inits {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
		b.WriteString("}\n")
	}
	dst := filepath.Join(out, fmt.Sprintf("%d_zsim_reset.go", n))
	if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(dir, "zsim_reset.go")] = dst
	return nil
}

func idents(n ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
	return m
}

func merge(a, b map[string]bool) map[string]bool {
	if a == nil {
		return b
	}
	for k := range b {
		a[k] = true
	}
	return a
}
