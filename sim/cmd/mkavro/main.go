// Command mkavro generates, with the code of the current tree, the packages that the avro simulator
// runs, and the file that tells it about them.
//
//	mkavro SCHEMADIR OUTDIR
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GannettDigital/jstransform/generate"
)

var variants = []struct {
	pkg, schema string
	args        generate.BuildArgs
}{
	{"small", "small", generate.BuildArgs{}},
	{"article", "article", generate.BuildArgs{DescriptionAsStructTag: true}},
	{"pointers", "article", generate.BuildArgs{NoNestedStructs: true, Pointers: true}},
	{"named", "article", generate.BuildArgs{NoNestedStructs: true}},
	{"media", "media", generate.BuildArgs{}},
	{"mediap", "media", generate.BuildArgs{NoNestedStructs: true, Pointers: true}},
	{"embedded", "embedded", generate.BuildArgs{EmbedAllOf: true}},
	{"flat", "embedded", generate.BuildArgs{NoNestedStructs: true}},
	{"inlinep", "article", generate.BuildArgs{Pointers: true}},
	{"embedp", "embedded", generate.BuildArgs{EmbedAllOf: true, NoNestedStructs: true, Pointers: true}},
	{"renamed", "renamed", generate.BuildArgs{FieldNameMap: map[string]string{"@id": "Identity", "1st": "First", "second": "Another", "#n": "Number"}, StructNameMap: map[string]string{"renamed": "Other"}}},
}

func main() {
	schemas, out := os.Args[1], os.Args[2]
	var imports, types, resets []string
	for _, v := range variants {
		dir := filepath.Join(out, v.pkg)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal(err)
		}
		args := v.args
		args.SchemaPath = filepath.Join(schemas, v.schema+".json")
		args.OutputDir = dir
		args.GenerateAvro = true
		args.ImportPath = "verifavro/" + v.pkg
		if err := generate.BuildStructsWithArgs(args); err != nil {
			fatal(fmt.Errorf("%s: %v", v.pkg, err))
		}
		imports = append(imports, fmt.Sprintf("\t%q", "verifavro/"+v.pkg))
		resets = append(resets, "\t"+v.pkg+".SimReset()")
		names, err := bulkWriters(dir)
		if err != nil {
			fatal(err)
		}
		for _, n := range names {
			types = append(types, fmt.Sprintf("\tregister(%q, %s.%sBulkAvroWriter)", v.pkg+"."+n, v.pkg, n))
		}
	}
	src := fmt.Sprintf("package main\n\nimport (\n%s\n)\n\nfunc init() {\n%s\n}\n\nfunc resetGenerated() {\n%s\n}\n", strings.Join(imports, "\n"), strings.Join(types, "\n"), strings.Join(resets, "\n"))
	if err := os.WriteFile(filepath.Join(out, "types_gen.go"), []byte(src), 0o644); err != nil {
		fatal(err)
	}
}

// bulkWriters lists the types of the package that have a bulk writer.
func bulkWriters(dir string) (names []string, err error) {
	files, err := filepath.Glob(filepath.Join(dir, "*_avro.go"))
	if err != nil {
		return nil, err
	}
	for _, name := range files {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && strings.HasSuffix(fn.Name.Name, "BulkAvroWriter") {
				names = append(names, strings.TrimSuffix(fn.Name.Name, "BulkAvroWriter"))
			}
		}
	}
	sort.Strings(names)
	return
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mkavro:", err)
	os.Exit(1)
}
