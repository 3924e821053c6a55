package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type c22Trial struct {
	Way  way
	Plan []hit
	Loss uint64
	Same bool // in the process of the one before
}

type c22Spec struct {
	Target  *wl.GenSpec
	Foreign []wl.File // beside the output; the names are relative to the place
	Trials  []c22Trial
}

var c22 = &harness.Check{
	ID:        "C22",
	Title:     "Generation leaves other files alone",
	Quick:     1400,
	Thorough:  30000,
	Schedules: 2,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption, file operations included) was not seen before",
	Real:      []string{"generate (all generators)", "the command's main function", "jsonschema", "gogen-avro, msgp, goimports and go/format", "files in a scratch directory"},
	Stub:      []string{"outcome of file operations", "the go command asked by goimports", "goroutine scheduler", "clock", "runtime random numbers", "process exit"},
	Kinds:     []string{"crash-at-*", "power-at-*", "open-*", "create-*", "read-*", "write-* (whole or torn)", "close-*", "stat-*", "dir-*", "mkdir-*", "disk-full", "disk-brief", "disk-readonly"},
	Assume:    []string{"a file is foreign unless generation announces it or its name is that of an announced file with .tmp added"},
	New:       func() any { return &c22Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c22Spec{Target: genSpec(r)}
		t := s.Target
		p := place{}
		out, gql := p.out(t), p.gql(t)
		stem := strings.TrimSuffix(t.Files[r.Intn(len(t.Files))].Name, ".json")
		for n := r.Range(1, 6); n > 0; n-- {
			code := fmt.Sprintf("package %s\n\n// Own%d is written by hand.\nfunc Own%d() int { return %d }\n", t.Pkg, n, n, r.Intn(1000))
			if r.Chance(0.4) {
				// What another schema has made here is no less foreign.
				code = "// Code generated by github.com/GannettDigital/jstransform; DO NOT EDIT.\n\n" + code
			}
			f := simrt.Pick(r,
				wl.File{Name: out + "/legacy.go", Text: code},
				wl.File{Name: out + "/legacy_avro.go", Text: code},
				wl.File{Name: out + "/legacy_msgp.go", Text: code},
				wl.File{Name: out + "/legacy.avsc", Text: "{\"name\":\"Legacy\",\"type\":\"record\",\"fields\":[]}"},
				wl.File{Name: out + "/avro/legacy/legacy.go", Text: strings.Replace(code, "package "+t.Pkg, "package legacy", 1)},
				wl.File{Name: out + "/legacy.go.tmp", Text: code},
				wl.File{Name: out + "/legacy.graphqls", Text: "type Legacy { id: ID }\n"},
				wl.File{Name: out + "/.gitignore", Text: "*.bak\n"},
				wl.File{Name: out + "/handwritten.go", Text: code},
				wl.File{Name: out + "/" + stem + "_helpers.go", Text: code},
				wl.File{Name: out + "/" + stem + "_test.go", Text: code},
				wl.File{Name: out + "/" + t.Pkg + "_own.go", Text: code},
				wl.File{Name: out + "/" + stem + ".json", Text: "{}"},
				wl.File{Name: out + "/" + stem + ".go.orig", Text: "package broken {"},
				wl.File{Name: out + "/" + stem + ".bak", Text: "x"},
				wl.File{Name: out + "/" + stem + ".avsc", Text: "{}"},
				wl.File{Name: out + "/" + stem + "_avro.go", Text: code},
				wl.File{Name: out + "/" + stem + "_avro_test.go", Text: code},
				wl.File{Name: out + "/" + stem + ".graphqls", Text: "type Legacy { id: ID }\n"},
				wl.File{Name: out + "/avro/" + strings.ToLower(stem) + "/own.go", Text: strings.Replace(code, "package "+t.Pkg, "package "+strings.ToLower(stem), 1)},
				wl.File{Name: out + "/avro/" + strings.ToLower(stem) + "/own_test.go", Text: strings.Replace(code, "package "+t.Pkg, "package "+strings.ToLower(stem), 1)},
				wl.File{Name: out + "/avro/" + strings.ToLower(stem) + "/notes.txt", Text: "mine"},
				wl.File{Name: out + "/README.md", Text: "# by hand"},
				wl.File{Name: out + "/avro/README.md", Text: "# by hand"},
				wl.File{Name: out + "/internal/own.go", Text: "package internal\n"},
				wl.File{Name: out + "/testdata/" + stem + ".go", Text: "package testdata\n"},
				wl.File{Name: gql + "/legacy.graphqls", Text: "type Legacy { id: ID }\n"},
				wl.File{Name: gql + "/" + stem + ".graphql", Text: "type Legacy { id: ID }\n"},
				wl.File{Name: "/src/other.go", Text: "package src\n"},
				wl.File{Name: "/src/" + t.Pkg + ".go", Text: "package src\n"},
				wl.File{Name: "/src/sibling/" + stem + ".go", Text: "package sibling\n"},
				wl.File{Name: "/schemas/" + stem + ".go", Text: "package schemas\n"},
				wl.File{Name: "/schemas/unused.json", Text: "{\"type\":\"object\"}"},
				wl.File{Name: "/schemas/avro/x.go", Text: "package x\n"},
			)
			s.Foreign = append(s.Foreign, f)
		}
		for i := r.Range(2, 5); i > 0; i-- {
			c := c22Trial{Way: way{CLI: r.Chance(0.3), Here: r.Chance(0.3)}, Loss: r.Uint64(), Same: r.Chance(0.3)}
			for j := simrt.Pick(r, 0, 1, 1, 1, 2); j > 0; j-- {
				if r.Chance(0.3) {
					c.Plan = append(c.Plan, outputHit(r, t))
				} else {
					c.Plan = append(c.Plan, randomHit(r, r.Chance(0.5)))
				}
			}
			s.Trials = append(s.Trials, c)
		}
		return s
	},
	Run: runC22,
}

func runC22(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c22Spec)
	defer clean()
	ref := refer(spec, spec.Target)
	res.State = harness.Hash(fmt.Sprint(ref.files, spec))
	add(&res, ref.genResult)
	fresh()
	p := place{filepath.Join(root, "a")}
	p.setup(spec.Target)
	keep := map[string]string{}
	for _, f := range spec.Target.Files {
		keep["schemas/"+f.Name] = f.Text
	}
	for _, f := range spec.Foreign {
		name := strings.TrimPrefix(f.Name, "/")
		if _, ok := ref.files[name]; ok || keep[name] != "" {
			continue // a name that this generation or its schema has
		}
		keep[name] = f.Text
		writeFile(filepath.Join(p.base, name), f.Text)
	}
	reset()
	what := ""
	for i, t := range spec.Trials {
		s := sched
		if i > 0 && s.Mode != "list" {
			s.Seed += uint64(i) * 7919
		}
		if i > 0 && !t.Same {
			reset()
		}
		d := res.Out
		g := generation(p, spec.Target, t.Way, s, t.Plan, ref.disk.log)
		res.Runs++
		add(&res, g)
		if i > 0 {
			res.Out.Decisions = d.Decisions
		}
		if t.Way.CLI {
			res.Probes["command"]++
		}
		switch {
		case g.disk.dead:
			res.Probes["crashed"]++
		case g.ok:
			res.Probes["generated"]++
		default:
			res.Probes["failed"]++
		}
		if g.disk.power {
			g.disk.losePower(simrt.NewRand(t.Loss))
		}
		what += " " + g.faults()
		if res.Class, res.Detail = broken(g); res.Class != "" {
			return
		}
		for _, name := range keys(keep) {
			b, err := os.ReadFile(filepath.Join(p.base, name))
			if err != nil {
				res.Class, res.Detail = "foreign-file-gone", fmt.Sprintf("after%s: %s, which is no output, is gone", what, name)
				return
			}
			if string(b) != keep[name] {
				res.Class, res.Detail = "foreign-file-changed", fmt.Sprintf("after%s: %s, which is no output, has other content: %.200q", what, name, b)
				return
			}
		}
		res.Probes["foreign files checked"] += len(keep)
		for _, name := range g.disk.outside {
			if _, err := os.Lstat(name); err == nil && !g.disk.dead && !strings.HasPrefix(name, "/dev/") {
				res.Class, res.Detail = "stray-file", fmt.Sprintf("after%s: %s was written", what, name)
				return
			}
		}
		outs := []string{rel(p, p.out(spec.Target)) + "/", rel(p, p.gql(spec.Target)) + "/"}
		filepath.WalkDir(p.base, func(name string, e os.DirEntry, err error) error {
			n := rel(p, name)
			if err != nil || e.IsDir() || n == "stdout" || res.Class != "" {
				return nil
			}
			if _, ok := keep[n]; ok {
				return nil
			}
			if !strings.HasPrefix(n, outs[0]) && !strings.HasPrefix(n, outs[1]) {
				res.Class, res.Detail = "stray-file", fmt.Sprintf("after%s: %s has appeared outside the output directories", what, n)
			} else if _, ok := ref.files[n]; !ok && ref.ok && g.ok && res.Probes["crashed"] == 0 {
				res.Class, res.Detail = "stray-file", fmt.Sprintf("after%s: %s has appeared, which is no output", what, n)
			}
			return nil
		})
		if res.Class != "" {
			return
		}
	}
	return
}

func rel(p place, name string) string {
	s, _ := filepath.Rel(p.base, name)
	return s
}
