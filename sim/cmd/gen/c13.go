package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type cutOff struct {
	Way  way
	Plan []hit
	Loss uint64 // seed of what a power failure takes
}

type history struct {
	Done bool     // a complete generation of the older version came first
	Cuts []cutOff // generations that are cut off, one after the other
	Way  way      // the last, healthy one
	Same bool     // in the process of a failed one; otherwise in a new process
}

type c13Spec struct {
	Target    *wl.GenSpec
	Older     *wl.GenSpec
	Histories []history
}

var c13 = &harness.Check{
	ID:        "C13",
	Title:     "Generation can be repeated after a crash",
	Quick:     1400,
	Thorough:  40000,
	Schedules: 2,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption, file operations included) was not seen before",
	Real:      []string{"generate (all generators)", "the command's main function", "jsonschema", "gogen-avro, msgp, goimports and go/format", "files in a scratch directory"},
	Stub:      []string{"outcome of file operations", "the go command asked by goimports", "goroutine scheduler", "clock", "runtime random numbers", "process exit"},
	Kinds:     []string{"crash-at-*", "power-at-*", "open-*", "create-*", "read-*", "write-* (whole or torn)", "close-*", "stat-*", "dir-*", "mkdir-*", "disk-full", "disk-brief", "disk-readonly"},
	New:       func() any { return &c13Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c13Spec{Target: genSpec(r)}
		g := &wl.GGen{R: r}
		o := g.Older(*s.Target)
		s.Older = &o
		for i := r.Range(3, 5); i > 0; i-- {
			h := history{Done: r.Chance(0.2), Way: way{CLI: r.Chance(0.2), Here: r.Chance(0.3)}, Same: r.Chance(0.3)}
			for j := simrt.Pick(r, 1, 1, 1, 2, 3); j > 0; j-- {
				c := cutOff{Way: way{CLI: r.Chance(0.2), Here: r.Chance(0.3)}, Loss: r.Uint64()}
				c.Plan = []hit{randomHit(r, true)}
				if c.Plan[0].Class == "read" || c.Plan[0].Class == "stat" || c.Plan[0].Class == "open" {
					c.Plan[0].Class = simrt.Pick(r, "any", "write", "create", "close")
				}
				h.Cuts = append(h.Cuts, c)
			}
			s.Histories = append(s.Histories, h)
		}
		return s
	},
	Run: runC13,
}

func runC13(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c13Spec)
	defer clean()
	ref := refer(spec, spec.Target)
	res.State = harness.Hash(fmt.Sprint(ref.files, spec.Histories))
	add(&res, ref.genResult)
	if !ref.ok {
		res.Probes["refused"]++
		return
	}
	res.Probes["generated"]++
	for i, h := range spec.Histories {
		fresh()
		p := place{filepath.Join(root, "a")}
		p.setup(spec.Target)
		next := sched
		if s := &next; s.Mode != "list" {
			s.Seed += uint64(i) * 7919
		}
		old := map[string]string{} // files that only the older version has
		what := ""
		reset()
		if h.Done {
			p.setup(spec.Older)
			o := generation(p, spec.Older, way{}, simrt.Schedule{Seed: 5, Mode: "seq"}, nil, nil)
			if !o.ok {
				continue
			}
			res.Runs++
			old = p.files(spec.Target)
			p.setup(spec.Target)
			reset()
		}
		for j, c := range h.Cuts {
			seq := simrt.Schedule{Seed: next.Seed + 10 + uint64(j), Mode: "geo", Mean: 40}
			g := generation(p, spec.Target, c.Way, seq, c.Plan, ref.disk.log)
			res.Runs++
			d := res.Out
			add(&res, g)
			res.Out.Decisions = d.Decisions
			if g.disk.power {
				g.disk.losePower(simrt.NewRand(c.Loss))
			}
			what += " " + g.faults()
			if res.Class, res.Detail = broken(g); res.Class != "" {
				return
			}
			if !h.Same || g.disk.dead {
				reset()
			}
		}
		if len(h.Cuts) > 0 {
			res.Faults["history-of-"+fmt.Sprint(len(h.Cuts))]++
		}
		g := generation(p, spec.Target, h.Way, next, nil, nil)
		res.Runs++
		add(&res, g)
		if res.Class, res.Detail = broken(g); res.Class != "" {
			return
		}
		got := p.files(spec.Target)
		res.Trace = harness.Hash(fmt.Sprint(res.Trace), fmt.Sprint(got))
		if !g.ok {
			res.Class, res.Detail = "not-repeatable", fmt.Sprintf("after%s the generation gives %s", what, g)
			return
		}
		c, d := differ(ref.files, got, func(n string) bool {
			_, ok := old[n]
			return ok || !generated(n)
		})
		if c != "" {
			res.Class, res.Detail = c, fmt.Sprintf("after%s and a healthy generation %s", what, d)
			return
		}
	}
	return
}

// generated says whether a file has the name of generated output rather than of something put
// aside on the way.
func generated(name string) bool {
	switch filepath.Ext(name) {
	case ".go", ".avsc", ".graphqls":
		return !strings.HasPrefix(filepath.Base(name), ".")
	}
	return false
}
