package main

import (
	"fmt"
	"path/filepath"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type trial struct {
	Way   way
	Stale bool // complete output of an earlier generation of another version is there
	Plan  []hit
}

type c12Spec struct {
	Target *wl.GenSpec
	Older  *wl.GenSpec
	Trials []trial
}

var c12 = &harness.Check{
	ID:        "C12",
	Title:     "Generation reports success only for complete output",
	Quick:     2800,
	Thorough:  40000,
	Schedules: 2,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption, file operations included) was not seen before",
	Real:      []string{"generate (all generators)", "the command's main function", "jsonschema", "gogen-avro, msgp, goimports and go/format", "files in a scratch directory"},
	Stub:      []string{"outcome of file operations", "the go command asked by goimports", "goroutine scheduler", "clock", "runtime random numbers", "process exit"},
	Kinds:     []string{"open-*", "create-*", "read-*", "write-* (whole or torn)", "close-*", "stat-*", "dir-*", "mkdir-*", "disk-full", "disk-brief", "disk-readonly", "short-read", "exec-error"},
	New:       func() any { return &c12Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c12Spec{Target: genSpec(r)}
		g := &wl.GGen{R: r}
		o := g.Older(*s.Target)
		s.Older = &o
		cli := r.Chance(0.4)
		for i := r.Range(3, 6); i > 0; i-- {
			t := trial{Way: way{CLI: cli && r.Chance(0.7), Here: r.Chance(0.3)}, Stale: r.Chance(0.25)}
			for j := simrt.Pick(r, 1, 1, 1, 2, 3); j > 0; j-- {
				if r.Chance(0.65) {
					t.Plan = append(t.Plan, outputHit(r, s.Target))
				} else {
					t.Plan = append(t.Plan, randomHit(r, false))
				}
			}
			s.Trials = append(s.Trials, t)
		}
		return s
	},
	Run: runC12,
}

func runC12(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c12Spec)
	defer clean()
	ref := refer(spec, spec.Target)
	res.State = harness.Hash(fmt.Sprint(ref.files, spec.Trials))
	add(&res, ref.genResult)
	if !ref.ok {
		res.Probes["refused"]++
		return
	}
	res.Probes["generated"]++
	for i, t := range spec.Trials {
		fresh()
		p := place{filepath.Join(root, "a")}
		p.setup(spec.Target)
		s := sched
		if i > 0 && s.Mode != "list" {
			s.Seed += uint64(i) * 7919
		}
		var stale map[string]string
		if t.Stale {
			reset()
			p.setup(spec.Older)
			if o := generation(p, spec.Older, way{}, simrt.Schedule{Seed: 5, Mode: "seq"}, nil, nil); o.ok {
				res.Faults["stale-output"]++
				stale = p.files(spec.Target)
			} else {
				fresh()
			}
			p.setup(spec.Target)
			res.Runs++
		}
		reset()
		g := generation(p, spec.Target, t.Way, s, t.Plan, ref.disk.log)
		add(&res, g)
		res.Runs++
		got := p.files(spec.Target)
		res.Trace = harness.Hash(fmt.Sprint(res.Trace), fmt.Sprint(got))
		if t.Way.CLI {
			res.Probes["command"]++
		}
		if res.Class, res.Detail = broken(g); res.Class != "" {
			return
		}
		switch {
		case g.panics != "":
			res.Class, res.Detail = "panic", fmt.Sprintf("%s after %s", g.panics, g.faults())
			return
		case g.failed:
			res.Probes["failure-reported"]++
		case len(g.disk.fired) == 0:
			res.Probes["fault-not-reached"]++
		default:
			res.Probes["success-despite-fault"]++
		}
		if g.ok && len(g.disk.badClose) > 0 {
			res.Class, res.Detail = "close-ignored", fmt.Sprintf("success reported after %s: the close of %s after writing failed", g.faults(), g.disk.badClose[0])
			return
		}
		if g.ok {
			c, d := differ(ref.files, got, func(n string) bool { _, ok := stale[n]; return ok })
			if c != "" {
				res.Class, res.Detail = c, fmt.Sprintf("success reported after %s, but %s", g.faults(), d)
				return
			}
		}
	}
	return
}
