package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"verifsim/harness"
	"verifsim/simrt"
	"verifsim/wl"
)

type earlier struct {
	Spec *wl.GenSpec // nil: the target itself, elsewhere
	Way  way
	Plan []hit `json:",omitempty"`
	// Same: the target's schema with these settings, into the target's directory.
	Same                          bool
	NoNested, Pointers, DescAsTag bool
	RenameF                       map[string]string `json:",omitempty"`
}

type c11Spec struct {
	Target  *wl.GenSpec
	Earlier []earlier   `json:",omitempty"`
	Older   *wl.GenSpec `json:",omitempty"` // generated into the same directory before, by another process
	Again   bool        // the target is generated into the same directory twice
	Way     way
	Base    string
	Clock   simrt.Clock
}

var c11 = &harness.Check{
	ID:        "C11",
	Title:     "Generation is reproducible",
	Quick:     2000,
	Thorough:  60000,
	Schedules: 3,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption, map orders included in the seed) was not seen before",
	Real:      []string{"generate (all generators)", "the command's main function", "jsonschema", "gogen-avro, msgp and go/format", "files in a scratch directory"},
	Stub:      []string{"goroutine scheduler", "clock", "runtime random numbers (map order)", "process exit"},
	Kinds:     []string{"earlier-generation", "earlier-failure", "stale-output", "second-generation", "clock", "preemption"},
	New:       func() any { return &c11Spec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := &c11Spec{Target: genSpec(r), Base: simrt.Pick(r, "a", "b", "some/where")}
		s.Way = way{CLI: r.Chance(0.3), Here: r.Chance(0.5)}
		if r.Chance(0.6) {
			for i := r.Range(1, 2); i > 0; i-- {
				e := earlier{Way: way{CLI: r.Chance(0.2)}}
				if r.Chance(0.7) {
					e.Spec = genSpec(r)
				}
				if r.Chance(0.3) {
					e.Plan = []hit{randomHit(r, false)}
				}
				if r.Chance(0.3) {
					e = earlier{Same: true, Way: e.Way, Plan: e.Plan, NoNested: r.Chance(0.5), Pointers: r.Chance(0.5), DescAsTag: r.Chance(0.5)}
					if r.Chance(0.6) {
						e.RenameF = genSpec(r).RenameF
					}
				}
				s.Earlier = append(s.Earlier, e)
			}
		}
		if r.Chance(0.3) {
			g := &wl.GGen{R: r}
			o := g.Older(*s.Target)
			s.Older = &o
		}
		s.Again = r.Chance(0.3)
		s.Clock = simrt.Clock{Start: int64(r.Uint64() >> 1), Steps: []int64{int64(r.Range(-5, 1000)) * 1e9}}
		return s
	},
	Run: runC11,
}

func randomHit(r *simrt.Rand, crash bool) hit {
	h := hit{Class: simrt.Pick(r, "any", "any", "write", "write", "write", "create", "close", "close", "read", "open", "stat", "dir", "mkdir"), At: float64(r.Intn(1000)) / 1000, Part: float64(r.Intn(101)) / 100}
	h.Kind = simrt.Pick(r, "error", "error", "error", "full", "brief", "brief", "readonly", "short")
	if crash && r.Chance(0.75) {
		h.Kind = simrt.Pick(r, "crash", "crash", "power")
	}
	h.Errno = simrt.Pick(r, "EIO", "EIO", "ENOSPC", "EMFILE", "EACCES", "EDQUOT")
	switch h.Class {
	case "read", "stat":
		h.Errno = "EIO"
	case "write", "close":
		h.Errno = simrt.Pick(r, "EIO", "ENOSPC", "EDQUOT")
	}
	return h
}

// outputHit hits an operation on a file of one kind of output.
func outputHit(r *simrt.Rand, s *wl.GenSpec) hit {
	h := randomHit(r, false)
	ext := []string{".go", ".tmp"}
	if s.GraphQL {
		ext = append(ext, ".graphqls", ".graphqls")
	}
	if s.Avro {
		ext = append(ext, ".avsc")
	}
	h.Class = simrt.Pick(r, "write", "write", "close", "close", "create", "create") + simrt.Pick(r, ext...)
	h.Errno = simrt.Pick(r, "EIO", "ENOSPC", "EDQUOT")
	h.Kind = simrt.Pick(r, "error", "error", "error", "full", "brief", "brief", "readonly")
	switch {
	case r.Chance(0.2): // what is read back on the way
		h.Class = simrt.Pick(r, "open.go", "open.go", "read.go", "read.go", "dir", "open.avsc", "read.avsc", "close.go")
		if s.Avro && s.Embed && r.Chance(0.5) {
			h.Class = simrt.Pick(r, "open.go", "read.go")
		}
		h.Errno, h.Kind = simrt.Pick(r, "EIO", "EMFILE"), "error"
	case strings.HasPrefix(h.Class, "create"):
		h.Errno = simrt.Pick(r, "EIO", "ENOSPC", "EACCES", "EACCES", "EMFILE")
		if r.Chance(0.6) {
			h.Kind = "error"
		}
	case strings.HasPrefix(h.Class, "close"):
		h.Kind = "error"
		if r.Chance(0.4) { // nothing is lost this time
			h.Part = 1
		}
	}
	return h
}

func never(string) bool { return false }

func runC11(v any, sched simrt.Schedule) (res harness.Result) {
	spec := v.(*c11Spec)
	defer clean()
	ref := refer(spec, spec.Target)
	res.State = harness.Hash(fmt.Sprint(ref.files), fmt.Sprint(spec.Way, len(spec.Earlier), spec.Older != nil, spec.Again))
	add(&res, ref.genResult)
	seq := func(i uint64) simrt.Schedule { return simrt.Schedule{Seed: sched.Seed + 100 + i, Mode: "seq"} }
	cut := false // an earlier generation into this directory was cut off
	if !ref.ok {
		res.Probes["refused"]++
	} else {
		res.Probes["generated"]++
	}
	fresh()
	p := place{filepath.Join(root, spec.Base)}
	p.setup(spec.Target)
	var stale map[string]string
	if spec.Older != nil {
		// Another process wrote older output here, from older schema files.
		reset()
		p.setup(spec.Older)
		if o := generation(p, spec.Older, way{}, seq(1), nil, nil); o.ok {
			res.Faults["stale-output"]++
			stale = p.files(spec.Target)
		} else {
			fresh()
		}
		p.setup(spec.Target)
	}
	reset()
	simrt.UseClock(spec.Clock)
	defer simrt.RealClock()
	for i, e := range spec.Earlier {
		q := place{fmt.Sprintf("%s/other%d", root, i)}
		s := e.Spec
		switch {
		case e.Same:
			o := *spec.Target
			o.NoNested, o.Pointers, o.DescAsTag, o.RenameF = e.NoNested, e.Pointers, e.DescAsTag, e.RenameF
			q, s = p, &o
		case s == nil:
			s = spec.Target
		}
		q.setup(s)
		g := generation(q, s, e.Way, seq(uint64(10+i)), e.Plan, ref.disk.log)
		res.Runs++
		if g.failed {
			res.Faults["earlier-failure"]++
		} else {
			res.Faults["earlier-generation"]++
		}
		add(&res, g)
		if e.Same {
			res.Faults["same-directory"]++
			cut = cut || !g.ok
			if stale == nil {
				stale = map[string]string{}
			}
			for k, v := range p.files(spec.Target) {
				stale[k] = v
			}
		}
	}
	if spec.Again {
		g := generation(p, spec.Target, way{}, seq(50), nil, nil)
		res.Runs++
		res.Faults["second-generation"]++
		add(&res, g)
	}
	g := generation(p, spec.Target, spec.Way, sched, nil, nil)
	add(&res, g)
	if simrt.ClockReads > 0 {
		res.Faults["clock"]++
	}
	if g.out.Switches > 1 {
		res.Faults["preemption"]++
	}
	if spec.Way.CLI {
		res.Probes["command"]++
	}
	res.Out.Decisions = g.out.Decisions
	if res.Class, res.Detail = broken(g); res.Class != "" {
		return
	}
	got := p.files(spec.Target)
	res.Trace = harness.Hash(fmt.Sprint(res.Trace), fmt.Sprint(got))
	if g.ok != ref.ok {
		res.Class = "other-verdict"
		res.Detail = fmt.Sprintf("%s; the same generation elsewhere: %s", g, ref)
		if cut && ref.ok && foreignAvroFile(res.Detail, ref.files) {
			res.Known = "avro-leftover"
		}
		return
	}
	if ref.ok {
		res.Class, res.Detail = differ(ref.files, got, func(n string) bool { _, ok := stale[n]; return ok })
	}
	return
}

var unparsedAvro = regexp.MustCompile(`failed to parse go files at path "[^"]*/(avro/[^/"]+)": [^ ]*/([^/ :]+\.go):[0-9]+:[0-9]+: `)

// foreignAvroFile says whether the generation failed because of an empty Go file beside the serialization code that is
// none of its own: what a generation with other settings left when it was cut off.
func foreignAvroFile(text string, own map[string]string) bool {
	m := unparsedAvro.FindStringSubmatch(text)
	if m == nil {
		return false
	}
	for n := range own {
		if n == m[1]+"/"+m[2] || strings.HasSuffix(n, "/"+m[1]+"/"+m[2]) {
			return false
		}
	}
	return true
}
