package harness

import (
	"encoding/json"
	"sync"
	"time"

	"verifsim/simrt"
)

// minimise makes the case smaller while a fresh process keeps failing in the same way.
func (d *driver) minimise(cs *Case, limit time.Duration) *Case {
	start := time.Now()
	best := *cs
	fails := func(c *Case) (*Case, bool) {
		res, stderr := d.attempt(c, 15*time.Second)
		if res.Skip || res.Class != cs.Class || res.Known != "" {
			return nil, false
		}
		n := *c
		n.Detail = res.Detail
		if stderr != "" {
			n.Report = clip(stderr, 6000)
		}
		if n.Sched.Mode != "list" && len(res.Out.Decisions) > 0 {
			l := n
			l.Sched = simrt.Schedule{Seed: n.Sched.Seed, Mode: "list", List: res.Out.Decisions}
			return &l, true
		}
		return &n, true
	}
	// pass tries the candidates of the current case in order. After a success it goes on from the
	// same place among the candidates of the smaller case.
	pass := func(until time.Duration, cands func(from, n int) [][]*Case) bool {
		progress := false
		for i := 0; time.Since(start) < until; {
			list := cands(i, 8)
			n := len(list)
			if n == 0 {
				break
			}
			got := make([]*Case, n)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, c := range list[j] {
						if g, ok := fails(c); ok {
							got[j] = g
							return
						}
					}
				}()
			}
			wg.Wait()
			hit := -1
			for j, g := range got {
				if g != nil {
					best, hit = *g, j
					break
				}
			}
			if hit < 0 {
				i += n
				continue
			}
			progress = true
			i += hit
		}
		return progress
	}
	specs := func(from, n int) (out [][]*Case) {
		var v any
		if json.Unmarshal(best.Spec, &v) != nil {
			return nil
		}
		shrinkValue(v, func(w func() any) bool {
			if from--; from >= 0 {
				return true
			}
			b, err := json.Marshal(w())
			if err != nil {
				b = best.Spec
			}
			c := best
			c.Spec = b
			alts := []*Case{&c}
			if !d.c.Sequential {
				// The old decisions mean little to a smaller workload: also search a little.
				for k, s := range []simrt.Schedule{{Mode: "seq"}, {Mode: "pct", D: 1}, {Mode: "pct", D: 3}, {Mode: "geo", Mean: 20}} {
					e := c
					s.Seed = best.Seed + uint64(k)
					e.Sched = s
					alts = append(alts, &e)
				}
			}
			out = append(out, alts)
			return len(out) < n
		})
		return out
	}
	lists := func(from, n int) (out [][]*Case) {
		if best.Sched.Mode != "list" {
			return nil
		}
		all := shrinkList(best.Sched.List)
		for _, l := range all[min(from, len(all)):min(from+n, len(all))] {
			c := best
			c.Sched = simrt.Schedule{Seed: best.Sched.Seed, Mode: "list", List: l}
			out = append(out, []*Case{&c})
		}
		return out
	}
	for progress := true; progress && time.Since(start) < limit; {
		progress = pass(limit*2/3, specs)
		if pass(limit, lists) {
			progress = true
		}
	}
	return &best
}

func shrinkList(l []simrt.Decision) [][]simrt.Decision {
	var out [][]simrt.Decision
	out = append(out, nil)
	for n := len(l) / 2; n > 0; n /= 2 {
		out = append(out, l[:len(l)-n])
	}
	for n := len(l) / 2; n > 0 && len(out) < 120; n /= 2 {
		for i := 0; i+n <= len(l) && len(out) < 120; i += n {
			c := append([]simrt.Decision{}, l[:i]...)
			out = append(out, append(c, l[i+n:]...))
		}
	}
	if len(l) < 60 {
		for i := range l {
			if l[i].B < 1<<60 {
				c := append([]simrt.Decision{}, l...)
				c[i].B = 1 << 62
				out = append(out, c)
			}
			if l[i].T != 0 {
				c := append([]simrt.Decision{}, l...)
				c[i].T = 0
				out = append(out, c)
			}
		}
	}
	return out
}

// shrinkValue yields smaller variants of a JSON value, the boldest first, until yield returns false. A variant
// is made only when it is asked for.
func shrinkValue(v any, yield func(func() any) bool) bool {
	switch x := v.(type) {
	case []any:
		for n := len(x); n > 0; n /= 2 {
			for i := 0; i+n <= len(x); i += n {
				if !yield(func() any { return append(append([]any{}, x[:i]...), x[i+n:]...) }) {
					return false
				}
			}
		}
		for i := range x {
			if !shrinkValue(x[i], func(w func() any) bool {
				return yield(func() any {
					c := append([]any{}, x...)
					c[i] = w()
					return c
				})
			}) {
				return false
			}
		}
	case map[string]any:
		keys := sortedKeys(x)
		for _, k := range keys {
			if !yield(func() any {
				c := map[string]any{}
				for k2, w := range x {
					if k2 != k {
						c[k2] = w
					}
				}
				return c
			}) {
				return false
			}
		}
		for _, k := range keys {
			if !shrinkValue(x[k], func(w func() any) bool {
				return yield(func() any {
					c := map[string]any{}
					for k2, y := range x {
						c[k2] = y
					}
					c[k] = w()
					return c
				})
			}) {
				return false
			}
		}
	case float64:
		var out []float64
		if x != 0 {
			out = append(out, 0)
			if h := float64(int64(x / 2)); h != 0 && h != x {
				out = append(out, h)
			}
			if x == float64(int64(x)) && x > 1 && x < 1000 {
				out = append(out, x-1)
			}
		}
		for _, f := range out {
			if !yield(func() any { return f }) {
				return false
			}
		}
	case bool:
		return !x || yield(func() any { return false })
	case string:
		// A string may hold a JSON document (schemas, inputs): shrink it as one.
		var w any
		if len(x) > 1 && (x[0] == '{' || x[0] == '[') && json.Unmarshal([]byte(x), &w) == nil {
			return shrinkValue(w, func(y func() any) bool {
				return yield(func() any {
					b, err := json.Marshal(y())
					if err != nil {
						return x
					}
					return string(b)
				})
			})
		}
		if len(x) > 0 && !yield(func() any { return "" }) {
			return false
		}
		if len(x) > 4 {
			return yield(func() any { return x[:len(x)/2] })
		}
	}
	return true
}

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}
