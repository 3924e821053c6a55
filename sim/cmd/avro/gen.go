package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"verifsim/simrt"
)

var (
	real   = []string{"generated Avro writers and record types", "generate (time conversion; it also generates the writers anew from the current tree)", "gogen-avro container and serialization", "snappy", "encoding/json", "race detector"}
	stub   = []string{"goroutine scheduler", "wall clock", "writer", "senders and receivers", "runtime random numbers"}
	assume = []string{
		"the generated code is that of fifteen types from nine generations with different settings",
		"interleavings are explored at statement granularity in the generated code and generate, at the calls of the writer and at channel operations",
		"lists of pointers hold no nil pointer; a writer that takes less than it was given says so with an error, as io.Writer demands",
	}
)

// workload makes values and jobs. bulk is the share of bulk writes, zero that of writes without a time.
func workload(r *simrt.Rand, bulk, zero float64, faults bool) *avroSpec {
	s := &avroSpec{}
	var names []string
	for n := simrt.Pick(r, 1, 1, 1, 2); n > 0; n-- {
		names = append(names, types[r.Intn(len(types))].name)
	}
	byType := map[string][]int{}
	nils := bulk > 0.8 && r.Chance(0.05) // also where a known finding makes them panic
	for _, n := range names {
		for k := r.Range(1, 4); k > 0; k-- {
			d := docFor(r, reflect.TypeOf(typeByName[n].zero()).Elem(), 0)
			b, err := json.Marshal(d)
			if err != nil {
				panic(err)
			}
			byType[n] = append(byType[n], len(s.Values))
			s.Values = append(s.Values, item{n, string(b)})
		}
	}
	spread := func(n int) (out []int) {
		for ; n > 0; n-- {
			out = append(out, simrt.Pick(r, 0, 0, 0, 1, 2, 1000))
		}
		return
	}
	for t := simrt.Pick(r, 1, 2, 2, 3, 4); t > 0; t-- {
		var js []job
		k := simrt.Pick(r, 1, 1, 2, 3)
		if r.Chance(0.005) {
			k = r.Range(10, 60)
		}
		for ; k > 0; k-- {
			n := simrt.Pick(r, names...)
			j := job{Type: n, Kind: simrt.Pick(r, "cf", "cf", "deleted")}
			if r.Chance(zero) {
				j.When = when{Zero: true, Zone: simrt.Pick(r, 0, 0, 3600, -7200)}
			} else {
				j.When = genWhen(r)
			}
			j.Items = []int{simrt.Pick(r, byType[n]...)}
			if r.Chance(0.02) {
				j.Items[0] = -1
			}
			if r.Chance(bulk) {
				j.Kind = "bulk"
				j.Items = nil
				c := simrt.Pick(r, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 5, 8, 8)
				if r.Chance(0.015) {
					c = simrt.Pick(r, r.Range(9, 40), r.Range(40, 300))
				}
				for ; c > 0; c-- {
					i := simrt.Pick(r, byType[n]...)
					if r.Chance(0.1) && (nils || !nested(n)) {
						i = -1
					}
					j.Items = append(j.Items, i)
				}
				j.Buffer = simrt.Pick(r, 0, 0, 0, 1, 3)
				j.Recv = simrt.Pick(r, "with", "with", "beside", "late", "never")
				j.Open = r.Chance(0.3)
				if r.Chance(0.5) {
					j.Gaps = spread(r.Range(1, 3))
				}
			}
			j.Own = r.Chance(0.3)
			if r.Chance(0.3) {
				j.Slow = spread(r.Range(1, 4))
			}
			if r.Chance(0.1) {
				j.Wait = r.Intn(5)
			}
			if faults && r.Chance(0.5) {
				// A header takes about eight calls, a record about five.
				n := 10 + 5*len(j.Items)
				j.Faults = []wfault{{At: r.Intn(n), Kind: simrt.Pick(r, "error", "error", "short", "eof", "odd", "once", "once"), Part: float64(r.Intn(100)) / 100}}
				if r.Chance(0.2) {
					j.Faults = append(j.Faults, wfault{At: r.Intn(n), Kind: "once"})
				}
			}
			js = append(js, j)
		}
		s.Threads = append(s.Threads, js)
	}
	return s
}

func genWhen(r *simrt.Rand) when {
	w := when{Zone: simrt.Pick(r, 0, 0, 3600, -18000, 1)}
	switch r.Intn(8) {
	case 7: // any year with four digits
		w.Sec, w.Nano = time.Date(r.Range(1, 9998), time.Month(r.Range(1, 12)), 3, 4, 5, 6, 0, time.UTC).Unix(), int64(r.Intn(1e9))
	case 0: // anything representable in nanoseconds
		n := int64(r.Uint64())
		w.Sec, w.Nano = n/1e9, n%1e9
	case 1: // around 1970
		n := int64(r.Range(-3e9, 3e9))
		w.Sec, w.Nano = n/1e9, n%1e9
	case 2: // around a change of the millisecond
		w.Sec, w.Nano = int64(r.Intn(2e9)), int64(r.Intn(1000))*1e6+simrt.Pick(r, int64(0), 1, 999999, 500000)
	case 3:
		w.Sec, w.Nano = int64(simrt.Pick(r, 0, 1, -1, 9223372036-1, -9223372036+1, 1<<31, -1<<31)), simrt.Pick(r, int64(0), 1, 999999999)
	case 4:
		w.Now = true
	default:
		w.Sec, w.Nano = int64(r.Intn(2e9)), int64(r.Intn(1e9))
	}
	return w
}

func genClock(r *simrt.Rand) *simrt.Clock {
	c := &simrt.Clock{Start: simrt.Pick(r, int64(1.7e18), 0, -1e6, -1e18, 8e18, int64(r.Intn(2e9))*1e9+int64(r.Intn(1e9))), Real: r.Chance(0.5)}
	for n := r.Range(1, 5); n > 0; n-- {
		c.Steps = append(c.Steps, simrt.Pick(r, int64(0), 1, 1e3, 999999, 1e6, 1e6, 1500000, 1e9, 3600e9, 30*24*3600e9, -1, -1e6, -1e9, -3600e9, -30*24*3600e9, int64(r.Range(-5e9, 5e9))))
	}
	return c
}

func describe(o *outcome) string {
	return fmt.Sprintf("%d writes, %d bytes, fault %v, errors %q", o.writes, o.data.Len(), o.fault, o.errs)
}
