package main

import (
	"time"

	"verifsim/harness"
	"verifsim/simrt"
)

var c16 = &harness.Check{
	ID:        "C16",
	Title:     "Avro write time follows the clock once",
	Quick:     6000,
	Thorough:  80000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      real,
	Stub:      stub,
	Kinds:     []string{"preemption", "clock-reading", "writer-error", "writer-once", "slow-writer"},
	Assume:    assume,
	New:       func() any { return &avroSpec{} },
	Gen: func(r *simrt.Rand, tier string) any {
		s := workload(r, 0.6, 0.7, r.Chance(0.1))
		s.Clock = genClock(r)
		return s
	},
	Run: func(v any, sched simrt.Schedule) harness.Result {
		return runAvro(v, sched, func(o *outcome, vals []any, fail func(class, format string, args ...any)) {
			// What was written before a failure counts too.
			recs, err := decodeContainer(o.data.Bytes())
			if err != nil && !o.fault {
				return
			}
			for n, rec := range recs {
				ms, ok := rec["AvroWriteTime"].(int64)
				if !ok {
					continue
				}
				if !o.job.When.Zero {
					if !sameTime(ms, o.asked) {
						fail("asked", "%v, record %d: the write time is %d ms, %s was asked for", o, n, ms, o.asked.UTC().Format(time.RFC3339Nano))
					}
					continue
				}
				if ms != recs[0]["AvroWriteTime"].(int64) {
					fail("shared", "%v: record %d has the write time %d, record 0 has %v", o, n, ms, recs[0]["AvroWriteTime"])
				}
				found := false
				for _, c := range o.readings {
					found = found || sameTime(ms, time.Unix(0, c))
				}
				if !found {
					fail("clock", "%v, record %d: the write time is %d ms; the clock was read during the call as (ns) %v", o, n, ms, o.readings)
				}
			}
		})
	},
}
