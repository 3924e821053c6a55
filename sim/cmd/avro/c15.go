package main

import (
	"time"

	"verifsim/harness"
	"verifsim/simrt"
)

var c15 = &harness.Check{
	ID:        "C15",
	Title:     "Avro container writing is all or error",
	Quick:     6000,
	Thorough:  80000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      real,
	Stub:      stub,
	Kinds:     []string{"preemption", "writer-error", "writer-short", "writer-eof", "writer-once", "slow-writer"},
	Assume:    assume,
	New:       func() any { return &avroSpec{} },
	Gen:       func(r *simrt.Rand, tier string) any { return workload(r, 0.1, 0.05, r.Chance(0.6)) },
	Run: func(v any, sched simrt.Schedule) harness.Result {
		return runAvro(v, sched, func(o *outcome, vals []any, fail func(class, format string, args ...any)) {
			if o.job.Kind == "bulk" {
				return
			}
			switch {
			case !o.called || !o.returned:
				fail("hang", "%v did not return", o)
				return
			case o.fault && o.success:
				fail("success", "%v reports success although a write failed: %s", o, describe(o))
				return
			case !o.success:
				if !o.fault && o.job.Items[0] >= 0 {
					fail("error", "%v reports an error although every write succeeded: %s", o, describe(o))
				}
				return
			case o.job.Items[0] < 0:
				fail("success", "%v of a nil pointer reports success", o)
				return
			}
			recs, err := decodeContainer(o.data.Bytes())
			if err != nil {
				fail("container", "%v: the container cannot be read: %v (%s)", o, err, describe(o))
				return
			}
			if len(recs) != 1 {
				fail("records", "%v: %d records were written", o, len(recs))
				return
			}
			if d := checkRecord(recs[0], vals[o.job.Items[0]], o.job.Kind == "deleted"); d != "" {
				fail("record", "%v: %s", o, d)
				return
			}
			if ms := recs[0]["AvroWriteTime"].(int64); !o.job.When.Zero && !sameTime(ms, o.asked) {
				fail("time", "%v: the write time is %d ms, %s was asked for", o, ms, o.asked.UTC().Format(time.RFC3339Nano))
			}
		})
	},
}
