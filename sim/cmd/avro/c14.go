package main

import (
	"reflect"
	"strings"
	"time"

	"verifsim/harness"
	"verifsim/simrt"
)

var c14 = &harness.Check{
	ID:        "C14",
	Title:     "Bulk Avro writing delivers every item once, in order",
	Quick:     6000,
	Thorough:  80000,
	Schedules: 4,
	Rule:      "a run counts when its interleaving (sequence of task and program point at every resumption) was not seen before",
	Real:      real,
	Stub:      stub,
	Kinds:     []string{"preemption", "writer-error", "writer-short", "writer-eof", "writer-once", "slow-writer"},
	Assume:    assume,
	New:       func() any { return &avroSpec{} },
	Gen:       func(r *simrt.Rand, tier string) any { return workload(r, 0.85, 0.05, r.Chance(0.7)) },
	Run: func(v any, sched simrt.Schedule) (res harness.Result) {
		empty := ""
		res = runAvro(v, sched, func(o *outcome, vals []any, fail func(class, format string, args ...any)) {
			if o.job.Kind != "bulk" {
				return
			}
			if !o.called || !o.returned {
				fail("hang", "%v did not return", o)
				return
			}
			if len(o.errs) > 1 {
				fail("errors", "%v delivered %d errors: %q", o, len(o.errs), o.errs)
			}
			if o.late {
				fail("errors", "%v delivered an error after it had closed the channel", o)
			}
			if o.job.Recv != "never" && !o.closed {
				fail("close", "%v did not close its error channel", o)
			}
			if o.early {
				fail("close", "%v closed its error channel without an error before the request channel was closed: %s", o, describe(o))
			}
			if o.fault {
				if o.job.Recv != "never" && len(o.errs) != 1 {
					fail("errors", "%v: a write failed and %d errors were delivered: %s", o, len(o.errs), describe(o))
				}
				// What was written before the failure is the first items.
				recs, _ := decodeContainer(o.data.Bytes())
				if len(recs) > len(o.job.Items) {
					fail("items", "%v: %d items, %d records were written before the failure", o, len(o.job.Items), len(recs))
					return
				}
				checkItems(o, recs, vals, fail)
				return
			}
			if len(o.errs) != 0 {
				fail("errors", "%v: every write succeeded and an error was delivered: %q", o, o.errs)
			}
			if !o.ended {
				fail("hang", "%v takes no more items although every write succeeded", o)
				return
			}
			recs, err := decodeContainer(o.data.Bytes())
			if err != nil {
				if len(o.sent) == 0 && o.data.Len() == 0 {
					empty = o.String()
					return
				}
				fail("container", "%v: the container cannot be read: %v (%s)", o, err, describe(o))
				return
			}
			if len(recs) != len(o.sent) {
				fail("items", "%v: %d items were sent, %d records were written", o, len(o.sent), len(recs))
				return
			}
			checkItems(o, recs, vals, fail)
		})
		switch {
		case res.Class == "" && empty != "":
			res.Class, res.Detail = "empty", empty+" of no items wrote nothing at all, which is not a container file"
			res.Known = "no-items"
		case res.Class == "panic" && nilItem(v.(*avroSpec)) && strings.Contains(res.Detail, "nil pointer dereference"):
			res.Known = "nil-item"
		}
		return
	},
}

// nilItem says whether a nil item is sent whose type has a nested object that its record cannot leave out.
func nilItem(s *avroSpec) bool {
	for _, js := range s.Threads {
		for _, j := range js {
			if j.Kind != "bulk" || typeByName[j.Type] == nil || !nested(j.Type) {
				continue
			}
			for _, i := range j.Items {
				if i < 0 {
					return true
				}
			}
		}
	}
	return false
}

func nested(name string) bool {
	for _, f := range fields(reflect.ValueOf(typeByName[name].zero()).Elem()) {
		if f.Kind() == reflect.Struct && f.Type() != timeType {
			return true
		}
	}
	return false
}

// checkItems compares the records with the items that were sent.
func checkItems(o *outcome, recs []record, vals []any, fail func(class, format string, args ...any)) {
	for n, rec := range recs {
		i := o.job.Items[n]
		var v any = typeByName[o.job.Type].null()
		if i >= 0 {
			v = vals[i]
		}
		if d := checkRecord(rec, v, i < 0); d != "" {
			fail("items", "%v, item %d: %s", o, n, d)
			return
		}
		ms := rec["AvroWriteTime"].(int64)
		if !o.job.When.Zero && !sameTime(ms, o.asked) {
			fail("time", "%v, item %d: the write time is %d ms, %s was asked for", o, n, ms, o.asked.UTC().Format(time.RFC3339Nano))
		}
		if ms != recs[0]["AvroWriteTime"].(int64) {
			fail("time", "%v, item %d: its write time differs from that of the first item", o, n)
		}
	}
}
