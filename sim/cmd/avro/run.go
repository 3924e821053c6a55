package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	"verifsim/harness"
	"verifsim/simrt"
)

const stepLimit = 3000000

// item is a value, shared by the writes that name it.
type item struct {
	Type string
	Doc  string // JSON; "null" stands for a nil pointer
}

// wfault is a failure of the writer given to a write.
type wfault struct {
	At   int    // number of the Write call
	Kind string // "error", "short", "eof", "odd", "once"
	Part float64
}

// when is a requested write time.
type when struct {
	Zero bool  `json:",omitempty"`
	Sec  int64 `json:",omitempty"`
	Nano int64 `json:",omitempty"`
	Zone int   `json:",omitempty"`
	Now  bool  `json:",omitempty"` // the time read from the clock before the call
}

func (w when) time() time.Time {
	loc := time.UTC
	if w.Zone != 0 {
		loc = time.FixedZone("zone", w.Zone)
	}
	switch {
	case w.Now:
		return time.Now()
	case w.Zero:
		return time.Time{}.In(loc)
	}
	return time.Unix(w.Sec, w.Nano).In(loc)
}

// job is one use of a writer.
type job struct {
	Kind   string // "cf", "deleted", "bulk"
	Type   string
	Items  []int // indexes of values; -1 is a nil item
	When   when
	Faults []wfault `json:",omitempty"`
	Slow   []int    `json:",omitempty"` // milliseconds each Write takes, in turn
	Buffer int      `json:",omitempty"` // of the request channel
	Gaps   []int    `json:",omitempty"` // milliseconds before each item, in turn
	Recv   string   `json:",omitempty"` // "with", "beside", "late", "never"
	Open   bool     `json:",omitempty"` // the request channel stays open after an error
	Wait   int      `json:",omitempty"` // milliseconds before the job
	Own    bool     `json:",omitempty"` // the values are filled into objects that the thread uses again and again
}

type avroSpec struct {
	Values  []item
	Threads [][]job
	Clock   *simrt.Clock `json:",omitempty"`
}

// sink is the writer given to a write.
type sink struct {
	id  string
	job *job
}

var errSink = errors.New("simulated failure of the writer")

func (s *sink) Write(p []byte) (int, error) {
	k := simrt.Count("write " + s.id)
	simrt.Yield(22)
	if n := len(s.job.Slow); n > 0 && s.job.Slow[k%n] > 0 {
		simrt.Sleep(time.Duration(s.job.Slow[k%n]) * time.Millisecond)
	}
	for _, f := range s.job.Faults {
		if k < f.At || f.Kind == "once" && k > f.At {
			continue
		}
		n, err := 0, errSink
		switch f.Kind {
		case "short":
			n, err = min(int(f.Part*float64(len(p))), len(p)-1), io.ErrShortWrite
		case "eof":
			err = io.EOF
		case "odd":
			err = simrt.BareError(f.At + int(f.Part*100))
		}
		n = max(n, 0)
		simrt.Record("write", s.id, string(p[:n]))
		simrt.Record("fault", s.id, f.Kind)
		return n, err
	}
	simrt.Record("write", s.id, string(p))
	simrt.Yield(23)
	return len(p), nil
}

// run performs the job on the calling task.
func (j *job) run(id string, vals []any, own map[string][]any) {
	if j.Wait > 0 {
		simrt.Sleep(time.Duration(j.Wait) * time.Millisecond)
	}
	w := &sink{id, j}
	t := j.When.time()
	simrt.Record("asked", id, fmt.Sprintf("%d %d", t.Unix(), t.Nanosecond()))
	g := typeByName[j.Type]
	used := 0
	pick := func(i int) any {
		if i < 0 {
			return g.null()
		}
		if !j.Own {
			return vals[i]
		}
		if used == len(own[j.Type]) {
			own[j.Type] = append(own[j.Type], g.zero())
		}
		x := own[j.Type][used]
		refill(reflect.ValueOf(x).Elem(), reflect.ValueOf(vals[i]).Elem())
		used++
		return x
	}
	if j.Kind != "bulk" {
		var err error
		v := pick(j.Items[0]).(avroWriter)
		simrt.Record("call", id, "")
		if j.Kind == "deleted" {
			err = v.WriteAvroDeletedCF(w, t)
		} else {
			err = v.WriteAvroCF(w, t)
		}
		simrt.Record("return", id, "")
		if j.Own && j.Items[0] >= 0 && !reflect.DeepEqual(v, vals[j.Items[0]]) {
			simrt.Record("changed", id, "")
		}
		if err != nil {
			simrt.Record("error", id, err.Error())
		} else {
			simrt.Record("success", id, "")
		}
		return
	}
	simrt.Record("call", id, "")
	b := g.bulk(w, t, j.Buffer)
	simrt.Record("return", id, "")
	simrt.Yield(24)
	// drain receives until the error channel closes.
	drain := func() {
		for err := range b.errs {
			simrt.Record("error", id, err.Error())
			simrt.Yield(25)
		}
		simrt.Record("closed", id, "")
	}
	var stop chan struct{}
	done := make(chan struct{})
	switch j.Recv {
	case "beside":
		stop = make(chan struct{})
		go func() {
			defer close(done)
			first := true
			for err := range b.errs {
				simrt.Record("error", id, err.Error())
				if first {
					close(stop)
					first = false
				}
				simrt.Yield(25)
			}
			simrt.Record("closed", id, "")
			if first {
				close(stop)
			}
		}()
	}
	failed, closed := false, false
send:
	for n, i := range j.Items {
		if len(j.Gaps) > 0 && j.Gaps[n%len(j.Gaps)] > 0 {
			simrt.Sleep(time.Duration(j.Gaps[n%len(j.Gaps)]) * time.Millisecond)
		}
		var timeout <-chan time.Time
		if j.Recv == "late" || j.Recv == "never" {
			timeout = time.After(time.Hour)
		}
		r := b.send(pick(i), stop, timeout)
		switch {
		case r.sent:
			simrt.Record("sent", id, strconv.Itoa(i))
		case r.timeout, r.stopped:
			failed = true
			break send
		case r.closed:
			simrt.Record("closed", id, "")
			failed, closed = true, true
			break send
		default:
			simrt.Record("error", id, r.err.Error())
			failed = true
			break send
		}
	}
	if !failed || !j.Open {
		simrt.Record("ended", id, "")
		b.close()
	}
	switch j.Recv {
	case "beside":
		<-done
	case "late":
		simrt.Sleep(time.Minute)
		drain()
	case "never":
		delete(own, j.Type) // the writer may still be reading them
	default:
		if !closed {
			drain()
		}
	}
}

// refill makes dst equal to src without sharing anything with it, in the memory that dst has where that is enough.
func refill(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if dst.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
		}
		refill(dst.Elem(), src.Elem())
	case reflect.Slice:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if dst.IsNil() || dst.Cap() < src.Len() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()+2))
		}
		dst.SetLen(src.Len())
		for i := 0; i < src.Len(); i++ {
			refill(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if dst.IsNil() {
			dst.Set(reflect.MakeMap(src.Type()))
		}
		dst.Clear()
		for it := src.MapRange(); it.Next(); {
			v := reflect.New(src.Type().Elem()).Elem()
			refill(v, it.Value())
			dst.SetMapIndex(it.Key(), v)
		}
	case reflect.Struct:
		if src.Type() == reflect.TypeOf(time.Time{}) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			refill(dst.Field(i), src.Field(i))
		}
	default:
		dst.Set(src)
	}
}

// outcome is the history of one job.
type outcome struct {
	id             string
	job            *job
	asked          time.Time
	data           bytes.Buffer
	writes         int
	fault          bool
	errs           []string
	success        bool
	returned       bool
	closed, ended  bool
	late           bool // an error came after the channel was closed
	sent           []int
	readings       []int64 // of the clock, between call and return
	from, to       int64   // simulated time of call and return
	early          bool    // the channel closed before the request channel did, without an error
	called, inside bool
	changed        bool // the value was, by the call
}

// play runs the workload and sorts its history by job.
func play(spec *avroSpec, sched simrt.Schedule) (out simrt.Outcome, jobs []*outcome, vals []any, skip bool) {
	if len(spec.Threads) == 0 {
		return out, nil, nil, true
	}
	for _, v := range spec.Values {
		g := typeByName[v.Type]
		if g == nil {
			return out, nil, nil, true
		}
		x, err := g.value(v.Doc)
		if err != nil || nilElement(reflect.ValueOf(x)) {
			return out, nil, nil, true
		}
		vals = append(vals, x)
	}
	byID := map[string]*outcome{}
	var threads []simrt.Thread
	for i, js := range spec.Threads {
		for k := range js {
			j := &js[k]
			if typeByName[j.Type] == nil || j.Kind != "bulk" && len(j.Items) != 1 || j.Buffer < 0 || j.Buffer > 1000 {
				return out, nil, nil, true
			}
			for _, n := range j.Items {
				if n >= len(vals) || n >= 0 && spec.Values[n].Type != j.Type {
					return out, nil, nil, true
				}
			}
			o := &outcome{id: fmt.Sprintf("%d.%d", i, k), job: j}
			byID[o.id] = o
			jobs = append(jobs, o)
		}
		threads = append(threads, simrt.Thread{Name: fmt.Sprintf("writer%d", i), Run: func() {
			own := map[string][]any{}
			for k := range js {
				js[k].run(fmt.Sprintf("%d.%d", i, k), vals, own)
			}
		}})
	}
	if spec.Clock != nil {
		simrt.UseClock(*spec.Clock)
		defer simrt.RealClock()
	}
	generate.SimReset()
	resetGenerated()
	out = simrt.Run(sched, stepLimit, threads...)
	for _, e := range simrt.Events() {
		if e.Kind == "now" {
			n, _ := strconv.ParseInt(e.Data, 10, 64)
			for _, o := range jobs {
				if o.inside {
					o.readings = append(o.readings, n)
				}
			}
			continue
		}
		o := byID[e.Key]
		if o == nil {
			continue
		}
		switch e.Kind {
		case "asked":
			var s, n int64
			fmt.Sscan(e.Data, &s, &n)
			o.asked = time.Unix(s, n)
		case "call":
			o.called, o.inside, o.from = true, true, e.Nanos
		case "return":
			o.returned, o.inside, o.to = true, false, e.Nanos
		case "write":
			o.writes++
			o.data.WriteString(e.Data)
		case "fault":
			o.fault = true
		case "sent":
			n, _ := strconv.Atoi(e.Data)
			o.sent = append(o.sent, n)
		case "error":
			o.late = o.late || o.closed
			o.errs = append(o.errs, e.Data)
		case "success":
			o.success = true
		case "ended":
			o.ended = true
		case "changed":
			o.changed = true
		case "closed":
			o.closed = true
			if !o.ended && len(o.errs) == 0 {
				o.early = true
			}
		}
	}
	return
}

// verdict turns what the scheduler saw into a violation, if it saw one.
func verdict(o simrt.Outcome) (class, detail string) {
	switch {
	case o.Races > 0:
		return "race", fmt.Sprintf("%d data race(s)", o.Races)
	case o.Deadlock:
		return "deadlock", fmt.Sprint(o.Stuck)
	case o.Overrun:
		return "no-termination", fmt.Sprint(o.Stuck)
	case len(o.Panics) > 0:
		return "panic", fmt.Sprint(o.Panics)
	case o.Leak:
		return "leak", "a goroutine is blocked for ever after every sender and receiver has finished"
	}
	return "", ""
}

// checkRecord says what is wrong with a record that was written for the value.
func checkRecord(rec record, v any, deleted bool) string {
	d, ok := rec["AvroDeleted"].(bool)
	if !ok {
		return "the record has no deleted mark"
	}
	if d != deleted {
		return fmt.Sprintf("the deleted mark is %v, %v was asked for", d, deleted)
	}
	if _, ok := rec["AvroWriteTime"].(int64); !ok {
		return "the record has no write time"
	}
	if p := reflect.ValueOf(v); !p.IsNil() {
		return compare("record", p.Elem(), any(rec))
	}
	return ""
}

func (o *outcome) String() string {
	return fmt.Sprintf("job %s (%s of %s)", o.id, o.job.Kind, o.job.Type)
}

// runAvro runs a workload and judges every job of it.
func runAvro(v any, sched simrt.Schedule, judge func(o *outcome, vals []any, fail func(class, format string, args ...any))) (res harness.Result) {
	spec := v.(*avroSpec)
	warm()
	res.Probes, res.Faults = map[string]int{}, map[string]int{}
	out, jobs, vals, skip := play(spec, sched)
	if skip {
		res.Skip = true
		return
	}
	res.Out = out
	fail := func(class, format string, args ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(format, args...)
		}
	}
	var tracks []string
	for _, e := range simrt.Events() {
		if e.Kind == "fault" {
			res.Faults["writer-"+e.Data]++
		}
		if e.Kind == "now" {
			res.Faults["clock-reading"]++
		}
		if os.Getenv("SIM_DEBUG") == "3" {
			fmt.Fprintf(os.Stderr, "%d %s %s %q\n", e.Nanos, e.Kind, e.Key, e.Data)
		}
		tracks = append(tracks, e.Kind+e.Key+e.Data)
	}
	for _, o := range jobs {
		j := o.job
		if len(j.Slow) > 0 {
			res.Faults["slow-writer"] += o.writes
		}
		if j.Kind == "bulk" {
			res.Probes[fmt.Sprintf("bulk: receiver %s, fault %v", or(j.Recv, "with"), o.fault)]++
			if o.fault && j.Open {
				res.Probes["bulk: request channel left open after an error"]++
			}
			if o.fault && len(o.sent) > 0 {
				res.Probes["bulk: fault after items were taken"]++
			}
		} else {
			res.Probes[fmt.Sprintf("%s, fault %v", j.Kind, o.fault)]++
		}
		if j.Own {
			res.Probes["values filled into objects used before"]++
		}
		if j.When.Zero {
			res.Probes["no write time asked for"]++
		}
	}
	if c, d := verdict(out); c != "" {
		res.Class, res.Detail = c, d
	} else {
		for _, o := range jobs {
			judge(o, vals, fail)
			if o.changed {
				fail("changed", "%v: the value is not what it was before the call", o)
			}
		}
		for i, x := range vals {
			fresh, err := typeByName[spec.Values[i].Type].value(spec.Values[i].Doc)
			if err == nil && !reflect.DeepEqual(fresh, x) {
				fail("changed", "value %d (%s) is not what it was before it was written", i, spec.Values[i].Type)
			}
		}
	}
	res.Faults["preemption"] += out.Switches
	res.Trace = harness.Hash(tracks...)
	b, _ := json.Marshal(spec)
	res.State = harness.Hash(string(b))
	return
}

// warm fills the caches that the standard library keeps for the life of a process, so that a case
// takes the same course whatever the process did before.
func warm() {
	if warmed {
		return
	}
	warmed = true
	for _, t := range types {
		r := simrt.NewRand(7)
		s := &avroSpec{Values: []item{{t.name, "{}"}}, Clock: genClock(r)}
		for _, recv := range []string{"", "with", "beside", "late"} {
			j := job{Kind: or(recv, "cf"), Type: t.name, Items: []int{0}, Recv: recv, When: when{Now: recv == "late"}}
			if recv != "" {
				j.Kind = "bulk"
			}
			s.Threads = append(s.Threads, []job{j})
		}
		play(s, simrt.Schedule{Seed: 1, Mode: "geo", Mean: 10})
	}
}

var warmed bool

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}
