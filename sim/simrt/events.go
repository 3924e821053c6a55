package simrt

import "time"

// Event is one entry of the history of a run.
type Event struct {
	Seq    int
	Thread int // number of the thread (from 0) the recording task descends from, -1 if none
	Kind   string
	Key    string
	Data   string
	Nanos  int64 // simulated time of the bubble
	next   *Event
}

var (
	eventFirst, eventLast *Event
	eventSeq              int
)

// Record appends to the history of the run. It is invisible to the race detector.
//
//go:norace
func Record(kind, key, data string) int {
	e := &Event{Seq: eventSeq, Thread: thread(), Kind: kind, Key: key, Data: data, Nanos: time.SimRawNow()}
	eventSeq++
	if eventLast == nil {
		eventFirst = e
	} else {
		eventLast.next = e
	}
	eventLast = e
	return e.Seq
}

//go:norace
func thread() int {
	t := cur()
	if t == nil {
		return -1
	}
	for t.parent != nil && !t.parent.free {
		t = t.parent
	}
	if t.parent == nil {
		return -1
	}
	return int(t.id) - 1
}

// Count increments a counter of the run, invisible to the race detector, and returns its old value.
//
//go:norace
func Count(key string) int {
	for c := counters; c != nil; c = c.next {
		if c.key == key {
			c.n++
			return c.n - 1
		}
	}
	counters = &counter{key: key, n: 1, next: counters}
	return 0
}

type counter struct {
	key  string
	n    int
	next *counter
}

var counters *counter

// Events returns the history of the last run.
func Events() (out []Event) {
	for e := eventFirst; e != nil; e = e.next {
		out = append(out, *e)
	}
	return
}
