// Package simrt is the simulator: it decides which goroutine of a run proceeds and for how long,
// what the clock says, what the runtime's random numbers are and what the file system answers.
//
// A run executes inside a synctest bubble (fake clock, quiescence detection). Every goroutine of
// the run is a Task. Exactly one task holds the token; it keeps it for a budget of yield points,
// then parks, and the scheduler (the bubble's root goroutine) picks the next holder. Yield points
// are the statements of the instrumented packages, every lock operation and every goroutine start.
//
// Functions that run on task goroutines are excluded from race detection and hide their own
// synchronisation from it, so that the only happens-before edges are those of the code under test.
package simrt

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Task is one simulated goroutine. Its first word is the state of the runtime's random source.
type Task struct {
	rng    uint64
	id     uint64
	parent *Task
	kids   uint64
	name   string

	tok      bool
	budget   int64
	gate     chan struct{}
	waitLock bool
	lockSeen uint64
	free     bool // never scheduled: the root
	site     uint32
	next     *Task // parked list
	fn       unsafe.Pointer

	// Written by the scheduler only.
	prio uint64
}

var (
	parkHead unsafe.Pointer
	parkLock uint32
	notify   chan struct{}
	unlocks  uint64
	yields   uint64
	epoch    uint64
	maxYield uint64
	overrun  bool
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Rand is the simulator's seeded random source.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{mix(seed)} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Chance(p float64) bool { return float64(r.Uint64()>>11)/(1<<53) < p }
func (r *Rand) Range(lo, hi int) int  { return lo + r.Intn(hi-lo+1) }
func Pick[T any](r *Rand, xs ...T) T  { return xs[r.Intn(len(xs))] }

func init() {
	runtime.SimNewproc = newproc
	sync.SimLock = simLock
	sync.SimUnlock = simUnlock
	sync.SimPool = simPool
}

//go:norace
func cur() *Task { return (*Task)(runtime.SimTask()) }

//go:norace
func newTask(parent *Task) *Task {
	t := &Task{parent: parent}
	parent.kids++
	t.id = mix(parent.id ^ mix(parent.kids))
	t.rng = mix(t.id ^ parent.rng)
	t.gate = make(chan struct{})
	return t
}

//go:norace
func newproc(p, fn unsafe.Pointer) (unsafe.Pointer, unsafe.Pointer) {
	t := newTask((*Task)(p))
	if (*Task)(p).free {
		t.free = true // helpers of the root are not scheduled
		return unsafe.Pointer(t), fn
	}
	t.fn = fn
	f := func() {
		// A panic would end the process; here it is reported and ends the goroutine.
		defer func() {
			if r := recover(); r != nil {
				Record("panic", "", fmt.Sprint(r))
			}
		}()
		Yield(2)
		(*(*func())(unsafe.Pointer(&t.fn)))()
	}
	return unsafe.Pointer(t), *(*unsafe.Pointer)(unsafe.Pointer(&f))
}

//go:norace
func simPool() uint64 {
	if t := cur(); t != nil && !t.free {
		return epoch
	}
	return 0
}

//go:norace
func simUnlock() {
	if cur() != nil {
		unlocks++
	}
}

//go:norace
func simLock(try func() bool) bool {
	t := cur()
	if t == nil || t.free {
		return false
	}
	Yield(1)
	for !try() {
		t.waitLock, t.lockSeen = true, unlocks
		park(t)
		t.waitLock = false
	}
	return true
}

// Yield is a scheduling point.
//
//go:norace
func Yield(site uint32) {
	t := cur()
	if t == nil || t.free {
		return
	}
	t.site = site
	yields++
	if t.tok {
		if t.budget--; t.budget > 0 && yields < maxYield {
			return
		}
	}
	park(t)
}

//go:norace
func park(t *Task) {
	t.tok = false
	raceOff()
	for !atomic.CompareAndSwapUint32(&parkLock, 0, 1) {
		runtime.Gosched()
	}
	t.next = (*Task)(parkHead)
	parkHead = unsafe.Pointer(t)
	atomic.StoreUint32(&parkLock, 0)
	select {
	case notify <- struct{}{}:
	default:
	}
	<-t.gate
	raceOn()
}

//go:norace
func takeParked(into []*Task) []*Task {
	raceOff()
	for !atomic.CompareAndSwapUint32(&parkLock, 0, 1) {
		runtime.Gosched()
	}
	for t := (*Task)(parkHead); t != nil; t = t.next {
		into = append(into, t)
	}
	parkHead = nil
	atomic.StoreUint32(&parkLock, 0)
	raceOn()
	return into
}

//go:norace
func blocked(t *Task) bool { return t.waitLock && t.lockSeen == unlocks }

//go:norace
func grant(t *Task, budget int64) {
	t.tok, t.budget = true, budget
	raceOff()
	t.gate <- struct{}{}
	raceOn()
}

//go:norace
func release(t *Task) { t.tok = false }

//go:norace
func siteOf(t *Task) uint32 { return t.site }

// Decision is one scheduling step: the index of the chosen task among the runnable ones in id
// order, and the number of yield points it may pass.
type Decision struct {
	T int   `json:"t"`
	B int64 `json:"b"`
}

// Schedule selects how decisions are made.
type Schedule struct {
	Seed uint64     `json:"seed"`
	Mode string     `json:"mode"`           // "seq", "geo", "pct" or "list"
	Mean int        `json:"mean,omitempty"` // geo: mean budget
	D    int        `json:"d,omitempty"`    // pct: number of priority change points
	List []Decision `json:"list,omitempty"` // list: decisions to replay; then sequential
}

// Outcome describes a finished run.
type Outcome struct {
	Deadlock  bool       `json:"deadlock,omitempty"`
	Stuck     []string   `json:"stuck,omitempty"`
	Overrun   bool       `json:"overrun,omitempty"`
	Leak      bool       `json:"leak,omitempty"` // goroutines stayed blocked after every thread had finished
	Panics    []string   `json:"panics,omitempty"`
	Decisions []Decision `json:"decisions,omitempty"`
	Switches  int        `json:"switches"`
	Yields    uint64     `json:"yields"`
	Hash      uint64     `json:"hash"`   // of the whole interleaving
	SimNanos  int64      `json:"sim_ns"` // simulated time covered
	Races     int        `json:"races"`
}

const never = 1 << 62

// Thread is one task the workload starts with.
type Thread struct {
	Name string
	Run  func()
}

// Run executes the threads under the schedule. limit bounds the number of yield points.
func Run(s Schedule, limit uint64, threads ...Thread) (out Outcome) {
	races := RaceErrors()
	defer func() { out.Races = RaceErrors() - races }()
	defer func() {
		if r := recover(); r != nil {
			// synctest: the root left while goroutines are blocked for ever.
			if _, ok := r.(error); !ok {
				panic(r)
			}
			if !out.Deadlock && !out.Overrun {
				out.Leak = true
			}
		}
	}()
	runtime.SimBubbleRun(func() { out = run(s, limit, threads) })
	return out
}

func run(s Schedule, limit uint64, threads []Thread) (out Outcome) {
	root := &Task{id: mix(s.Seed ^ 0x517cc1b727220a95), free: true}
	root.rng = mix(root.id)
	// The root's own goroutine gets the run's random source but is never scheduled.
	runtime.SimSetTask(unsafe.Pointer(root))
	defer runtime.SimSetTask(nil)
	notify = make(chan struct{}, 1)
	parkHead, unlocks, yields, maxYield, overrun = nil, 0, 0, limit, false
	eventFirst, eventLast, eventSeq, counters = nil, nil, 0, nil
	epoch++
	start := time.Now()
	end := start

	var mu sync.Mutex
	var wg sync.WaitGroup
	live := len(threads)
	for i := range threads {
		th := threads[i]
		root.kids++
		t := &Task{parent: root, name: th.Name, id: uint64(i + 1), gate: make(chan struct{})}
		t.rng = mix(mix(s.Seed) ^ uint64(i+1))
		wg.Add(1)
		// Started without an attached task so that it is not wrapped; it attaches itself.
		runtime.SimSetTask(nil)
		go func() {
			defer wg.Done()
			runtime.SimSetTask(unsafe.Pointer(t))
			defer func() {
				r := recover()
				runtime.SimSetTask(nil)
				mu.Lock()
				live--
				if r != nil {
					out.Panics = append(out.Panics, fmt.Sprintf("%s: %v", th.Name, r))
				}
				mu.Unlock()
				select {
				case notify <- struct{}{}:
				default:
				}
			}()
			Yield(3)
			th.Run()
		}()
		runtime.SimSetTask(unsafe.Pointer(root))
	}

	rng := NewRand(s.Seed ^ 0xabcdef)
	var changes []uint64
	if s.Mode == "pct" {
		for i := 0; i < s.D; i++ {
			// Change points at all scales: early ones matter in short runs, late ones in long ones.
			changes = append(changes, rng.Uint64()%(uint64(1)<<uint(3+rng.Intn(12))))
		}
		sort.Slice(changes, func(i, j int) bool { return changes[i] < changes[j] })
	}
	var parked, runnable []*Task
	var holder *Task
	var low uint64 = 1 << 20
	hash := mix(s.Seed)
	var prev *Task
	for {
		runtime.SimBubbleWait()
		if holder != nil {
			release(holder)
			holder = nil
		}
		select {
		case <-notify:
		default:
		}
		parked = takeParked(parked)
		runnable = runnable[:0]
		for _, t := range parked {
			if !blocked(t) {
				runnable = append(runnable, t)
			}
		}
		if len(runnable) == 0 {
			mu.Lock()
			n := live
			mu.Unlock()
			end = time.Now()
			timeout := false
			select {
			case <-notify:
			case <-time.After(10000 * time.Hour): // goroutines without a thread may still wait for timers
				timeout = true
			}
			if timeout && n == 0 && len(parked) == 0 {
				break
			}
			if timeout {
				out.Deadlock = true
				for _, t := range parked {
					out.Stuck = append(out.Stuck, fmt.Sprintf("%s waits for a lock", label(t)))
				}
				out.Stuck = append(out.Stuck, fmt.Sprintf("%d of %d threads never finished", n, len(threads)))
				break
			}
			continue
		}
		sort.Slice(runnable, func(i, j int) bool { return runnable[i].id < runnable[j].id })
		pick, budget := 0, int64(never)
		switch s.Mode {
		case "list":
			if len(out.Decisions) < len(s.List) {
				d := s.List[len(out.Decisions)]
				pick, budget = d.T%len(runnable), d.B
			}
		case "seq":
			pick = rng.Intn(len(runnable))
		case "geo":
			pick = rng.Intn(len(runnable))
			budget = 1
			for budget < 100000 && rng.Intn(max(s.Mean, 1)) != 0 {
				budget++
			}
		case "pct":
			for i, t := range runnable {
				if t.prio == 0 {
					t.prio = 1<<30 + rng.Uint64()%(1<<30)
				}
				if t.prio > runnable[pick].prio {
					pick = i
				}
			}
			if len(changes) > 0 {
				if yields >= changes[0] {
					changes = changes[1:]
					low--
					runnable[pick].prio = low
					pick = 0
					for i, t := range runnable {
						if t.prio > runnable[pick].prio {
							pick = i
						}
					}
				}
				if len(changes) > 0 && changes[0] > yields {
					budget = int64(changes[0] - yields)
				} else if len(changes) > 0 {
					budget = 1
				}
			}
		}
		t := runnable[pick]
		for i := range parked {
			if parked[i] == t {
				parked = append(parked[:i], parked[i+1:]...)
				break
			}
		}
		if yields >= limit {
			out.Overrun = true
			out.Stuck = append(out.Stuck, fmt.Sprintf("%s still running after %d steps", label(t), yields))
			break
		}
		out.Decisions = append(out.Decisions, Decision{pick, budget})
		if t != prev {
			out.Switches++
		}
		prev = t
		hash = mix(hash ^ t.id ^ mix(uint64(siteOf(t))))
		holder = t
		grant(t, budget)
	}
	for e := eventFirst; e != nil; e = e.next {
		if e.Kind == "panic" {
			out.Panics = append(out.Panics, "goroutine: "+e.Data)
		}
	}
	out.Yields, out.Hash = yields, hash
	out.SimNanos = int64(end.Sub(start))
	if !out.Deadlock && !out.Overrun {
		wg.Wait()
	}
	return out
}

func label(t *Task) string {
	if t.name != "" {
		return t.name
	}
	if t.parent != nil {
		return label(t.parent) + "/goroutine"
	}
	return "task"
}

// Zero resets a package variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Seeded runs f on the calling goroutine with the runtime's random source seeded, unscheduled.
func Seeded(seed uint64, f func()) {
	root := &Task{id: mix(seed), free: true, rng: mix(seed ^ 77)}
	old := runtime.SimTask()
	runtime.SimSetTask(unsafe.Pointer(root))
	defer runtime.SimSetTask(old)
	f()
}

// Sleep takes simulated time. Tasks that wake at the same instant are ordered by the scheduler.
func Sleep(d time.Duration) {
	time.Sleep(d)
	wake()
}

//go:norace
func wake() {
	if t := cur(); t != nil && !t.free {
		park(t)
	}
}

// Simulated says whether the caller is a scheduled task.
//
//go:norace
func Simulated() bool { t := cur(); return t != nil && !t.free }
