package simrt

import (
	"fmt"
	"time"
)

// Clock is the wall clock of a run: reading n shows the previous one plus Steps[n mod len]. The
// monotonic clock takes part in the steps that may be the passing of time, not in jumps.
type Clock struct {
	Start int64   // nanoseconds since 1970
	Steps []int64 // nanoseconds, also negative
	Real  bool    // also advance with the simulated time of the bubble
}

var (
	clockOn    bool
	clock      Clock
	clockNow   int64
	clockMono  int64
	clockN     int
	clockBase  int64
	ClockReads int
)

// UseClock makes the tasks of the next runs read c.
func UseClock(c Clock) {
	clockOn, clock, clockNow, clockN, clockBase = true, c, c.Start, 0, 0
	clockMono = 1e9
	ClockReads = 0
	time.SimNow = simNow
}

// RealClock ends UseClock.
func RealClock() { clockOn = false; time.SimNow = nil }

//go:norace
func simNow(sec int64, nsec int32) (int64, int32, int64) {
	t := cur()
	if t == nil || t.free || !clockOn {
		return sec, nsec, 0
	}
	if len(clock.Steps) > 0 {
		d := clock.Steps[clockN%len(clock.Steps)]
		clockNow += d
		if d > 0 && d <= 90e9 {
			clockMono += d
		}
	}
	clockN++
	ClockReads++
	now, mono := clockNow, clockMono
	if clock.Real {
		raw := sec*1e9 + int64(nsec)
		if clockBase == 0 {
			clockBase = raw
		}
		now += raw - clockBase
		mono += raw - clockBase
	}
	Record("now", "", fmt.Sprint(now))
	s, n := now/1e9, now%1e9
	if n < 0 {
		s, n = s-1, n+1e9
	}
	return s, int32(n), mono
}
