//go:build race

package simrt

import "runtime"

const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceErrors is the number of data races the race detector has reported in this process.
func RaceErrors() int { return runtime.RaceErrors() }
