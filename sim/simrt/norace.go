//go:build !race

package simrt

const RaceEnabled = false

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }
