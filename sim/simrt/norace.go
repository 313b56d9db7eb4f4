//go:build !race

package simrt

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceOff()        {}
func raceOn()         {}
func release()        {}
func acquire()        {}
func RaceErrors() int { return 0 }

// Touch orders the calling thread after all earlier users of the simulator's own shared state.
func Touch() {}

func untouch() {}
