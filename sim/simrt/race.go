//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

var raceAddr uint64

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func release() { runtime.RaceReleaseMerge(unsafe.Pointer(&raceAddr)) }

//go:norace
func acquire() { runtime.RaceAcquire(unsafe.Pointer(&raceAddr)) }

var diskAddr uint64
var touched bool

// Touch orders the calling thread after all earlier users of the simulator's own shared state (the
// simulated disk), which is not part of what the race detector judges.
//
//go:norace
func Touch() {
	if active {
		runtime.RaceAcquire(unsafe.Pointer(&diskAddr))
		touched = true
	}
}

//go:norace
func untouch() {
	if touched {
		touched = false
		runtime.RaceReleaseMerge(unsafe.Pointer(&diskAddr))
	}
}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
