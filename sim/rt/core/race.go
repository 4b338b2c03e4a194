//go:build race

package core

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func runtime_RaceErrors() int           { return runtime.RaceErrors() }

// ReadRange and WriteRange tell the race detector about a buffer access made
// by the simulated kernel on behalf of the caller.
func ReadRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func WriteRange(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
