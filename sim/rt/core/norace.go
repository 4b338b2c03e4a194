//go:build !race

package core

import "unsafe"

const RaceBuild = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}
func runtime_RaceErrors() int           { return 0 }
func ReadRange(b []byte)                {}
func WriteRange(b []byte)               {}
