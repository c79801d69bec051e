//go:build race

package verifsched

import (
	"runtime"
	"unsafe"
)

// In race detector builds the scheduler's own hand-overs are hidden from the detector, so that only
// the synchronisation of the code under test orders its memory accesses.

func raceDisable()              { runtime.RaceDisable() }
func raceEnable()               { runtime.RaceEnable() }
func raceAcquire(a *int64)      { runtime.RaceAcquire(unsafe.Pointer(a)) }
func raceRelease(a *int64)      { runtime.RaceRelease(unsafe.Pointer(a)) }
func raceReleaseMerge(a *int64) { runtime.RaceReleaseMerge(unsafe.Pointer(a)) }

// Races counts the data races seen so far.
func Races() int { return runtime.RaceErrors() }
