//go:build race

package mcrt

import (
	"runtime"
	"unsafe"
)

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceErrors() int          { return runtime.RaceErrors() }
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceBuild tells whether data races are detected.
const RaceBuild = true
