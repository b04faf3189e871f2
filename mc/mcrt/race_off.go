//go:build !race

package mcrt

import "unsafe"

func raceOff()               {}
func raceOn()                {}
func raceErrors() int        { return 0 }
func acquire(unsafe.Pointer) {}
func release(unsafe.Pointer) {}

const RaceBuild = false
