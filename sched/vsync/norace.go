//go:build !race

package verifsync

import "unsafe"

// Race tells if the race detector is on.
const Race = false

func raceOff()                   {}
func raceOn()                    {}
func raceRelease(unsafe.Pointer) {}
func raceAcquire(unsafe.Pointer) {}
