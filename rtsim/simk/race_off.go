//go:build !race

package simk

import "unsafe"

func raceOff() {}
func raceOn()  {}

func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}

const Race = false
