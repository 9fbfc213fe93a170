//go:build !race

package simrt

import "unsafe"

const raceenabled = false

func raceacquire(p unsafe.Pointer)      {}
func racerelease(p unsafe.Pointer)      {}
func racereleasemerge(p unsafe.Pointer) {}
