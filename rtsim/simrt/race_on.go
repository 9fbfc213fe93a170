//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const raceenabled = true

//go:norace
func raceacquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func racerelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func racereleasemerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
