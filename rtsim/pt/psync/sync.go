// Package psync is sync for the programs.
package psync

import (
	"unsafe"

	"verif.local/simk"
)

type Mutex struct{ m simk.Mutex }

func (m *Mutex) Lock()   { m.m.Lock() }
func (m *Mutex) Unlock() { m.m.Unlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(n int) {
	w.n += n
	if w.n == 0 {
		simk.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1); simk.Y() }

func (w *WaitGroup) Wait() {
	simk.Y()
	for w.n > 0 {
		simk.Block(unsafe.Pointer(w))
	}
}
