// Package simrt stands in for the patched Go runtime: xgo_trap.go is the real
// template instantiated by the real pipeline; g, m and goroutine creation are
// simulated; panics are the real ones of the running goroutine.
package simrt

import (
	"debug/elf"
	"debug/gosym"
	"os"
	"runtime"
	"unsafe"

	"verif.local/simk"
)

type g struct {
	m       *m
	_panic  *_panic // copy, the real one is on the stack
	pbuf    _panic
	__xgo_g __xgo_g
	slot    int
	next    *g
}

type m struct{ curg *g }

func realg() uintptr

var g0m = &m{}
var bootG = func() *g { x := &g{slot: -1}; x.m = &m{curg: x}; return x }()
var noG = &g{slot: -2, m: &m{}}

var nilG bool
var gfree *g
var nslots int
var reuses uint64

//go:norace
//go:nocheckptr
func getg() *g {
	var x *g
	if nilG {
		x = noG
	} else if t := simk.Cur(); t != nil && t.G != nil {
		x = (*g)(t.G)
	} else {
		x = bootG
	}
	if p := *(**_panic)(unsafe.Pointer(realg() + 32)); p == nil {
		x._panic = nil
	} else {
		x.pbuf.arg, x.pbuf.goexit, x.pbuf.recovered, x.pbuf.retpc = p.arg, p.goexit, p.recovered, p.retpc
		x._panic = &x.pbuf
	}
	return x
}

// WithNilG runs f as code running on an m without a current goroutine.
//
//go:norace
func WithNilG(f func()) {
	nilG = true
	f()
	nilG = false
}

//go:norace
func gfget() *g {
	x := gfree
	if x != nil {
		gfree = x.next
		x.next = nil
		reuses++
		return x
	}
	x = &g{slot: nslots}
	x.m = &m{curg: x}
	nslots++
	return x
}

//go:norace
func gfput(x *g) { x.next = gfree; gfree = x }

// Reuses counts descriptors handed to a second goroutine.
//
//go:norace
func Reuses() uint64 { return reuses }

//go:norace
func Slot() int { return getg().m.curg.slot }

// AttachMain gives the main task its descriptor, the one used during init.
//
//go:norace
func AttachMain(t *simk.Task) { t.G = unsafe.Pointer(bootG) }

//go:norace
func callCreate(cur, newg *g) {
	if hookCreate {
		a, b := createArgs(cur, newg)
		__xgo_callback_on_create_g(a, b)
	}
}

// Go is the go statement.
func Go(fn func()) *simk.Task {
	cur := getg().m.curg
	newg := gfget()
	t := simk.Prepare(unsafe.Pointer(newg))
	body := func() {
		defer exit()
		fn()
	}
	if raceStartAfterCreate {
		callCreate(cur, newg)
		simk.Launch(t, body)
	} else {
		simk.Launch(t, body)
		callCreate(cur, newg)
	}
	simk.Ready(t)
	simk.Y()
	return t
}

//go:norace
func exit() {
	if hookExit {
		__xgo_callback_on_exit_g()
	}
	gfput((*g)(simk.Cur().G))
	simk.Exit()
}

// InitFinished is what the runtime's main does after package initialisation.
func InitFinished() {
	if hookInitFinished {
		__xgo_callback_on_init_finished()
	}
}

var table *gosym.Table

func loadTable() {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	f, err := elf.Open(exe)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	pcln, err := f.Section(".gopclntab").Data()
	if err != nil {
		panic(err)
	}
	table, err = gosym.NewTable(nil, gosym.NewLineTable(pcln, f.Section(".text").Addr))
	if err != nil {
		panic(err)
	}
}

// NumCPU keeps the link file's import alive.
func NumCPU() int { return runtime.NumCPU() }

// real runtime: funcname without abbreviating type arguments
func __xgo_get_pc_name_impl(pc uintptr) string {
	n := runtime.FuncForPC(pc).Name()
	for i := 0; i+4 < len(n); i++ {
		if n[i:i+5] == "[...]" {
			if f := table.PCToFunc(uint64(pc)); f != nil {
				return f.Name
			}
			return n
		}
	}
	return n
}

// Warm initialises what is initialised on first use.
func Warm() { loadTable() }

// ResetFree forgets the free descriptors of earlier runs.
//
//go:norace
func ResetFree() { gfree = nil; nslots = 0 }
