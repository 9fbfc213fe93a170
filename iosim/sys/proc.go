// Package sys is the simulated operating system: processes, files, timers,
// external commands, ports. Everything runs on the tasks of package simk.
package sys

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/simk"
)

// Proc is a simulated process: its tasks die together.
type Proc struct {
	Name   string
	Index  int
	Cwd    string
	Env    []string
	Out    strings.Builder // standard output and error
	Stdout strings.Builder
	Dead   bool
	Killed bool // by a fault
	Code   int
	Panic  string
	NOps   int
	Counts map[string]int // operations so far, by kind
	tasks  []*simk.Task
	Main   *simk.Task
	ctl    *Proc
}

// Driver is the process of the harness itself: it meets no fault.
var driver = &Proc{Name: "driver", Cwd: "/"}

var procs []*Proc

// Cur is the process of the running task.
func Cur() *Proc {
	if !simk.Active() {
		return driver
	}
	t := simk.Cur()
	if t.User == nil {
		return driver
	}
	return (*Proc)(t.User)
}

func (p *Proc) IsDriver() bool { return p == driver }

// Spawn starts fn as a task of the current process.
func Spawn(fn func()) *simk.Task { return spawn(Cur(), fn) }

func spawn(p *Proc, fn func()) *simk.Task {
	t := simk.Prepare(nil)
	t.User = unsafe.Pointer(p)
	p.tasks = append(p.tasks, t)
	simk.Launch(t, func() {
		normal := false
		defer func() {
			e := recover()
			if e != nil && !p.Dead {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				p.Panic = fmt.Sprintf("%v in %s", e, where(string(buf)))
				p.Code = 2
				kill(p, t)
			} else if t == p.Main && !p.Dead {
				// the end of main ends the process
				_ = normal
				kill(p, t)
			}
			simk.Exit()
		}()
		if p.Dead {
			return
		}
		fn()
		normal = true
	})
	simk.Ready(t)
	simk.Y()
	return t
}

func where(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/xhd2015/xgo/") && len(out) < 3 {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimPrefix(l, "github.com/xhd2015/xgo/"))
		}
	}
	return strings.Join(out, " < ")
}

// Start runs main as a new process.
func Start(name string, cwd string, env []string, main func() int) *Proc {
	p := &Proc{Name: name, Index: len(procs), Cwd: cwd, Env: append([]string(nil), env...), Counts: map[string]int{}}
	procs = append(procs, p)
	t := simk.Prepare(nil)
	_ = t
	p.Main = t
	t.User = unsafe.Pointer(p)
	p.tasks = append(p.tasks, t)
	simk.Launch(t, func() {
		defer func() {
			e := recover()
			if !p.Dead {
				if e != nil {
					buf := make([]byte, 8192)
					buf = buf[:runtime.Stack(buf, false)]
					p.Panic = fmt.Sprintf("%v in %s", e, where(string(buf)))
					p.Code = 2
				}
				kill(p, t)
			}
			simk.Exit()
		}()
		if p.Dead {
			return
		}
		p.Code = main()
	})
	simk.Ready(t)
	simk.Y()
	return p
}

// Wait blocks until p has ended and all its tasks are gone.
func (p *Proc) Wait() {
	for i := 0; i < len(p.tasks); i++ {
		simk.Join(p.tasks[i])
	}
}

// kill marks p dead. Its tasks unwind as soon as they run.
func kill(p *Proc, except *simk.Task) {
	if p.Dead {
		return
	}
	p.Dead = true
	for _, t := range p.tasks {
		t.Dead = true
		simk.Unblock(t)
	}
	for _, q := range procs {
		if q.ctl == p {
			kill(q, nil)
		}
	}
}

// Crash kills the process of the running task, at once.
func Crash() {
	p := Cur()
	p.Killed = true
	p.Code = 137
	kill(p, nil)
	Die()
}

// Kill ends another process.
func (p *Proc) Kill() {
	if !p.Dead {
		p.Killed = true
		p.Code = 137
		kill(p, nil)
	}
}

// Exit ends the process of the running task.
func Exit(code int) {
	p := Cur()
	if p == driver {
		panic("driver called os.Exit")
	}
	p.Code = code
	kill(p, nil)
	Die()
}

// Die unwinds the running task of a dead process.
func Die() {
	t := simk.Cur()
	if !t.Unwinding {
		t.Unwinding = true
		runtime.Goexit()
	}
}

// Gone is called at the start of every simulated operation: it unwinds tasks
// of dead processes, and reports whether one is already unwinding (and must
// have no effect any more).
func Gone() bool {
	if !simk.Active() {
		return false
	}
	t := simk.Cur()
	if !t.Dead {
		return false
	}
	if t.Unwinding {
		return true
	}
	Die()
	return true
}

var ErrDead = errors.New("process is dead")

func Getenv(env []string, key string) (string, bool) {
	for i := len(env) - 1; i >= 0; i-- {
		if strings.HasPrefix(env[i], key+"=") {
			return env[i][len(key)+1:], true
		}
	}
	return "", false
}

// stdWriter is the standard output or error of the current process.
type stdWriter struct{ err bool }

func (w stdWriter) Write(b []byte) (int, error) {
	if Gone() {
		return 0, ErrDead
	}
	p := Cur()
	if p.Out.Len() < 1<<16 {
		p.Out.Write(b)
	}
	if !w.err && p.Stdout.Len() < 1<<20 {
		p.Stdout.Write(b)
	}
	return len(b), nil
}

var Stdout io.Writer = stdWriter{}
var Stderr io.Writer = stdWriter{true}

// CPUs is the number of processors of the simulated machine.
var CPUs = 8

func GOMAXPROCS(func(int) int) int { return CPUs }

// Reset prepares the world of a new run.
func Reset() {
	procs = nil
	resetFS()
	resetTimers()
	resetChans()
	Commands = map[string]Command{}
	Serving = map[int]bool{}
	Faults = nil
	CPUs = 8
	Stat = map[string]uint64{}
	HTTP = nil
	driver.Cwd = "/"
	driver.Counts = map[string]int{}
}

var _ = syscall.EIO
var _ = time.Now

// NumProcs is the number of processes started so far.
func NumProcs() int { return len(procs) }
