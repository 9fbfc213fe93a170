// Package simk is the simulation kernel: it owns which goroutine runs, the
// clock, and the file system seen by the xgo runtime under test.
//
// Exactly one task runs at any time. Every other task is parked in a channel
// receive that only the kernel completes, so the schedule is a function of the
// decision source (a seeded generator, or a recorded list of switches).
// All kernel functions are invisible to the race detector, so that the
// hand-offs do not order the tasks' memory accesses.
package simk

import (
	"sync"
	"time"
	"unsafe"
)

const (
	MaxTasks    = 1 << 15
	MaxSwitches = 1 << 18
)

type state uint8

const (
	runnable state = iota
	blocked
	done
)

type Task struct {
	ID   int
	G    unsafe.Pointer // simulated runtime g
	User unsafe.Pointer // driver data
	ch   chan struct{}
	st   state
	on   unsafe.Pointer
	prio uint64
	fn   func()
	sync int64

	// the task belongs to a killed process: OnDead unwinds it
	Dead, Unwinding bool
}

type Switch struct {
	Step uint64
	To   int32
	F    bool `json:",omitempty"` // the task before it could not go on
}

// policies
const (
	PolRandom = iota // switch with probability 1/Period at every yield
	PolPCT           // priorities with change points
	PolRR            // round robin with quantum Period
	PolStarve        // like random, but one task only runs when nothing else can
	PolSerial        // switch only when blocked, plus a few preemptions
	NumPolicies
)

type Config struct {
	Seed      uint64
	Policy    int
	Period    int
	Victim    int
	Points    int // change/preemption points
	Horizon   int // expected number of yields
	MaxSteps  uint64
	Replay    []Switch
	UseList   bool
	ClockMax  int64 // largest advance of the clock per reading, ns
	ClockZero int   // percentage of readings that do not advance
}

var (
	active  bool
	cfg     Config
	tasks   [MaxTasks]*Task
	ntasks  int
	live    [MaxTasks]*Task // those that have not ended
	nlive   int
	cands   [MaxTasks]*Task
	cur     *Task
	steps   uint64
	left    int
	rng     uint64
	sw      [MaxSwitches]Switch
	nsw     int
	rpos    int
	npre    int
	points  [16]uint64
	npoints int
	lowPrio uint64
	clock   int64
	nclock  uint64
	hash    uint64

	// OnStuck is called, on the goroutine that noticed, when no task can run
	// or the step budget is used up.
	OnStuck func(reason string)

	// OnIdle is called when no task can run; it may make one runnable.
	OnIdle func() bool

	// OnTick is called at every step.
	OnTick func(step uint64)

	inTick bool
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rndn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(rnd() % uint64(n))
}

// Begin makes the calling goroutine task 0 of a new run.
//
//go:norace
func Begin(c Config) *Task {
	cfg = c
	for i := 0; i < ntasks; i++ {
		tasks[i], live[i], cands[i] = nil, nil, nil
	}
	ntasks, nlive = 0, 0
	steps = 0
	rng = c.Seed*0x9e3779b97f4a7c15 + 0x1234567
	nsw, rpos, npre = 0, 0, 0
	npoints = 0
	lowPrio = 1 << 20
	clock = 1700000000_000000000
	nclock = 0
	hash = 1469598103934665603
	t := newTask()
	cur = t
	if cfg.Horizon < 1 {
		cfg.Horizon = 1
	}
	for i := 0; i < cfg.Points && npoints < len(points); i++ {
		points[npoints] = 1 + rnd()%uint64(cfg.Horizon)
		npoints++
	}
	rearm()
	active = true
	return t
}

//go:norace
func newTask() *Task {
	if ntasks >= MaxTasks {
		panic("simk: too many tasks")
	}
	t := &Task{ID: ntasks, ch: make(chan struct{}, 1)}
	t.prio = 1<<30 + rnd()%(1<<30)
	tasks[ntasks] = t
	ntasks++
	live[nlive] = t
	nlive++
	return t
}

// End stops the simulation; only the calling task may still be alive.
//
//go:norace
func End() { active = false }

//go:norace
func Cur() *Task { return cur }

//go:norace
func Steps() uint64 { return steps }

//go:norace
func Active() bool { return active }

//go:norace
func Tasks() int { return ntasks }

// Hash identifies the interleaving of this run.
//
//go:norace
func Hash() uint64 { return hash }

// Switches returns the schedule of this run.
//
//go:norace
func Switches() []Switch { return append([]Switch(nil), sw[:nsw]...) }

//go:norace
func NumSwitches() int { return nsw }

//go:norace
func ClockSpan() int64 { return clock - 1700000000_000000000 }

//go:norace
func rearm() {
	if cfg.UseList {
		left = 1 << 30
		if npre < rpos {
			npre = rpos
		}
		for npre < len(cfg.Replay) && cfg.Replay[npre].F {
			npre++
		}
		if npre < len(cfg.Replay) {
			d := int64(cfg.Replay[npre].Step) - int64(steps)
			if d < 1 {
				d = 1
			}
			left = int(d)
		}
		return
	}
	switch cfg.Policy {
	case PolRR:
		left = cfg.Period
	case PolPCT, PolSerial:
		left = 1 << 30
		for i := 0; i < npoints; i++ {
			if points[i] > steps && int(points[i]-steps) < left {
				left = int(points[i] - steps)
			}
		}
	default:
		p := cfg.Period
		if p < 1 {
			p = 1
		}
		left = 1 + rndn(2*p-1)
	}
}

// Y is a preemption point.
//
//go:norace
func Y() {
	if !active {
		return
	}
	steps++
	if OnTick != nil && !inTick {
		inTick = true
		OnTick(steps)
		inTick = false
	}
	left--
	if left > 0 {
		return
	}
	slow()
}

// Unblock makes a blocked task runnable, whatever it waits for.
//
//go:norace
func Unblock(t *Task) {
	if t.st == blocked {
		t.st = runnable
		t.on = nil
	}
}

// leave picks the next task when the current one cannot go on.
//
//go:norace
func leave() *Task {
	for {
		if to := pick(true); to != nil {
			return to
		}
		if OnIdle == nil || !OnIdle() {
			return nil
		}
		if cur.st == runnable {
			return cur
		}
	}
}

// Choose is a choice among n that depends on the seed and the step only.
//
//go:norace
func Choose(n int) int {
	z := (steps+1)*0x9e3779b97f4a7c15 ^ cfg.Seed*0xbf58476d1ce4e5b9
	z ^= z >> 30
	z *= 0x94d049bb133111eb
	return int((z >> 33) % uint64(n))
}

//go:norace
func Clock() int64 { return clock }

//go:norace
func slow() {
	if cfg.MaxSteps > 0 && steps > cfg.MaxSteps {
		OnStuck("step budget exhausted")
	}
	var to *Task
	if cfg.UseList {
		for rpos < len(cfg.Replay) && cfg.Replay[rpos].Step <= steps {
			e := &cfg.Replay[rpos]
			if e.F && e.Step == steps {
				break
			}
			rpos++
			if id := int(e.To); !e.F && id < ntasks && tasks[id].st == runnable {
				to = tasks[id]
				break
			}
		}
		rearm()
		if to == nil {
			return
		}
	} else {
		if cfg.Policy == PolPCT {
			for i := 0; i < npoints; i++ {
				if points[i] == steps {
					lowPrio--
					cur.prio = lowPrio
				}
			}
		}
		to = pick(false)
		rearm()
	}
	if to != nil && to != cur {
		handoff(to, false)
	}
}

// pick chooses the next task among the runnable ones. mustLeave: cur cannot go on.
//
//go:norace
func pick(mustLeave bool) *Task {
	c := &cands
	n := 0
	for i := 0; i < nlive; i++ {
		if live[i].st == runnable && !(mustLeave && live[i] == cur) {
			c[n] = live[i]
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if cfg.UseList {
		// forced switch while replaying
		for rpos < len(cfg.Replay) && cfg.Replay[rpos].Step <= steps {
			e := &cfg.Replay[rpos]
			rpos++
			if id := int(e.To); e.F && id < ntasks && tasks[id].st == runnable && tasks[id] != cur {
				rearm()
				return tasks[id]
			}
		}
		return c[0]
	}
	switch cfg.Policy {
	case PolPCT:
		best := c[0]
		for i := 1; i < n; i++ {
			if c[i].prio > best.prio {
				best = c[i]
			}
		}
		return best
	case PolRR:
		for i := 0; i < n; i++ {
			if c[i].ID > cur.ID {
				return c[i]
			}
		}
		return c[0]
	case PolStarve:
		if n > 1 {
			for i := 0; i < n; i++ {
				if c[i].ID == cfg.Victim {
					c[i] = c[n-1]
					n--
					break
				}
			}
		}
	}
	return c[rndn(n)]
}

//go:norace
func record(to *Task, forced bool) {
	hash = (hash ^ steps) * 1099511628211
	hash = (hash ^ uint64(to.ID)) * 1099511628211
	if nsw < MaxSwitches {
		sw[nsw] = Switch{steps, int32(to.ID), forced}
		nsw++
	}
}

//go:norace
func handoff(to *Task, forced bool) {
	me := cur
	record(to, forced)
	cur = to
	raceOff()
	to.ch <- struct{}{}
	<-me.ch
	raceOn()
}

// Block parks the current task until Wake(on).
//
//go:norace
func Block(on unsafe.Pointer) {
	if cur.Dead && cur.Unwinding {
		return
	}
	cur.st = blocked
	cur.on = on
	to := leave()
	if to == nil {
		OnStuck("deadlock: no task can run")
		return
	}
	if to == cur {
		return
	}
	handoff(to, true)
}

//go:norace
func Wake(on unsafe.Pointer) {
	for i := 0; i < nlive; i++ {
		if live[i].st == blocked && live[i].on == on {
			live[i].st = runnable
			live[i].on = nil
		}
	}
}

// Park creates a task whose goroutine exists but has not started running.
//
//go:norace
func Prepare(g unsafe.Pointer) *Task {
	t := newTask()
	t.G = g
	t.st = blocked
	return t
}

func launch(t *Task, fn func()) {
	go func() {
		waitStart(t)
		fn()
	}()
}

// Launch starts t's goroutine (parked); Ready lets it be scheduled.
func Launch(t *Task, fn func()) { launch(t, fn) }

//go:norace
func Ready(t *Task) { t.st = runnable }

//go:norace
func waitStart(t *Task) {
	raceOff()
	<-t.ch
	raceOn()
}

// Exit ends the current task; the caller's goroutine must return right after.
//
//go:norace
func Exit() {
	me := cur
	me.st = done
	for i, k := 0, 0; i < nlive; i++ {
		if live[i] != me {
			live[k] = live[i]
			k++
		}
		if i == nlive-1 {
			nlive = k
			break
		}
	}
	raceRelease(unsafe.Pointer(&me.sync))
	Wake(unsafe.Pointer(me))
	to := leave()
	if to == nil {
		OnStuck("deadlock: no task can run after an exit")
		return
	}
	record(to, true)
	cur = to
	raceOff()
	to.ch <- struct{}{}
	raceOn()
}

// Join blocks until t is done.
//
//go:norace
func Join(t *Task) {
	Y()
	for t.st != done {
		Block(unsafe.Pointer(t))
	}
	raceAcquire(unsafe.Pointer(&t.sync))
}

// WaitAll lets every other task run to its end.
//
//go:norace
func WaitAll() {
	for i := 0; i < ntasks; i++ {
		if tasks[i] != cur {
			Join(tasks[i])
		}
	}
}

// Mutex replaces sync.Mutex in the code under test.
type Mutex struct {
	mu sync.Mutex
}

func (m *Mutex) Lock() {
	if !Active() {
		m.mu.Lock()
		return
	}
	Y()
	for !m.mu.TryLock() {
		Block(unsafe.Pointer(m))
	}
}

func (m *Mutex) TryLock() bool {
	Y()
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if !Active() {
		return
	}
	Wake(unsafe.Pointer(m))
	Y()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !Active() {
		m.mu.Lock()
		return
	}
	Y()
	for !m.mu.TryLock() {
		Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if Active() {
		Wake(unsafe.Pointer(m))
		Y()
	}
}

func (m *RWMutex) RLock() {
	if !Active() {
		m.mu.RLock()
		return
	}
	Y()
	for !m.mu.TryRLock() {
		Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if Active() {
		Wake(unsafe.Pointer(m))
		Y()
	}
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Now is the simulated clock: it never goes back, and may stand still.
//
//go:norace
func Now() time.Time {
	if active {
		nclock++
		// the clock has its own stream so that it does not perturb the schedule
		z := (nclock + cfg.Seed) * 0x9e3779b97f4a7c15
		z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9
		z ^= z >> 32
		if int(z%100) >= cfg.ClockZero && cfg.ClockMax > 0 {
			clock += int64((z >> 8) % uint64(cfg.ClockMax))
		}
	}
	return time.Unix(0, clock)
}

// Advance moves the clock forward.
//
//go:norace
func Advance(ns int64) { clock += ns }

//go:norace
func ClockReads() uint64 { return nclock }
