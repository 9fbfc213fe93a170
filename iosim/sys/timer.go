package sys

import (
	"time"
	"unsafe"

	"verif.local/simk"
)

// Timer is a timer of the simulated clock.
type Timer struct {
	at     int64
	seq    int
	fn     func() // runs in the kernel: must not block
	period int64
	live   bool
}

var timers []*Timer
var tseq int

// JumpPercent is how often a context switch is accompanied by a jump of the
// clock, as when the machine is busy; JumpMax is how far it goes.
var JumpPercent, JumpMax int64

func resetTimers() { timers = nil; tseq = 0; JumpPercent = 0; JumpMax = 0 }

func AddTimer(d time.Duration, period time.Duration, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	tseq++
	t := &Timer{at: simk.Clock() + int64(d), seq: tseq, fn: fn, period: int64(period), live: true}
	timers = append(timers, t)
	return t
}

func (t *Timer) Stop() bool {
	was := t.live
	t.live = false
	for i, x := range timers {
		if x == t {
			timers = append(timers[:i:i], timers[i+1:]...)
			break
		}
	}
	return was
}

func next() *Timer {
	var b *Timer
	for _, t := range timers {
		if b == nil || t.at < b.at || t.at == b.at && t.seq < b.seq {
			b = t
		}
	}
	return b
}

func fire() {
	for {
		t := next()
		if t == nil || t.at > simk.Clock() {
			return
		}
		if t.period > 0 {
			t.at += t.period
			if t.at <= simk.Clock() {
				t.at = simk.Clock() + t.period
			}
		} else {
			t.Stop()
		}
		t.fn()
	}
}

// idle is called when no task can run: the clock goes to the next timer.
func idle() bool {
	t := next()
	if t == nil {
		return false
	}
	if d := t.at - simk.Clock(); d > 0 {
		simk.Advance(d)
	}
	fire()
	return true
}

func init() {
	simk.OnIdle = idle
	simk.OnTick = func(step uint64) {
		simk.Advance(1000)
		if JumpPercent > 0 {
			z := (step + 77) * 0x9e3779b97f4a7c15
			z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9
			z ^= z >> 32
			if int64(z%1000) < JumpPercent {
				simk.Advance(int64((z >> 12) % uint64(JumpMax+1)))
			}
		}
		if len(timers) > 0 {
			fire()
		}
	}
}

// Sleep blocks the current task for d of simulated time.
func Sleep(d time.Duration) {
	if Gone() {
		return
	}
	done := false
	var key byte
	t := AddTimer(d, 0, func() { done = true; simk.Wake(unsafe.Pointer(&key)) })
	for !done {
		simk.Block(unsafe.Pointer(&key))
		if Gone() {
			t.Stop()
			return
		}
	}
	simk.Y()
}
