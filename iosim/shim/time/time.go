package time

import (
	"time"

	"verif.local/io/sys"
	"verif.local/simk"
)

func Now() Time                      { return simk.Now() }
func Since(t Time) Duration          { return Now().Sub(t) }
func Until(t Time) Duration          { return t.Sub(Now()) }
func Sleep(d Duration)               { sys.Sleep(d) }

type Timer struct {
	C  <-chan Time
	c  chan Time
	fn func()
	t  *sys.Timer
}

func (t *Timer) start(d Duration) {
	if t.fn != nil {
		fn := t.fn
		p := sys.Cur()
		t.t = sys.AddTimer(d, 0, func() { p.Spawn(fn) })
		return
	}
	t.t = sys.AddTimer(d, 0, func() { t.send() })
}

func (t *Timer) send() {
	select {
	case t.c <- time.Unix(0, simk.Clock()):
	default:
	}
	sys.WakeChan(t.C)
}

func (t *Timer) Stop() bool {
	b := t.t.Stop()
	if t.c != nil {
		select {
		case <-t.c:
			b = true
		default:
		}
	}
	return b
}

func (t *Timer) Reset(d Duration) bool {
	b := t.Stop()
	t.start(d)
	return b
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.start(d)
	return t
}

type Ticker struct {
	C <-chan Time
	c chan Time
	t *sys.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}

func (t *Ticker) Reset(d Duration) {
	if t.t != nil {
		t.t.Stop()
	}
	t.t = sys.AddTimer(d, d, func() {
		select {
		case t.c <- time.Unix(0, simk.Clock()):
		default:
		}
		sys.WakeChan(t.C)
	})
}

func (t *Ticker) Stop() { t.t.Stop() }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
