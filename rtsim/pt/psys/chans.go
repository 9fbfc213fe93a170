package psys

import (
	"unsafe"

	"verif.local/simk"
)

// Channels: buffered channels, and channels made by the standard library, stay
// what they are and are polled; a value passes through an unbuffered channel by
// way of the waiting side's record, as in the Go runtime.

type waiter struct {
	t    *simk.Task
	done bool
	idx  int
	val  interface{}
	ok   bool
	out  []interface{} // values offered by send cases
}

type chanq struct {
	recvq, sendq []qent
	polls        []*simk.Task
}

type qent struct {
	w   *waiter
	idx int
}

var queues map[unsafe.Pointer]*chanq

func q(p unsafe.Pointer) *chanq {
	c := queues[p]
	if c == nil {
		c = &chanq{}
		queues[p] = c
	}
	return c
}

func chptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is one case of a select.
type Case interface {
	ptr() unsafe.Pointer
	try(me *waiter) bool
	enqueue(w *waiter, idx int)
	finish(w *waiter)
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) ptr() unsafe.Pointer { return chptr(c.ch) }

func (c *RCase[T]) try(*waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		cq := q(c.ptr())
		for len(cq.sendq) > 0 {
			e := cq.sendq[0]
			cq.sendq = cq.sendq[1:]
			if e.w.done {
				continue
			}
			e.w.done = true
			e.w.idx = e.idx
			c.V, _ = e.w.out[e.idx].(T)
			c.OK = true
			simk.Unblock(e.w.t)
			return true
		}
	}
	select {
	case c.V, c.OK = <-c.ch:
		wakePolls(c.ptr())
		return true
	default:
		return false
	}
}

func (c *RCase[T]) enqueue(w *waiter, idx int) {
	if c.ch == nil {
		return
	}
	cq := q(c.ptr())
	if cap(c.ch) == 0 {
		cq.recvq = append(cq.recvq, qent{w, idx})
	}
	cq.polls = append(cq.polls, w.t)
}

func (c *RCase[T]) finish(w *waiter) {
	c.V, _ = w.val.(T)
	c.OK = w.ok
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(v T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *SCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *SCase[T]) try(*waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		cq := q(c.ptr())
		for len(cq.recvq) > 0 {
			e := cq.recvq[0]
			cq.recvq = cq.recvq[1:]
			if e.w.done {
				continue
			}
			e.w.done = true
			e.w.idx = e.idx
			e.w.val = c.v
			e.w.ok = true
			simk.Unblock(e.w.t)
			return true
		}
	}
	select {
	case c.ch <- c.v: // panics if closed
		wakePolls(c.ptr())
		return true
	default:
		return false
	}
}

func (c *SCase[T]) enqueue(w *waiter, idx int) {
	if c.ch == nil {
		return
	}
	cq := q(c.ptr())
	if cap(c.ch) == 0 {
		for len(w.out) <= idx {
			w.out = append(w.out, nil)
		}
		w.out[idx] = c.v
		cq.sendq = append(cq.sendq, qent{w, idx})
	}
	cq.polls = append(cq.polls, w.t)
}

func (c *SCase[T]) finish(w *waiter) {}

func wakePolls(p unsafe.Pointer) {
	cq := queues[p]
	if cq == nil {
		return
	}
	for _, t := range cq.polls {
		simk.Unblock(t)
	}
	cq.polls = cq.polls[:0]
}

// Sel performs a select; the result is the index of the case, or -1.
func Sel(def bool, cs ...Case) int {
	simk.Y()
	for {
		n := len(cs)
		first := 0
		if n > 1 {
			first = simk.Choose(n)
		}
		for k := 0; k < n; k++ {
			i := (first + k) % n
			if cs[i].try(nil) {
				simk.Y()
				return i
			}
		}
		if def {
			return -1
		}
		w := &waiter{t: simk.Cur()}
		for i, c := range cs {
			c.enqueue(w, i)
		}
		simk.Block(unsafe.Pointer(w))
		if w.done {
			cs[w.idx].finish(w)
			return w.idx
		}
		w.done = true // do not hand anything over to this record any more
		dequeue(w, cs)
	}
}

func dequeue(w *waiter, cs []Case) {
	for _, c := range cs {
		cq := queues[c.ptr()]
		if cq == nil {
			continue
		}
		cq.recvq = without(cq.recvq, w)
		cq.sendq = without(cq.sendq, w)
	}
}

func without(l []qent, w *waiter) []qent {
	out := l[:0]
	for _, e := range l {
		if e.w != w {
			out = append(out, e)
		}
	}
	return out
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !simk.Active() {
		v, ok := <-ch
		return v, ok
	}
	c := RC(ch)
	Sel(false, c)
	return c.V, c.OK
}

func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !simk.Active() {
			ch <- v
			return
		}
		Sel(false, SC(ch)(v))
	}
}

func Close[T any](ch chan<- T) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	close(ch)
	if !simk.Active() {
		return
	}
	wakePolls(p)
	simk.Y()
}
