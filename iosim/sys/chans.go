package sys

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"verif.local/simk"
)

// Channels: buffered channels, and channels made by the standard library, stay
// what they are and are polled; a value passes through an unbuffered channel by
// way of the waiting side's record, as in the Go runtime.

type waiter struct {
	t    *simk.Task
	done bool
	idx  int
	val  interface{}
	ok   bool
	out  []interface{} // values offered by send cases
}

type chanq struct {
	recvq, sendq []qent
	polls        []*simk.Task
}

type qent struct {
	w   *waiter
	idx int
}

var queues map[unsafe.Pointer]*chanq

func resetChans() { queues = map[unsafe.Pointer]*chanq{} }

func q(p unsafe.Pointer) *chanq {
	c := queues[p]
	if c == nil {
		c = &chanq{}
		queues[p] = c
	}
	return c
}

func chptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is one case of a select.
type Case interface {
	ptr() unsafe.Pointer
	try(me *waiter) bool
	enqueue(w *waiter, idx int)
	finish(w *waiter)
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) ptr() unsafe.Pointer { return chptr(c.ch) }

func (c *RCase[T]) try(*waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		cq := q(c.ptr())
		for len(cq.sendq) > 0 {
			e := cq.sendq[0]
			cq.sendq = cq.sendq[1:]
			if e.w.done || e.w.t.Dead {
				continue
			}
			e.w.done = true
			e.w.idx = e.idx
			c.V, _ = e.w.out[e.idx].(T)
			c.OK = true
			simk.Unblock(e.w.t)
			return true
		}
	}
	select {
	case c.V, c.OK = <-c.ch:
		wakePolls(c.ptr())
		return true
	default:
		return false
	}
}

func (c *RCase[T]) enqueue(w *waiter, idx int) {
	if c.ch == nil {
		return
	}
	cq := q(c.ptr())
	if cap(c.ch) == 0 {
		cq.recvq = append(cq.recvq, qent{w, idx})
	}
	cq.polls = append(cq.polls, w.t)
}

func (c *RCase[T]) finish(w *waiter) {
	c.V, _ = w.val.(T)
	c.OK = w.ok
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(v T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *SCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *SCase[T]) try(*waiter) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		cq := q(c.ptr())
		for len(cq.recvq) > 0 {
			e := cq.recvq[0]
			cq.recvq = cq.recvq[1:]
			if e.w.done || e.w.t.Dead {
				continue
			}
			e.w.done = true
			e.w.idx = e.idx
			e.w.val = c.v
			e.w.ok = true
			simk.Unblock(e.w.t)
			return true
		}
	}
	select {
	case c.ch <- c.v: // panics if closed
		wakePolls(c.ptr())
		return true
	default:
		return false
	}
}

func (c *SCase[T]) enqueue(w *waiter, idx int) {
	if c.ch == nil {
		return
	}
	cq := q(c.ptr())
	if cap(c.ch) == 0 {
		for len(w.out) <= idx {
			w.out = append(w.out, nil)
		}
		w.out[idx] = c.v
		cq.sendq = append(cq.sendq, qent{w, idx})
	}
	cq.polls = append(cq.polls, w.t)
}

func (c *SCase[T]) finish(w *waiter) {}

func wakePolls(p unsafe.Pointer) {
	cq := queues[p]
	if cq == nil {
		return
	}
	for _, t := range cq.polls {
		simk.Unblock(t)
	}
	cq.polls = cq.polls[:0]
}

// WakeChans makes every task that waits for a channel look again, after the
// standard library touched one.
func WakeChans() {
	ps := make([]unsafe.Pointer, 0, len(queues))
	for p := range queues {
		ps = append(ps, p)
	}
	var ts []*simk.Task
	for _, p := range ps {
		ts = append(ts, queues[p].polls...)
		queues[p].polls = queues[p].polls[:0]
	}
	for _, t := range ts {
		simk.Unblock(t)
	}
}

// WakeChan is WakeChans for one channel.
func WakeChan[T any](ch <-chan T) { wakePolls(chptr(ch)) }

// Sel performs a select; the result is the index of the case, or -1.
func Sel(def bool, cs ...Case) int {
	if Gone() {
		return -1
	}
	simk.Y()
	for {
		if Gone() {
			return -1
		}
		n := len(cs)
		first := 0
		if n > 1 {
			first = simk.Choose(n)
		}
		for k := 0; k < n; k++ {
			i := (first + k) % n
			if cs[i].try(nil) {
				simk.Y()
				return i
			}
		}
		if def {
			return -1
		}
		w := &waiter{t: simk.Cur()}
		for i, c := range cs {
			c.enqueue(w, i)
		}
		simk.Block(unsafe.Pointer(w))
		if Gone() {
			return -1
		}
		if w.done {
			cs[w.idx].finish(w)
			return w.idx
		}
		w.done = true // do not hand anything over to this record any more
		dequeue(w, cs)
	}
}

func dequeue(w *waiter, cs []Case) {
	for _, c := range cs {
		cq := queues[c.ptr()]
		if cq == nil {
			continue
		}
		cq.recvq = without(cq.recvq, w)
		cq.sendq = without(cq.sendq, w)
	}
}

func without(l []qent, w *waiter) []qent {
	out := l[:0]
	for _, e := range l {
		if e.w != w {
			out = append(out, e)
		}
	}
	return out
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !simk.Active() {
		v, ok := <-ch
		return v, ok
	}
	c := RC(ch)
	Sel(false, c)
	return c.V, c.OK
}

func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !simk.Active() {
			ch <- v
			return
		}
		Sel(false, SC(ch)(v))
	}
}

func Close[T any](ch chan<- T) {
	if Gone() {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	close(ch)
	if !simk.Active() {
		return
	}
	wakePolls(p)
	simk.Y()
}

// Go starts a goroutine.
func Go(fn func()) {
	if Gone() {
		return
	}
	if !simk.Active() {
		go fn()
		return
	}
	Spawn(fn)
}

// GoCall starts a goroutine that calls fn with the arguments given now.
func GoCall(fn interface{}, args ...interface{}) { goCall(fn, false, args) }

func GoCallSlice(fn interface{}, args ...interface{}) { goCall(fn, true, args) }

func goCall(fn interface{}, slice bool, args []interface{}) {
	f := reflect.ValueOf(fn)
	t := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 && !slice {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if slice {
			f.CallSlice(in)
		} else {
			f.Call(in)
		}
	})
}

// Y is a preemption point in the code under test.
func Y() {
	if !simk.Active() {
		return
	}
	if Gone() {
		return
	}
	simk.Y()
	Gone()
}

// Keys lists the keys of a map in an order that depends on the run only.
func Keys[K comparable, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	key := func(i int) string { return fmt.Sprint(out[i]) }
	if len(out) > 1 {
		ss := make([]string, len(out))
		for i := range out {
			ss[i] = key(i)
		}
		sort.Sort(&byString[K]{ss, out})
		if simk.Active() {
			for i := len(out) - 1; i > 0; i-- {
				h := (Salt + uint64(i)) * 0x9e3779b97f4a7c15
				h ^= h >> 29
				j := int(h % uint64(i+1))
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

type byString[K comparable] struct {
	s []string
	k []K
}

func (b *byString[K]) Len() int           { return len(b.s) }
func (b *byString[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byString[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

// Globals of the code under test, restored for every process.
type global struct {
	p, saved reflect.Value
}

var globals []global

// Global registers package-level variables, by address.
func Global(ps ...interface{}) {
	for _, p := range ps {
		v := reflect.ValueOf(p).Elem()
		s := reflect.New(v.Type()).Elem()
		s.Set(copyTop(v))
		globals = append(globals, global{v, s})
	}
}

func copyTop(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Map && !v.IsNil() {
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), it.Value())
		}
		return m
	}
	return v
}

// RestoreGlobals gives the code under test its initial state.
func RestoreGlobals() {
	for _, g := range globals {
		g.p.Set(copyTop(g.saved))
	}
}
