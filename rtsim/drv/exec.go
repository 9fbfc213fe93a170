package drv

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/xhd2015/xgo/runtime/tls"
	"verif.local/simk"
	"verif.local/simrt"
)

var keys [16]tls.TLSKey
var keyInherit [16]bool

// declareKeys happens once per process.
func declareKeys() {
	keys[0] = tls.DeclareInherit("k0")
	keyInherit[0] = true
	keys[1] = tls.Declare("k1")
	keys[2] = tls.New().Name("k2").Inherit().Declare()
	keyInherit[2] = true
}

func newTask(parent *task) *task {
	t := &task{id: nextTask, parent: parent, inst: map[int][]*install{}, kids: map[int]*task{}, tls: map[int]int64{}, endLow: never, joined: never}
	t.serial = int64(t.id) * 100000
	nextTask++
	return t
}

func (t *task) run(ops []*Op) {
	for _, op := range ops {
		if t.goexit {
			return
		}
		t.exec(op)
	}
}

// busy: the function of a hook is in a call whose before-steps are running.
func (t *task) busy(h *hook) bool {
	if t.depth == 0 {
		return false
	}
	for _, c := range t.calls {
		if h.fn != nil && c.fn == h.fn || h.vs != nil && c.vs == h.vs {
			return true
		}
	}
	return false
}

func (t *task) newHook(op *Op) *hook {
	h := &hook{op: op, id: nhook, inst: -1, global: inInit}
	nhook++
	switch op.H {
	case "int":
	case "vpatch", "vmock", "vpname", "vmname", "vrec", "vfint":
		h.vs = vars[op.T]
	case "vpatchp", "vpnamep", "vmnamep", "vrecp":
		h.vs = vars[op.T]
		h.ptr = true
		p := reflect.New(h.vs.typ)
		p.Elem().Set(reflect.ValueOf(h.vs.make(op.A + 1000)))
		h.ptrVal = p.Interface()
	default:
		h.fn = fns[op.T]
		h.inst = op.I - 1
	}
	return h
}

// panics reports whether f panics.
func panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func (t *task) doCancel(in *install, twice bool) {
	list := &t.hooks
	if in.h.global {
		list = &globals
	}
	if in.h.global && !inInit {
		count("late cancel")
		if r := panics(in.cancel); r == nil {
			fail("cancelling %s after initialisation did not panic", in.h)
		}
		return
	}
	in.live = false
	// the list changes when the runtime changes its own: nothing else of this
	// goroutine can run in between
	out := make([]*hook, 0, len(*list))
	for _, h := range *list {
		if h != in.h {
			out = append(out, h)
		}
	}
	*list = out
	in.cancel()
	count("cancel")
	if twice {
		count("double cancel")
		if r := panics(in.cancel); r == nil {
			fail("cancelling %s a second time did not panic", in.h)
		}
	}
}

func (t *task) exec(op *Op) {
	budget--
	if budget < 0 {
		return
	}
	simk.Y()
	switch op.K {
	case "call":
		c := &call{op: op, fn: fns[op.T], inst: -1, a: op.A}
		if c.fn.method {
			c.inst = 0
			if op.I > 0 {
				c.inst = op.I - 1
			}
		}
		t.serial++
		c.serial = t.serial
		t.doCall(c)
	case "var":
		v := vars[op.T]
		form := op.I
		if form >= v.forms {
			form = 0
		}
		c := &call{op: op, vs: v, form: form, inst: -1, name: v.name}
		t.doVar(c)
	case "vwrite":
		v := vars[op.T]
		v.write(op.A)
		stored[v.id] = v.afterWrite(stored[v.id], op.A)
		if got := v.stored(); !sameVar(got, stored[v.id]) {
			fail("variable %s holds %v after %v was written", v.name, got, stored[v.id])
		}
		count("var write")
	case "hook":
		h := t.newHook(op)
		if h.isMock() && t.busy(h) || h.op.H == "int" && inInit && t.depth > 0 {
			return
		}
		if t.nmocks() > 40 {
			return
		}
		in := &install{h: h, live: true}
		in.cancel = h.install()
		// visible from now on
		if h.global {
			globals = append(append([]*hook{}, globals...), h)
			globInst[op.L] = append(globInst[op.L], in)
		} else {
			t.hooks = append(append([]*hook{}, t.hooks...), h)
			t.inst[op.L] = append(t.inst[op.L], in)
		}
		count("hook " + op.H)
	case "cancel", "cancel2":
		list := t.inst[op.L]
		if g := globInst[op.L]; len(g) > 0 && !(len(list) > 0 && list[len(list)-1].live) {
			list = g
		}
		for i := len(list) - 1; i >= 0; i-- {
			in := list[i]
			if in.live {
				if in.h.isMock() && t.busy(in.h) {
					return
				}
				if in.h.global && !inInit && t.unwindingOrHook() {
					return
				}
				t.doCancel(in, op.K == "cancel2")
				return
			}
		}
	case "spawn":
		if t.depth > 0 && (t.tracing || t.starting) || inInit || nextTask >= 44 {
			return
		}
		t.spawn(op)
	case "join":
		k := t.kids[op.L]
		if k == nil || k.ancestorOf(t) {
			return
		}
		simk.Join(k.sk)
		if k.joined == never {
			k.joined = simk.Steps()
		}
		if !k.ended {
			fail("goroutine of task %d is over, but its function did not finish", k.id)
		}
	case "yield":
		for i := int64(0); i < op.A; i++ {
			simk.Y()
		}
	case "tick":
		simk.Advance(op.A)
		count("clock jump")
	case "rec":
		t.rec(op.B)
	case "defer":
		func() {
			defer func() {
				exiting := t.goexit
				if exiting {
					return
				}
				t.aside(func() { t.run(op.B) })
			}()
			t.run(op.P)
		}()
	case "trace":
		t.doTrace(op)
	case "tset":
		if keys[op.T] == nil {
			return
		}
		keys[op.T].Set(op.A)
		t.tls[op.T] = op.A
		count("tls set")
	case "tget":
		if keys[op.T] == nil {
			return
		}
		want, wok := t.tls[op.T]
		got, ok := keys[op.T].GetOK()
		if ok != wok || ok && got != want {
			fail("key %d reads (%v,%v), want (%v,%v)", op.T, got, ok, want, wok)
		}
		if v := keys[op.T].Get(); wok && v != want || !wok && v != nil {
			fail("key %d reads %v, want (%v,%v)", op.T, v, want, wok)
		}
		count("tls get")
	case "tdecl":
		if keys[op.T] != nil {
			return
		}
		if op.F&fInherit != 0 {
			keyInherit[op.T] = true
			keys[op.T] = tls.DeclareInherit(fmt.Sprint("k", op.T))
		} else {
			keys[op.T] = tls.Declare(fmt.Sprint("k", op.T))
		}
		count("tls declare")
	default:
		panic("op " + op.K)
	}
}

func (t *task) unwindingOrHook() bool { return t.depth > 0 || t.expect != nil }

func (t *task) nmocks() int { return len(t.hooks) }

func (t *task) ancestorOf(o *task) bool {
	for ; o != nil; o = o.parent {
		if o == t {
			return true
		}
	}
	return false
}

// rec is a block that recovers.
func (t *task) rec(ops []*Op) {
	saved := t.expect
	depth := t.depth
	ncalls := len(t.calls)
	nh := len(t.hookCalls)
	t.expect = nil
	t.nrec++
	defer func() {
		t.nrec--
		r := recover()
		if t.depth != depth || len(t.calls) != ncalls || len(t.hookCalls) != nh {
			fail("internal: unbalanced recovery")
		}
		if t.goexit {
			return
		}
		if r == nil && t.expect != nil {
			fail("a panic of the program got lost: %v", t.expect)
		}
		if r != nil {
			if t.expect == nil {
				fail("unexpected panic: %v", r)
			}
			if r != interface{}(t.expect) {
				fail("recovered %v where %v was raised", r, t.expect)
			}
			count("recovered")
		}
		t.expect = saved
	}()
	t.run(ops)
}

// surprise reports a panic that nothing in the program raised.
func (t *task) surprise(c *call, r interface{}) {
	fail(strings.Replace(fmt.Sprintf("%%s panicked although neither its code nor a hook did: %v", r), "%!", "", -1), c.label())
}

func (t *task) doCall(c *call) {
	c.traced = t.tracing && t.depth == 0 && t.accepts(c.fn.traceName())
	normal := false
	defer func() {
		if !normal && t.expect == nil && !t.goexit {
			t.surprise(c, recover())
		}
		t.finish(c, normal)
	}()
	t.begin(c)
	before := t.depth
	got := c.fn.call(c)
	normal = true
	count("call")
	if t.depth != before {
		fail("internal: depth after %s", c.label())
	}
	if c.stop || c.bodies+c.mocks > 0 {
		if !sameVals(got, c.res) {
			fail("%s returned %s, want %s", c.label(), show(got), show(c.res))
		}
	}
}

func (f *fnSpec) traceName() string {
	switch f.id {
	case 13:
		return "G0"
	case 14:
		return "M0"
	}
	if f.short != "" {
		return f.short
	}
	return f.name
}

func (t *task) doVar(c *call) {
	c.traced = t.tracing && t.depth == 0 && t.accepts(c.vs.name)
	normal := false
	defer func() {
		if !normal && t.expect == nil && !t.goexit {
			t.surprise(c, recover())
		}
		t.finish(c, normal)
	}()
	t.begin(c)
	if c.form == c.vs.addr {
		c.loaded = c.vs.ptr
	} else {
		c.loaded = stored[c.vs.id]
	}
	got := c.vs.read(c.form)
	normal = true
	count("var read")
	want := t.varNow(c)
	if c.form == c.vs.addr {
		if got != want {
			fail("%s yielded another address than it should (variable itself: %v)", c.label(), got == c.vs.ptr)
		}
	} else if want = c.vs.proj(c.form, want); !sameVar(got, want) {
		fail("%s yielded %v, want %v", c.label(), got, want)
	}
	if now := c.vs.stored(); !sameVar(now, stored[c.vs.id]) {
		fail("variable %s changed to %v by being read, want %v", c.vs.name, now, stored[c.vs.id])
	}
}

func (t *task) spawn(op *Op) {
	k := newTask(t)
	k.hooks = append([]*hook{}, t.hooks...)
	for i, v := range t.tls {
		if keyInherit[i] {
			k.tls[i] = v
		}
	}
	var n *node
	if t.tracing {
		k.tracing = true
		k.filter = t.filter
		k.sess = t.sess
		n = &node{goTask: k, parent: t.top, begun: simk.Steps(), sure: never}
		t.top.children = append(t.top.children, n)
		k.top = n
	}
	t.kids[op.L] = k
	k.parentSpawn()
	k.sk = simrt.Go(func() { k.main(op.B) })
	if n != nil {
		n.sure = simk.Steps()
	}
	count("spawn")
}

func (t *task) parentSpawn() {}

func (t *task) main(ops []*Op) {
	setUser(simk.Cur(), t)
	clean := false
	defer func() {
		t.endLow = simk.Steps()
		t.ended = true
		r := recover()
		if r != nil {
			fail("goroutine of task %d died of the panic %v", t.id, r)
		}
		if !clean && !t.goexit {
			fail("goroutine of task %d ended early", t.id)
		}
	}()
	t.run(ops)
	clean = true
}
