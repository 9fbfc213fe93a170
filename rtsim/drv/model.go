package drv

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"verif.local/api"
	"verif.local/simk"
)

// hook is an installed mock, recorder or interceptor. Goroutines that inherit
// it share the value; the lists they are in are their own.
type hook struct {
	op     *Op
	id     int
	fn     *fnSpec
	vs     *varSpec
	inst   int  // -1: every instance
	ptr    bool // variable: address reads
	global bool
	ptrVal interface{}
}

func (h *hook) isMock() bool {
	switch h.op.H {
	case "rec", "fint", "int", "vrec", "vrecp", "vfint":
		return false
	}
	return true
}
func (h *hook) has(f int) bool { return h.op.F&f != 0 }
func (h *hook) String() string {
	s := fmt.Sprintf("%s#%d", h.op.H, h.op.L)
	if h.fn != nil {
		s += " on " + h.fn.label()
		if h.inst >= 0 {
			s += fmt.Sprintf(" of instance %d", h.inst)
		}
	}
	if h.vs != nil {
		s += " on " + h.vs.name
	}
	if h.global {
		s += " (installed during init)"
	}
	return s
}

func (f *fnSpec) label() string {
	if f.name != "" {
		return f.name
	}
	return fmt.Sprintf("generic function %d", f.id)
}

type obs struct {
	h    *hook
	pre  bool // its turn has come
	done bool // its after-step ran
	data interface{}
}

// call is one call of an instrumented function, or one read of a variable.
type call struct {
	op      *Op
	fn      *fnSpec
	vs      *varSpec
	form    int
	name    string
	inst    int
	serial  int64
	a       int64
	obs     []*obs
	mock    *hook
	phase   int // 0 before-steps, 1 mock or body, 2 after-steps, 3 over
	stop    bool
	abort   bool // a before-step panicked
	bodies  int
	mocks   int
	res     []interface{} // current results, nil if not known
	node    *node
	depth   int
	traced  bool
	nested  int
	sess    *session // call of Trace starting a session
	isTrace bool
	loaded  interface{}
	begun   uint64
	bodyEnd uint64
}

func (c *call) label() string {
	if c.isTrace {
		return "Trace"
	}
	if c.vs != nil {
		return fmt.Sprintf("read of %s (form %d)", c.vs.name, c.form)
	}
	s := fmt.Sprintf("%s(%d,%d)", c.fn.label(), c.serial, c.a)
	if c.inst >= 0 {
		s += fmt.Sprintf(" on instance %d", c.inst)
	}
	return s
}

// panicVal is what user code panics with.
type panicVal struct{ n int }

func (p *panicVal) Error() string { return fmt.Sprintf("panic-%d", p.n) }

type install struct {
	h      *hook
	cancel func()
	live   bool
}

type task struct {
	id       int
	sk       *simk.Task
	parent   *task
	depth    int
	hooks    []*hook
	inst     map[int][]*install
	calls    []*call
	serial   int64
	expect   *panicVal // panic in flight
	goexit   bool
	npanics  int
	kids     map[int]*task
	tls      map[int]int64
	nobs     int
	tracing  bool
	starting bool  // the outermost Trace is being called
	stale    bool  // inherited tracing from a session that is over
	filter   int   // 0: none
	top      *node // entry that encloses the next one
	sess     *session
	ended    bool
	joined   uint64
	endLow   uint64
	nrec     int // recovering blocks around the current code
	budget   int

	beginOff  uint64
	hookCalls []*call // in-flight call whose hook is running, per nesting
}

var (
	model    bool
	curPlan  *Plan
	nextTask int
	globals  []*hook
	inInit   bool
	budget   int
	nhook    int
	sessions []*session
	stored   map[int]interface{}
	events   uint64
	stats    = map[string]uint64{}
	globInst = map[int][]*install{}
	failer   func(msg string)
)

func count(k string) { stats[k]++ }

var failClass string

func fail(format string, args ...interface{}) {
	failClass = format
	failer(fmt.Sprintf(format, args...))
}

//go:norace
func cur() *task { return (*task)(simk.Cur().User) }

//go:norace
func setUser(sk *simk.Task, t *task) { sk.User = unsafe.Pointer(t) }

func (t *task) topCall() *call {
	if len(t.calls) == 0 {
		return nil
	}
	return t.calls[len(t.calls)-1]
}

func (h *hook) appliesTo(c *call) bool {
	if c.isTrace {
		return h.op.H == "int"
	}
	if c.vs != nil {
		return h.vs == c.vs && h.ptr == (c.form == c.vs.addr)
	}
	return h.fn == c.fn && (h.inst < 0 || h.inst == c.inst)
}

// begin snapshots what must happen around a call.
func (t *task) begin(c *call) {
	c.depth = t.depth
	c.begun = simk.Steps()
	for _, list := range [][]*hook{t.hooks, globals} {
		for _, h := range list {
			if h.op.H != "int" && !h.isMock() && h.appliesTo(c) {
				c.obs = append(c.obs, &obs{h: h})
			}
		}
	}
	if t.depth == 0 {
		for _, list := range [][]*hook{t.hooks, globals} {
			for _, h := range list {
				if h.op.H == "int" {
					c.obs = append(c.obs, &obs{h: h})
				}
			}
		}
	}
	for _, list := range [][]*hook{t.hooks, globals} {
		for i := len(list) - 1; i >= 0 && c.mock == nil; i-- {
			if list[i].isMock() && list[i].appliesTo(c) {
				c.mock = list[i]
			}
		}
	}
	t.calls = append(t.calls, c)
}

// pre is a before-step being called by the runtime.
func (t *task) pre(h *hook) (*call, *obs) {
	c := t.topCall()
	if c == nil {
		fail("before-step of %s ran although its goroutine is not in an instrumented call", h)
	}
	if c.phase != 0 {
		fail("before-step of %s ran after the call %s had left its before-steps", h, c.label())
	}
	if c.stop {
		fail("before-step of %s ran although an earlier one declared %s handled", h, c.label())
	}
	if c.vs != nil {
		for _, o := range c.obs {
			if o.h == h && !o.pre {
				o.pre = true
				return c, o
			}
		}
		fail("before-step of %s ran unexpectedly (twice, or not active) on %s", h, c.label())
	}
	for _, o := range c.obs {
		if o.pre {
			continue
		}
		if !o.h.has(fPre) {
			o.pre = true
			continue
		}
		if o.h != h {
			fail("before-step of %s ran on %s where that of %s was due", h, c.label(), o.h)
		}
		o.pre = true
		return c, o
	}
	fail("before-step of %s ran on %s, but no further one is active there", h, c.label())
	return nil, nil
}

// decide is reached when the before-steps of a call are over.
func (t *task) decide(c *call, what string) {
	if c.phase != 0 {
		fail("%s of %s ran in phase %d", what, c.label(), c.phase)
	}
	if c.stop {
		fail("%s of %s ran although a before-step declared it handled", what, c.label())
	}
	t.preOver(c, what)
	c.phase = 1
}

func (t *task) preOver(c *call, what string) {
	if c.vs != nil {
		for _, o := range c.obs {
			if !o.pre && o.h.has(fPre) {
				fail("before-step of %s did not run on %s before its %s", o.h, c.label(), what)
			}
			o.pre = true
		}
		return
	}
	for _, o := range c.obs {
		if o.pre {
			continue
		}
		if o.h.has(fPre) {
			fail("before-step of %s did not run on %s before its %s", o.h, c.label(), what)
		}
		o.pre = true
	}
}

// post is an after-step being called by the runtime.
func (t *task) post(h *hook) (*call, *obs) {
	c := t.topCall()
	if c == nil {
		fail("after-step of %s ran although its goroutine is not in an instrumented call", h)
	}
	if c.phase == 0 && !c.stop && !c.abort {
		t.preOver(c, "after-steps")
		if c.vs != nil && c.mock == nil {
			c.phase = 1
		} else {
			fail("after-step of %s ran on %s before its body or mock", h, c.label())
		}
	}
	if c.phase <= 1 {
		c.phase = 2
		if c.node != nil && c.node.sure == never {
			c.node.sure = simk.Steps()
		}
	}
	if c.phase != 2 {
		fail("after-step of %s ran after the call %s was over", h, c.label())
	}
	if c.vs != nil {
		for _, o := range c.obs {
			if o.h == h && !o.done {
				o.done = true
				return c, o
			}
		}
		fail("after-step of %s ran unexpectedly (twice, or not active) on %s", h, c.label())
	}
	for i := len(c.obs) - 1; i >= 0; i-- {
		o := c.obs[i]
		if o.done || !o.pre || !o.h.has(fPost) || o.h == c.stopper() {
			continue
		}
		if o.h != h {
			fail("after-step of %s ran on %s where that of %s was due", h, c.label(), o.h)
		}
		o.done = true
		return c, o
	}
	fail("after-step of %s ran on %s, but no further one is due there", h, c.label())
	return nil, nil
}

// stopper is the observer that ended the before-steps early.
func (c *call) stopper() *hook {
	if !c.stop && !c.abort {
		return nil
	}
	var last *hook
	for _, o := range c.obs {
		if o.pre {
			last = o.h
		}
	}
	return last
}

// finish checks a call that is over. It runs while a panic unwinds, too.
func (t *task) finish(c *call, normal bool) {
	if t.topCall() != c {
		fail("internal: calls not nested at the end of %s", c.label())
	}
	t.calls = t.calls[:len(t.calls)-1]
	if c.phase == 0 && !c.stop && !c.abort {
		if c.vs != nil && c.mock == nil {
			t.preOver(c, "end")
		} else {
			what := "its body"
			if c.mock != nil {
				what = "the mock " + c.mock.String()
			}
			fail("%s is over but %s never ran (returned normally: %v)", c.label(), what, normal)
		}
	}
	if c.mock != nil && c.phase >= 1 && c.mocks == 0 && !c.stop && !c.abort && c.vs == nil {
		fail("mock %s did not run on %s", c.mock, c.label())
	}
	for i := len(c.obs) - 1; i >= 0; i-- {
		o := c.obs[i]
		if o.pre && o.h.has(fPost) && !o.done && o.h != c.stopper() {
			if c.vs != nil && !normal {
				continue
			}
			fail("after-step of %s never ran on %s (returned normally: %v)", o.h, c.label(), normal)
		}
	}
	c.phase = 3
	if !normal && t.expect == nil && !t.goexit {
		fail("%s panicked although neither its code nor a hook did", c.label())
	}
	if normal && (t.expect != nil || t.goexit) {
		fail("%s returned although a panic or goroutine exit was in flight", c.label())
	}
	t.leave(c, normal)
}

// body of every workload function.
func body(fn int, inst int, serial int64, a int64, cx context.Context, extra ...interface{}) *api.Out {
	if !model {
		return rbody(fn, inst, serial, a)
	}
	t := cur()
	c := t.topCall()
	if c == nil || c.vs != nil || c.isTrace {
		fail("body of function %d ran outside any call", fn)
	}
	if c.fn.id != fn || c.inst != inst {
		fail("body of function %d instance %d ran in the call %s", fn, inst, c.label())
	}
	if c.fn.sees && (serial != c.serial || a != c.a) {
		fail("body of %s got arguments (%d,%d)", c.label(), serial, a)
	}
	if c.bodies > 0 {
		fail("body of %s ran twice", c.label())
	}
	if c.mock != nil {
		fail("body of %s ran although mock %s is active", c.label(), c.mock)
	}
	t.decide(c, "body")
	c.bodies++
	if c.fn.ctx {
		if cx == nil || cx.Value(ctxKey{}) != c.serial {
			fail("body of %s got another context", c.label())
		}
	}
	if c.fn.sees {
		if want := wantExtra(c); !reflect.DeepEqual(append([]interface{}{}, extra...), append([]interface{}{}, want...)) {
			fail("body of %s got extra arguments %v, want %v", c.label(), extra, want)
		}
	}
	t.enter(c)
	t.run(c.op.B)
	c.bodyEnd = simk.Steps()
	if c.op.F&fPanic != 0 && t.nrec > 0 {
		t.raise()
	}
	if c.op.F&fGoexit != 0 && !t.goexit && t.nrec == 0 {
		count("goexit")
		t.goexit = true
		runtime.Goexit()
	}
	var err error
	if c.op.F&fErr != 0 && c.fn.err {
		err = fmt.Errorf("err-%d", c.serial)
	}
	r := c.serial*16 + 1
	s := fmt.Sprint("b", c.serial)
	c.res = c.fn.body(c, r, s, err)
	return &api.Out{R: r, S: s, Err: err}
}

// newPanic makes a value to panic with.
func (t *task) newPanic() *panicVal {
	t.npanics++
	count("panic")
	t.expect = &panicVal{t.id*10000 + t.npanics}
	return t.expect
}

func (t *task) raise() { panic(t.newPanic()) }

// mayPanic: a panic raised now is recovered by the task.
func (t *task) mayPanic() bool { return t.nrec > 0 && !t.goexit }

// aside runs f as deferred code: whatever is in flight goes on afterwards.
func (t *task) aside(f func()) {
	saved := t.expect
	t.expect = nil
	f()
	t.expect = saved // a panic of f takes the place of the one in flight
}

// runHook runs ops as code of a hook.
func (t *task) runHook(c *call, ops []*Op) {
	t.depth++
	t.hookCalls = append(t.hookCalls, c)
	nrec := t.nrec
	if c.isTrace {
		t.nrec = 0 // nothing panics around Trace: what it does then is not specified
	}
	clean := false
	defer func() {
		t.nrec = nrec
		t.depth--
		t.hookCalls = t.hookCalls[:len(t.hookCalls)-1]
		if !clean && c.phase == 0 {
			c.abort = true // its before-step panicked
		}
	}()
	events++
	t.aside(func() { t.run(ops) })
	clean = true
}

// checkView compares what a hook is shown with what the call is.
func (t *task) checkView(c *call, h *hook, what string, recv interface{}, hasRecv bool, args []interface{}, cx context.Context, hasCtx bool, info *core.FuncInfo) {
	if info != nil && c.fn.name != "" && info.IdentityName != c.fn.name {
		fail("%s of %s on %s was told the function is %s", what, h, c.label(), info.IdentityName)
	}
	if hasRecv {
		if got := c.fn.instOf(recv); got != c.inst {
			fail("%s of %s on %s was shown receiver %d", what, h, c.label(), got)
		}
	}
	if len(args) > 0 && !(c.bodies > 0 && c.fn.assigns()) {
		if args[c.fn.serial] != c.serial || args[c.fn.a] != c.a {
			fail("%s of %s on %s was shown arguments (%v,%v)", what, h, c.label(), args[c.fn.serial], args[c.fn.a])
		}
	}
	if hasCtx && c.fn.ctx {
		if cx == nil || cx.Value(ctxKey{}) != c.serial {
			fail("%s of %s on %s got another context", what, h, c.label())
		}
	}
}
