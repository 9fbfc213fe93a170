package drv

import (
	"context"
	"fmt"
	"reflect"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
	"verif.local/simk"
)

type token struct {
	h *hook
	n uint64
}

// mockStart is a mock being called by the runtime.
func (t *task) mockStart(h *hook) *call {
	c := t.topCall()
	if c == nil {
		fail("mock %s ran although its goroutine is not in an instrumented call", h)
	}
	if c.mock == nil {
		fail("mock %s ran on %s, where it is not active", h, c.label())
	}
	if c.mock != h {
		fail("mock %s ran on %s, where %s decides", h, c.label(), c.mock)
	}
	if c.mocks > 0 {
		fail("mock %s ran twice on %s", h, c.label())
	}
	if c.bodies > 0 {
		fail("mock %s ran after the body of %s", h, c.label())
	}
	t.decide(c, "mock")
	c.mocks++
	if c.vs == nil {
		t.enter(c)
	}
	count("mocked")
	return c
}

// wantsRecv: the hook is shown the receiver as a first argument.
func (h *hook) wantsRecv(c *call) bool { return c.fn.method && h.inst < 0 }

func (t *task) mockOut(h *hook, c *call) (int64, string, error) {
	var err error
	if h.has(fErr) && c.fn.err {
		err = fmt.Errorf("mockerr-%d", c.serial)
	}
	return c.serial*16 + 3 + int64(h.id)*1000000007, fmt.Sprint("m", h.id), err
}

// replacer for Patch and its variants; ftyp may have a leading receiver.
func (h *hook) replacer(typ reflect.Type) interface{} {
	return reflect.MakeFunc(typ, func(in []reflect.Value) []reflect.Value {
		if !model {
			return toVals(h.fn.ftyp, rmock(h))
		}
		t := cur()
		c := t.mockStart(h)
		args := ifaces(in)
		var recv interface{}
		has := h.wantsRecv(c)
		if has {
			recv = args[0]
			args = args[1:]
		}
		var cx context.Context
		if c.fn.ctx {
			cx, _ = args[0].(context.Context)
		}
		t.checkView(c, h, "mock", recv, has, args, cx, c.fn.ctx, nil)
		t.runHook(c, h.op.B)
		c.bodyEnd = simk.Steps()
		if h.has(fPanic) && t.mayPanic() {
			t.raise()
		}
		r, s, err := t.mockOut(h, c)
		c.res = encode(h.fn.ftyp, r, s, err)
		return toVals(h.fn.ftyp, c.res)
	}).Interface()
}

func (t *task) objView(c *call, h *hook, what string, cx context.Context, info *core.FuncInfo, args core.Object, results core.Object) int {
	nargs := c.fn.ftyp.NumIn()
	off := args.NumField() - nargs
	want := 0
	if h.op.H == "int" {
		if c.fn.method {
			want = 1
		}
	} else if h.wantsRecv(c) {
		want = 1
	}
	if off != want {
		fail("%s of %s on %s was shown %d arguments, want %d", what, h, c.label(), args.NumField(), nargs+want)
	}
	if results.NumField() != c.fn.ftyp.NumOut() {
		fail("%s of %s on %s was shown %d results", what, h, c.label(), results.NumField())
	}
	vals := objVals(args)
	var recv interface{}
	if off == 1 {
		recv = vals[0]
	}
	t.checkView(c, h, what, recv, off == 1, vals[off:], cx, true, info)
	return off
}

// interceptor for Mock and its variants.
func (h *hook) interceptor() mock.Interceptor {
	return func(cx context.Context, info *core.FuncInfo, args core.Object, results core.Object) error {
		if !model {
			for i, v := range rmock(h) {
				results.GetFieldIndex(i).Set(v)
			}
			return nil
		}
		t := cur()
		c := t.mockStart(h)
		t.objView(c, h, "mock", cx, info, args, results)
		t.runHook(c, h.op.B)
		c.bodyEnd = simk.Steps()
		if h.has(fPanic) && t.mayPanic() {
			if !c.fn.err && h.has(fErr) {
				return t.newPanic() // an error nobody can return
			}
			t.raise()
		}
		r, s, err := t.mockOut(h, c)
		c.res = encode(h.fn.ftyp, r, s, nil)
		for i, v := range c.res {
			if h.op.A%2 == 0 {
				results.GetFieldIndex(i).Set(v)
			} else if f := results.GetFieldIndex(i); f.Name() != "" && f.Name() != "_" {
				results.GetField(f.Name()).Set(v)
			} else {
				f.Set(v)
			}
		}
		if err != nil {
			c.res[len(c.res)-1] = err
		}
		return err
	}
}

// observe is the common part of before-steps.
func (t *task) observe(h *hook, c *call) {
	t.runHook(c, h.op.B)
	count("pre")
}

func (t *task) abortCall(c *call) {
	c.abort = true
	t.raise()
}

func (c *call) canAbort(t *task) bool { return t.mayPanic() && !c.isTrace }

func (h *hook) preInterceptor() func(cx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
	return func(cx context.Context, info *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		if !model {
			return nil, robserve(h, info, args, results)
		}
		t := cur()
		c, o := t.pre(h)
		if c.vs != nil {
			t.varView(c, h, "before-step", info, results)
			t.observe(h, c)
			if h.has(fPanic) && c.canAbort(t) {
				t.abortCall(c)
			}
			o.data = &token{h, events}
			return o.data, nil
		}
		if c.isTrace {
			if info.IdentityName != "Trace" {
				fail("before-step of %s on a call of Trace was told the function is %s", h, info.IdentityName)
			}
			t.observe(h, c)
			o.data = &token{h, events}
			return o.data, nil
		}
		off := t.objView(c, h, "before-step", cx, info, args, results)
		t.observe(h, c)
		if h.has(fPanic) && c.canAbort(t) {
			t.abortCall(c)
		}
		if h.has(fModArg) {
			c.a += h.op.A
			args.GetFieldIndex(off + c.fn.a).Set(c.a)
		}
		if h.has(fStop) {
			count("stopped")
			c.res = encode(c.fn.ftyp, c.serial*16+5, fmt.Sprint("i", h.id), nil)
			if c.fn.err && h.op.A%3 == 0 {
				c.res[len(c.res)-1] = fmt.Errorf("stoperr-%d", c.serial)
			}
			for i, v := range c.res {
				results.GetFieldIndex(i).Set(v)
			}
			c.stop = true
			t.enter(c)
			if c.node != nil {
				c.node.sure = never
			}
			c.bodyEnd = simk.Steps()
			return nil, trap.ErrMocked
		}
		o.data = &token{h, events}
		return o.data, nil
	}
}

func (h *hook) postInterceptor() func(cx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
	return func(cx context.Context, info *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
		if !model {
			return robserve(h, info, args, results)
		}
		t := cur()
		c, o := t.post(h)
		if data != o.data {
			fail("after-step of %s on %s received the data of another one", h, c.label())
		}
		count("post")
		if c.vs != nil {
			t.varView(c, h, "after-step", info, results)
			t.runHook(c, h.op.P)
			if h.has(fPanicPost) && t.mayPanic() {
				t.raise()
			}
			return nil
		}
		if c.isTrace {
			t.runHook(c, h.op.P)
			return nil
		}
		t.objView(c, h, "after-step", cx, info, args, results)
		known := c.res != nil && t.expect == nil && !t.goexit
		if known {
			if got := objVals(results); !sameVals(got, c.res) {
				fail("after-step of %s on %s was shown results %s, want %s", h, c.label(), show(got), show(c.res))
			}
		}
		t.runHook(c, h.op.P)
		if known && h.has(fModRes) && c.fn.r >= 0 {
			v := c.res[c.fn.r].(int64) + h.op.A
			c.res = append([]interface{}{}, c.res...)
			c.res[c.fn.r] = v
			results.GetFieldIndex(c.fn.r).Set(v)
		}
		if h.has(fPanicPost) && t.mayPanic() {
			t.raise()
		}
		if known && h.has(fPostErr) && c.fn.err {
			err := fmt.Errorf("posterr-%d-%d", h.id, c.serial)
			c.res = append([]interface{}{}, c.res...)
			c.res[len(c.res)-1] = err
			return err
		}
		return nil
	}
}

// recorders take the arguments and results, or pointers to them.
func (h *hook) recorder(target reflect.Type, post bool) interface{} {
	var in []reflect.Type
	add := func(t reflect.Type) {
		if h.has(fPtr) {
			t = reflect.PtrTo(t)
		}
		in = append(in, t)
	}
	for i := 0; i < target.NumIn(); i++ {
		add(target.In(i))
	}
	for i := 0; i < target.NumOut(); i++ {
		add(target.Out(i))
	}
	return reflect.MakeFunc(reflect.FuncOf(in, nil, false), func(in []reflect.Value) []reflect.Value {
		if !model {
			rrecord(h, in)
			return nil
		}
		t := cur()
		vals := make([]interface{}, len(in))
		for i, v := range in {
			if h.has(fPtr) {
				v = v.Elem()
			}
			vals[i] = v.Interface()
		}
		off := target.NumIn() - h.fn.ftyp.NumIn()
		nargs := target.NumIn()
		var recv interface{}
		if off == 1 {
			recv = vals[0]
		}
		args := vals[off:nargs]
		results := vals[nargs:]
		var c *call
		var o *obs
		what := "before-step"
		if post {
			c, o = t.post(h)
			what = "after-step"
			count("post")
		} else {
			c, o = t.pre(h)
		}
		_ = o
		var cx context.Context
		if c.fn.ctx {
			cx, _ = args[0].(context.Context)
		}
		t.checkView(c, h, what, recv, off == 1, args, cx, c.fn.ctx, nil)
		if !post {
			t.observe(h, c)
			if h.has(fPanic) && c.canAbort(t) {
				t.abortCall(c)
			}
			if h.has(fModArg) && h.has(fPtr) {
				c.a += h.op.A
				in[off+c.fn.a].Elem().SetInt(c.a)
			}
			return nil
		}
		known := c.res != nil && t.expect == nil && !t.goexit
		if known && !sameVals(results, c.res) {
			fail("after-step of %s on %s was shown results %s, want %s", h, c.label(), show(results), show(c.res))
		}
		t.runHook(c, h.op.P)
		if known && h.has(fModRes) && h.has(fPtr) && c.fn.r >= 0 {
			v := c.res[c.fn.r].(int64) + h.op.A
			c.res = append([]interface{}{}, c.res...)
			c.res[c.fn.r] = v
			in[nargs+c.fn.r].Elem().SetInt(v)
		}
		if h.has(fPanicPost) && t.mayPanic() {
			t.raise()
		}
		return nil
	}).Interface()
}

// --- variables ---

func (t *task) varView(c *call, h *hook, what string, info *core.FuncInfo, results core.Object) {
	if info != nil && info.Name != c.vs.name {
		fail("%s of %s on %s was told the variable is %s", what, h, c.label(), info.Name)
	}
	if results.NumField() != 1 {
		fail("%s of %s on %s was shown %d results", what, h, c.label(), results.NumField())
	}
	t.varVal(c, h, what, results.GetFieldIndex(0).Value())
}

func (t *task) varVal(c *call, h *hook, what string, got interface{}) {
	if want := t.varNow(c); !sameVar(got, want) {
		fail("%s of %s on %s was shown %v, want %v", what, h, c.label(), got, want)
	}
}

// loadedVar is what the read had loaded when it began.
func (t *task) loadedVar(c *call) interface{} { return c.loaded }

func (t *task) varNow(c *call) interface{} {
	if c.res != nil {
		return c.res[0]
	}
	return c.loaded
}

func (h *hook) varValue() interface{} {
	if h.ptr {
		return h.ptrVal
	}
	return h.vs.make(h.op.A)
}

func (h *hook) varReplacer(typ reflect.Type) interface{} {
	return reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{typ}, false), func([]reflect.Value) []reflect.Value {
		if !model {
			return []reflect.Value{reflect.ValueOf(h.varValue())}
		}
		t := cur()
		c := t.mockStart(h)
		t.runHook(c, h.op.B)
		if h.has(fPanic) && t.mayPanic() {
			t.raise()
		}
		c.res = []interface{}{h.varValue()}
		return []reflect.Value{reflect.ValueOf(c.res[0])}
	}).Interface()
}

func (h *hook) varInterceptor() mock.Interceptor {
	return func(cx context.Context, info *core.FuncInfo, args core.Object, results core.Object) error {
		if !model {
			results.GetFieldIndex(0).Set(h.varValue())
			return nil
		}
		t := cur()
		c := t.mockStart(h)
		t.varView(c, h, "mock", info, results)
		t.runHook(c, h.op.B)
		if h.has(fPanic) && t.mayPanic() {
			t.raise()
		}
		c.res = []interface{}{h.varValue()}
		results.GetFieldIndex(0).Set(c.res[0])
		if h.op.A%3 == 1 {
			return trap.ErrMocked
		}
		return nil
	}
}

func (h *hook) varRecorder(post bool) interface{} {
	typ := h.vs.typ
	if h.ptr {
		typ = reflect.PtrTo(typ)
	}
	ptr := h.ptr || h.has(fPtr)
	atyp := typ
	if ptr {
		atyp = reflect.PtrTo(typ)
	}
	return reflect.MakeFunc(reflect.FuncOf([]reflect.Type{atyp}, nil, false), func(in []reflect.Value) []reflect.Value {
		if !model {
			return nil
		}
		t := cur()
		v := in[0]
		if ptr {
			v = v.Elem()
		}
		if !post {
			c, _ := t.pre(h)
			t.varVal(c, h, "before-step", v.Interface())
			t.observe(h, c)
			if h.has(fPanic) && c.canAbort(t) {
				t.abortCall(c)
			}
			return nil
		}
		c, _ := t.post(h)
		count("post")
		t.varVal(c, h, "after-step", v.Interface())
		t.runHook(c, h.op.P)
		if ptr && h.has(fModRes) {
			x := h.varValue()
			c.res = []interface{}{x}
			v.Set(reflect.ValueOf(x))
		}
		if h.has(fPanicPost) && t.mayPanic() {
			t.raise()
		}
		return nil
	}).Interface()
}

// install performs a hook operation against the real runtime.
func (h *hook) install() func() {
	op := h.op
	var target interface{}
	if h.fn != nil {
		if h.inst >= 0 {
			target = h.fn.bound(h.inst)
		} else {
			target = h.fn.free
		}
	}
	switch op.H {
	case "patch":
		return mock.Patch(target, h.replacer(reflect.TypeOf(target)))
	case "mock":
		return mock.Mock(target, h.interceptor())
	case "pname":
		return mock.PatchByName(pkg, h.fn.name, h.replacer(reflect.TypeOf(target)))
	case "mname":
		return mock.MockByName(pkg, h.fn.name, h.interceptor())
	case "pmeth":
		return mock.PatchMethodByName(h.fn.obj(h.inst), h.fn.short, h.replacer(reflect.TypeOf(target)))
	case "mmeth":
		return mock.MockMethodByName(h.fn.obj(h.inst), h.fn.short, h.interceptor())
	case "rec":
		typ := reflect.TypeOf(target)
		switch op.F & (fPre | fPost) {
		case fPre:
			return trace.RecordCall(target, h.recorder(typ, false))
		case fPost:
			return trace.RecordResult(target, h.recorder(typ, true))
		}
		return trace.Record(target, h.recorder(typ, false), h.recorder(typ, true))
	case "fint", "int":
		i := &trap.Interceptor{}
		if h.has(fPre) {
			i.Pre = h.preInterceptor()
		}
		if h.has(fPost) {
			i.Post = h.postInterceptor()
		}
		if op.H == "int" {
			return trap.AddInterceptor(i)
		}
		return trap.AddFuncInterceptor(target, i)
	case "vpatch":
		return mock.Patch(h.vs.ptr, h.varReplacer(h.vs.typ))
	case "vpatchp":
		return mock.Patch(h.vs.ptr, h.varReplacer(reflect.PtrTo(h.vs.typ)))
	case "vmock":
		return mock.Mock(h.vs.ptr, h.varInterceptor())
	case "vpname":
		return mock.PatchByName(pkg, h.vs.name, h.varReplacer(h.vs.typ))
	case "vpnamep":
		return mock.PatchByName(pkg, "*"+h.vs.name, h.varReplacer(reflect.PtrTo(h.vs.typ)))
	case "vmname":
		return mock.MockByName(pkg, h.vs.name, h.varInterceptor())
	case "vmnamep":
		return mock.MockByName(pkg, "*"+h.vs.name, h.varInterceptor())
	case "vrec", "vrecp":
		switch op.F & (fPre | fPost) {
		case fPre:
			return trace.RecordCall(h.vs.ptr, h.varRecorder(false))
		case fPost:
			return trace.RecordResult(h.vs.ptr, h.varRecorder(true))
		}
		return trace.Record(h.vs.ptr, h.varRecorder(false), h.varRecorder(true))
	case "vfint":
		i := &trap.Interceptor{}
		if h.has(fPre) {
			i.Pre = h.preInterceptor()
		}
		if h.has(fPost) {
			i.Post = h.postInterceptor()
		}
		return trap.AddFuncInterceptor(h.vs.ptr, i)
	}
	panic("hook kind " + op.H)
}
