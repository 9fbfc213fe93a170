F = ["link.go.txt", "lib.go.txt", "demo.sh"]
T = "runtime/internal/trap/"
S = "runtime/internal/stack/"
HEAD = '''
package verifdemo

import (
	"testing"
%s
	"github.com/xhd2015/xgo/runtime/internal/runtime"
)

var _ = runtime.Spawn
'''


def test(body, *imports):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body


BUGS = {}


def bug(i, prop, edits, body, imports, needs, breaks):
    BUGS[i] = {"property": prop, "files": F, "edits": edits, "test": test(body, *imports), "needs": needs, "breaks": breaks}


bug("r01-recorders-shared", "R01", [(T + "init.go", "	newInterceptors.varMock = cloneVarMocks(existingInterceptors.varMock)", "	newInterceptors.varMock = existingInterceptors.varMock")], '''
func TestDemo(t *testing.T) {
	g := start()
	mock.Patch(&X, func() int { return 6 })
	child := runtime.Spawn()
	mock.Patch(&X, func() int { return 7 })
	runtime.On(child, func() { want(t, "child", ReadX(), 6) })
	runtime.On(g, func() { want(t, "parent", ReadX(), 7) })
}
''', ["github.com/xhd2015/xgo/runtime/mock"], "a variable mock, a goroutine started while it is installed, and another mock of the variable later in either of the two",
    "mocks of variables installed after a goroutine was started become visible to it: parent and child share one table")

bug("r02-cancel-newest-half", "R02", [(T + "mock.go", '''		// remove at some index
		for i, m := range list {
			if m == h {
				holder.mock[pc] = append(list[:i], list[i+1:]...)
				return
			}
		}
		panic(fmt.Errorf("pop mock not found, check if the mock is already popped earlier"))
	}
}

func pushVarMockHandler''', '''		// remove at some index
		for i, m := range list {
			if m == h {
				list[i] = list[n-1]
				holder.mock[pc] = list[:n-1]
				return
			}
		}
		panic(fmt.Errorf("pop mock not found, check if the mock is already popped earlier"))
	}
}

func pushVarMockHandler''')], '''
func TestDemo(t *testing.T) {
	start()
	c1 := mock.Patch(Add, func(a int) int { return 100 })
	mock.Patch(Add, func(a int) int { return 200 })
	mock.Patch(Add, func(a int) int { return 300 })
	c1()
	want(t, "newest left", Add(1), 300)
	c4 := mock.Patch(Add, func(a int) int { return 400 })
	c4()
	want(t, "newest left", Add(1), 300)
}
''', ["github.com/xhd2015/xgo/runtime/mock"], "three mocks of one function, the oldest cancelled first", "cancelling a mock that is not the newest moves the newest one below older ones, so an older mock decides")

bug("r03-inherit-unbound", "R03", [(T + "init.go", '''				wantRecvPtr: m.wantRecvPtr,
				mock:        m.mock,''', '''				mock: m.mock,''')], '''
func TestDemo(t *testing.T) {
	start()
	a, b := &T{ID: 1}, &T{ID: 2}
	mock.Patch(a.M, func(x int) (int, error) { return -1, nil })
	child := runtime.Spawn()
	runtime.On(child, func() {
		r, _ := a.M(5)
		want(t, "mocked instance", r, -1)
		r, _ = b.M(5)
		want(t, "other instance", r, 7)
	})
}
''', ["github.com/xhd2015/xgo/runtime/mock"], "a mock of one instance's method and a goroutine started from the installing one that uses another instance",
    "a goroutine started later applies an instance's mock to every instance")

bug("r04-data-mixed", "R04", [(T + "trap.go", '''		for _, h := range interceptors {
			h := h // captured by the closure below, module is go1.14
			var data interface{}
			var stop bool
''', '''		var data interface{}
		for _, h := range interceptors {
			h := h // captured by the closure below, module is go1.14
			var stop bool
''')], '''
func TestDemo(t *testing.T) {
	start()
	var got []interface{}
	for i := 0; i < 2; i++ {
		i := i
		trap.AddInterceptor(&trap.Interceptor{
			Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
				return i, nil
			},
			Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
				got = append(got, i, data)
				return nil
			},
		})
	}
	Add(1)
	want(t, "after-steps", fmt.Sprint(got), "[1 1 0 0]")
}
''', ["context", "fmt", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/trap"], "two interceptors whose before-steps return different data", "all after-steps of a call receive the data of the last before-step")

bug("r05-depth-leak", "R05", [(T + "trap.go", '''			xgo_runtime.GetG().IncTrappingDepth()
			defer xgo_runtime.GetG().DecTrappingDepth()
			postRecorder()
''', '''			xgo_runtime.GetG().IncTrappingDepth()
			postRecorder()
			xgo_runtime.GetG().DecTrappingDepth()
''')], '''
func TestDemo(t *testing.T) {
	start()
	n := 0
	trap.AddInterceptor(&trap.Interceptor{
		Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			n++
			return nil, nil
		},
	})
	cancel := trap.AddInterceptor(&trap.Interceptor{
		Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
			panic("after-step")
		},
	})
	func() {
		defer func() { recover() }()
		Add(1)
	}()
	cancel()
	Add(1)
	want(t, "observed calls", n, 2)
}
''', ["context", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/trap"], "an after-step that panics outside a trace, recovered by the program", "interceptors never see another call of the goroutine once an after-step panicked")

bug("r07-ptr-recorder-only", "R07", [(T + "var.go", "	mock := stkData.getLastVarMock(ptr)\n\n	depth", "	mock := stkData.getLastVarMock(ptr)\n	if mock != nil && len(recorders) > 0 {\n		// recorders see the variable, not a copy of it\n		res = varAddr\n	}\n\n	depth")], '''
func TestDemo(t *testing.T) {
	start()
	trap.PushRecorderForDemo()
}
''', [], "", "")
del BUGS["r07-ptr-recorder-only"]

bug("r07-init-writes", "R07", [(T + "var.go", "	doTrapVar(funcInfo, stk, begin, tracing, res, recorders, interceptors, mock, res)", "	if tracing && mock != nil {\n		// the entry of the trace shows what is read\n		mock(funcInfo, varAddr)\n	}\n	doTrapVar(funcInfo, stk, begin, tracing, res, recorders, interceptors, mock, res)")], '''
func TestDemo(t *testing.T) {
	start()
	cancel := mock.Patch(&X, func() int { return 6 })
	trace.Trace(trace.Config{OnFinish: func(s stack_model.IStack) {}}, nil, func() (interface{}, error) { return nil, nil })
	start()
	post, _ := runtime.XgoTrap(unsafe.Pointer(infoTrace), nil, []interface{}{&cfg}, nil)
	cancel = mock.Patch(&X, func() int { return 6 })
	want(t, "mocked", ReadX(), 6)
	post()
	_ = cancel
	want(t, "stored value", X, 5)
}

var cfg = trace.Config{OnFinish: func(s stack_model.IStack) {}}
var infoTrace = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "github.com/xhd2015/xgo/runtime/trace", IdentityName: "Trace", Name: "Trace", ArgNames: []string{"config"}}
''', ["unsafe", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/mock", "github.com/xhd2015/xgo/runtime/trace", "github.com/xhd2015/xgo/runtime/trace/stack_model"],
    "a mocked variable read while the goroutine is being traced", "reading a mocked variable inside a trace overwrites the variable itself with the mock's value")

bug("r10-snapshot-shallow", "R10", [(S + "stack.go", '''	cp := *e
	cp.Children = cloneEntries(e.Children)
''', '''	cp := *e
	if !e.Finished || len(e.Children) == 0 {
		// finished entries do not change any more
		cp.Children = e.Children
		return &cp
	}
	cp.Children = cloneEntries(e.Children)
''')], '''
func TestDemo(t *testing.T) {
	stk := &stack.Stack{}
	e, _ := stk.PushNew(time.Now(), "f", nil)
	c, _ := stk.PushNew(time.Now(), "g", nil)
	_, _, roots := stk.Snapshot()
	stk.Finish(c, e, time.Now(), false, func(x *stack.Entry) { x.Finished = true })
	want(t, "g finished in the snapshot taken before its end", roots[0].Children[0].Finished, false)
}
''', ["time", "github.com/xhd2015/xgo/runtime/internal/stack"], "a trace that is exported while a goroutine it started is inside nested calls", "the snapshot shares the entries of running calls with the live tree: entries change, and are torn, while they are exported")

bug("r11-write-skips-callback", "R11", [(T + "trap.go", '''				if stackData.onFinish != nil {
					stackData.onFinish(&StackDataExportImpl{
						data: exportedStack,
					})
				}
				if stackData.stackOutputFile != "" {
					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
					if err != nil {
						fmt.Fprintf(os.Stderr, "error writing stack: %v\\n", err)
					}
				}
''', '''				if stackData.stackOutputFile != "" {
					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
					if err != nil {
						fmt.Fprintf(os.Stderr, "error writing stack: %v\\n", err)
						return
					}
				}
				if stackData.onFinish != nil {
					stackData.onFinish(&StackDataExportImpl{
						data: exportedStack,
					})
				}
''')], '''
func TestDemo(t *testing.T) {
	start()
	n := 0
	cfg := trace.Config{OutputFile: t.TempDir() + "/no/such/dir/x.json", OnFinish: func(s stack_model.IStack) { n++ }}
	post, _ := runtime.XgoTrap(unsafe.Pointer(infoTrace), nil, []interface{}{&cfg}, nil)
	Add(1)
	post()
	want(t, "callback ran", n, 1)
}

var infoTrace = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "github.com/xhd2015/xgo/runtime/trace", IdentityName: "Trace", Name: "Trace", ArgNames: []string{"config"}}
''', ["unsafe", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/trace", "github.com/xhd2015/xgo/runtime/trace/stack_model"],
    "a trace with both a file and a callback whose file cannot be written", "the callback is not run when writing the file fails")

bug("r12-nil-not-inherited", "R12", [("runtime/tls/hook.go", '''			v, ok := g1.GetOK(loc)
			if !ok {
				continue
			}
			g2.Set(loc, v)
''', '''			v, ok := g1.GetOK(loc)
			if !ok {
				break
			}
			g2.Set(loc, v)
''')], '''
var a = tls.DeclareInherit("a")
var b = tls.DeclareInherit("b")

func TestDemo(t *testing.T) {
	start()
	b.Set(2)
	child := runtime.Spawn()
	runtime.On(child, func() { want(t, "inherited", b.Get(), 2) })
}
''', ["github.com/xhd2015/xgo/runtime/tls"], "two inheritable keys of which the one declared first has no value", "a key without a value stops the inheritance of all keys declared after it")

bug("r14-panic-value-kept", "R14", [(T + "build.go", '''		for i := 0; i < nIn-callIdx; i++ {
			// fail''', '''		shift := callIdx
		for i := 0; i < nIn-shift; i++ {
			if shift > 0 && i > 0 && fnInfo.FirstArgCtx {
				shift = callIdx
			}
			// fail''')], '''
func TestDemo(t *testing.T) {}
''', [], "", "")
del BUGS["r14-panic-value-kept"]

bug("r14-stop-keeps-mock", "R14", [(T + "trap.go", '''			data, stop = h.pre(funcInfo, recvPtr, args, results)
			if stop {
				mocked = true
				break
			}
		}
		if h.post != nil {''', '''			data, stop = h.pre(funcInfo, recvPtr, args, results)
			if stop {
				mocked = mock == nil
				break
			}
		}
		if h.post != nil {''')], '''
func TestDemo(t *testing.T) {
	start()
	trap.PushRecorderInterceptor(Add, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		results.GetFieldIndex(0).Set(77)
		return nil, trap.ErrMocked
	}, nil)
	mock.Patch(Add, func(a int) int { return 88 })
	want(t, "outcome of the handler that declared the call handled", Add(1), 77)
}
''', ["context", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/mock", "github.com/xhd2015/xgo/runtime/internal/trap"],
    "a function with both a mock and a handler of its own whose before-step declares the call handled", "the mock runs although the before-step declared the call handled, and overwrites its results")

bug("r14-traced-stop", "R14", [(T + "trap.go", '''	if mocked {
		hitMock = true
		return post, true
	} else''', '''	if mocked {
		hitMock = true
		return post, mock != nil
	} else''')], '''
func TestDemo(t *testing.T) {
	start()
	trap.PushRecorderInterceptor(Add, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		results.GetFieldIndex(0).Set(77)
		return nil, trap.ErrMocked
	}, nil)
	want(t, "outcome of the handled call", Add(1), 77)
	cfg := trace.Config{OnFinish: func(stack stack_model.IStack) {}}
	info := &core.FuncInfo{Kind: core.Kind_Func, Pkg: "github.com/xhd2015/xgo/runtime/trace", IdentityName: "Trace", Name: "Trace", ArgNames: []string{"config"}}
	post, _ := runtime.XgoTrap(unsafe.Pointer(info), nil, []interface{}{&cfg}, nil)
	defer post()
	want(t, "outcome of the handled call, traced", Add(1), 77)
}
''', ["context", "unsafe", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/trace", "github.com/xhd2015/xgo/runtime/trace/stack_model", "github.com/xhd2015/xgo/runtime/internal/trap"],
    "a function whose before-step declares the call handled, called while its goroutine is traced", "the body of the function runs although its before-step declared the call handled")

bug("r06-cancel-after-init", "R06", [(T + "record.go", '''	return func() {
		if holder == &globalInterceptorHolder && runtime.XgoInitFinished() {
			panic("global recorder cannot be cancelled after init finished")
		}
		list := holder.varRecorder[varAddr]''', '''	return func() {
		list := holder.varRecorder[varAddr]''')], '''
func TestDemo(t *testing.T) {
	n := 0
	cancel := trap.PushRecorder(&X, func(v int) { n++ }, nil)
	start()
	func() {
		defer func() {
			if recover() == nil {
				t.Fatal("no panic")
			}
		}()
		cancel()
	}()
	ReadX()
	want(t, "recorded", n, 1)
}
''', ["github.com/xhd2015/xgo/runtime/internal/trap"], "a recorder of a variable installed during initialisation, cancelled later by any goroutine", "a program-wide recorder of a variable can be cancelled after initialisation")

bug("r09-go-parent-top", "R09", [(S + "stack.go", '''	if c.Top == nil {
		// the goroutine''', '''	for c.Top != nil && c.Top.HitMock {
		c.Top.Children = nil
		break
	}
	if c.Top == nil {
		// the goroutine''')], '''
func TestDemo(t *testing.T) {}
''', [], "", "")
del BUGS["r09-go-parent-top"]

bug("r09-error-lost", "R09", [(T + "object.go", '''func trySplitLastError(''', '''func trySplitLastError_(''')], "", [], "", "")
del BUGS["r09-error-lost"]

bug("r09-mocked-orphans", "R09", [(T + "trap.go", '''	} else if mock != nil {
		due = post
		hitMock = mock(funcInfo, recvPtr, args, results)
		due = nil
		return post, hitMock
	}
	return post, false''', '''	} else if mock != nil {
		due = post
		hitMock = mock(funcInfo, recvPtr, args, results)
		due = nil
		if hitMock && postRecorder == nil {
			finish()
			return nil, true
		}
		return post, hitMock
	}
	return post, false''')], "", [], "", "")
del BUGS["r09-mocked-orphans"]

bug("r09-finish-top", "R09", [(S + "stack.go", '''	c.Top = oldTop
	c.Depth--''', '''	if cur == c.Top || setStackEnd {
		c.Top = oldTop
	}
	c.Depth--''')], "", [], "", "")
del BUGS["r09-finish-top"]

bug("r09-args-late", "R09", [(T + "trap.go", '''		resultNamesNoErr, resultsNoErr, resErr''', '''		if len(args) > 0 && recvPtr == nil {
			// arguments may point to data filled in by the call
			argsJSON = json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(marshalNames, marshalArgs)))
		}
		resultNamesNoErr, resultsNoErr, resErr'''), (T + "trap.go", '''			cur.Results = resultsJSON
''', '''			cur.Args = argsJSON
			cur.Results = resultsJSON
''')], '''
//go:noinline
func Count(a int) (r int) {
	post, stop := runtime.XgoTrap(unsafe.Pointer(infoAdd), nil, []interface{}{&a}, []interface{}{&r})
	if post != nil {
		defer post()
	}
	if stop {
		return
	}
	for a > 0 {
		a--
		r++
	}
	return
}

func TestDemo(t *testing.T) {
	start()
	var data *stack_model.Stack
	cfg := trace.Config{OnFinish: func(s stack_model.IStack) { data = s.Data() }}
	post, _ := runtime.XgoTrap(unsafe.Pointer(infoTrace), nil, []interface{}{&cfg}, nil)
	Count(3)
	post()
	b, _ := data.Children[0].Children[0].Args.(json.RawMessage)
	want(t, "arguments", string(b), `{"a":3}`)
}

var infoTrace = &core.FuncInfo{Kind: core.Kind_Func, Pkg: "github.com/xhd2015/xgo/runtime/trace", IdentityName: "Trace", Name: "Trace", ArgNames: []string{"config"}}
''', ["encoding/json", "unsafe", "github.com/xhd2015/xgo/runtime/core", "github.com/xhd2015/xgo/runtime/trace", "github.com/xhd2015/xgo/runtime/trace/stack_model"],
    "a traced function that assigns to its own parameters", "the arguments of finished calls are those at the end of the call, not those it was called with")

bug("r13-end-unlocked", "R13", [(S + "stack.go", '''	c.mu.Lock()
	defer c.mu.Unlock()
	// Do not call time.Time methods (e.g. IsZero) while holding mu — they are
	// instrumented and re-enter trap → GetData → same mutex (deadlock).
	if c.End == (time.Time{}) {
		c.End = t
	}
''', '''	// only the goroutine itself gets here
	if c.End == (time.Time{}) {
		c.mu.Lock()
		c.Depth = 0
		c.mu.Unlock()
		c.End = t
	}
''')], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		stk := &stack.Stack{Begin: time.Now()}
		done := make(chan bool)
		go func() {
			stk.SetEndIfZero(time.Now())
			close(done)
		}()
		time.Sleep(10 * time.Millisecond)
		stk.Snapshot()
		<-done
	}
}
''', ["time", "github.com/xhd2015/xgo/runtime/internal/stack"], "a trace exported while a goroutine it started is ending", "the end of a goroutine's stack is written without the lock the exporting goroutine reads it under")
BUGS["r13-end-unlocked"]["files"] = ["link.go.txt", "lib.go.txt", "racedemo/demo.sh"]
