package drv

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/tls"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
	"verif.local/api"
	"verif.local/simk"
	"verif.local/simrt"
)

// The race profile runs plans without the reference model: the driver keeps
// state only per goroutine, so that every conflicting access the detector
// reports is one of the code under test.

type rtask struct {
	depth   int
	nrec    int
	serial  int64
	budget  int
	cancels map[int][]func()
	kids    map[int]*simk.Task
	ops     []*Op // body of the call in flight
	op      *Op
	goexit  bool
}

//go:norace
func rcur() *rtask { return (*rtask)(simk.Cur().User) }

//go:norace
func rset(t *rtask) { simk.Cur().User = unsafe.Pointer(t) }

//go:norace
func rspawned() bool {
	if nextTask >= 44 {
		return false
	}
	nextTask++
	return true
}

//go:norace
func rcount(k *uint64) { *k++ }

var rCalls, rSpawns, rHooks, rTraces, rExports uint64

func rbody(fn int, inst int, serial int64, a int64) *api.Out {
	t := rcur()
	op := t.op
	t.op = nil
	if op != nil {
		t.run(op.B)
		if op.F&fPanic != 0 && t.nrec > 0 {
			panic("user panic")
		}
	}
	return &api.Out{R: serial, S: "b"}
}

func rmock(h *hook) []interface{} {
	t := rcur()
	t.op = nil
	t.hook(h.op.B)
	return encode(h.fn.ftyp, 1, "m", nil)
}

func (t *rtask) hook(ops []*Op) {
	t.depth++
	defer func() { t.depth-- }()
	op := t.op
	t.op = nil
	t.run(ops)
	t.op = op
}

func robserve(h *hook, info *core.FuncInfo, args, results core.Object) error {
	t := rcur()
	for i := 0; i < args.NumField(); i++ {
		_ = args.GetFieldIndex(i).Name()
	}
	t.hook(h.op.B)
	if h.has(fStop) && info.Kind == core.Kind_Func && info.IdentityName != "Trace" {
		t.op = nil
		return trap.ErrMocked
	}
	return nil
}

func rrecord(h *hook, in []reflect.Value) { rcur().hook(h.op.B) }

func (t *rtask) run(ops []*Op) {
	for _, op := range ops {
		t.budget--
		if t.budget < 0 || t.goexit {
			return
		}
		t.exec(op)
	}
}

func (t *rtask) exec(op *Op) {
	simk.Y()
	switch op.K {
	case "call":
		c := &call{op: op, fn: fns[op.T], inst: 0, a: op.A}
		if op.I > 0 {
			c.inst = op.I - 1
		}
		t.serial++
		c.serial = t.serial
		saved := t.op
		t.op = op
		c.fn.call(c)
		t.op = saved
		rcount(&rCalls)
	case "var":
		v := vars[op.T]
		form := op.I
		if form >= v.forms {
			form = 0
		}
		v.read(form)
	case "hook":
		h := &hook{op: op, inst: -1}
		switch op.H {
		case "int":
		case "vpatch", "vmock", "vpname", "vmname", "vrec", "vfint":
			h.vs = vars[op.T]
		case "vpatchp", "vpnamep", "vmnamep", "vrecp":
			h.vs = vars[op.T]
			h.ptr = true
			h.ptrVal = reflect.New(h.vs.typ).Interface()
		default:
			h.fn = fns[op.T]
			h.inst = op.I - 1
		}
		if len(t.cancels) > 12 {
			return
		}
		saved := t.op
		t.op = nil
		t.cancels[op.L] = append(t.cancels[op.L], h.install())
		t.op = saved
		rcount(&rHooks)
	case "cancel", "cancel2":
		l := t.cancels[op.L]
		if len(l) > 0 {
			f := l[len(l)-1]
			t.cancels[op.L] = l[:len(l)-1]
			f()
		}
	case "spawn":
		if !rspawned() {
			return
		}
		rcount(&rSpawns)
		t.kids[op.L] = simrt.Go(func() { rmain(op.B) })
	case "join":
		if k := t.kids[op.L]; k != nil {
			simk.Join(k)
		}
	case "yield":
		for i := int64(0); i < op.A; i++ {
			simk.Y()
		}
	case "rec", "defer":
		func() {
			t.nrec++
			d := t.depth
			saved := t.op
			defer func() {
				t.nrec--
				recover()
				t.depth = d
				t.op = saved
			}()
			t.op = nil
			t.run(op.B)
			t.run(op.P)
		}()
	case "trace":
		cfg := trace.Config{}
		if op.F&fFinish != 0 {
			cfg.OnFinish = func(st stack_model.IStack) {
				rcount(&rExports)
				d := st.Data()
				_ = len(d.Children)
				b, err := st.JSON()
				if err != nil || len(b) == 0 {
					fail("JSON of a finished trace: %v", err)
				}
			}
		}
		if op.F&fFile != 0 {
			cfg.OutputFile = "out/x.json"
		}
		rcount(&rTraces)
		saved := t.op
		t.op = nil
		trace.Trace(cfg, 1, func() (interface{}, error) {
			t.run(op.B)
			return 2, nil
		})
		t.op = saved
	case "tset":
		keys[op.T%3].Set(op.A)
	case "tget":
		keys[op.T%3].Get()
	case "tdecl":
		tls.Declare("x").Set(1)
	}
}

func rmain(ops []*Op) {
	t := &rtask{cancels: map[int][]func(){}, kids: map[int]*simk.Task{}, budget: 150}
	rset(t)
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4000)
			buf = buf[:runtime.Stack(buf, false)]
			fail("unexpected panic: %v\n%s", r, fmt.Sprintf("%s", buf))
		}
	}()
	t.run(ops)
}
