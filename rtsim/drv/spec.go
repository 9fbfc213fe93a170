package drv

import (
	"context"
	"fmt"
	"reflect"

	"github.com/xhd2015/xgo/runtime/core"
	"verif.local/app/wl"
)

const pkg = "verif.local/app/wl"

type ctxKey struct{}

// fnSpec describes one function of the user program.
type fnSpec struct {
	id     int
	name   string // identity name, "" if not checked
	short  string // method name for the ByName entry points, "" if none
	method bool
	ninst  int
	free   interface{}                // function or method expression
	bound  func(inst int) interface{} // method value
	obj    func(inst int) interface{} // receiver
	instOf func(recv interface{}) int // instance number of a receiver
	ftyp   reflect.Type               // type without receiver
	serial int                        // index of the serial argument (-1: none)
	a      int
	ctx    bool
	err    bool
	r      int // index of the int64 result (-1: none)
	body   func(c *call, r int64, s string, err error) []interface{}
	call   func(c *call) []interface{}
	sees   bool // the body is told serial and a
	noName bool // not found by name
	noFree bool // the method expression cannot be hooked
}

type world struct {
	ts [3]*wl.T
	gs [3]*wl.GT[string]
	vs [3]wl.V
	us [3]wl.U
	es [3]*wl.E
}

var w *world

func newWorld() {
	w = &world{}
	for i := range w.ts {
		w.ts[i] = &wl.T{ID: int64(i)}
		w.gs[i] = &wl.GT[string]{ID: int64(i)}
		w.vs[i] = wl.V{ID: int64(i)}
		w.us[i] = wl.U{ID: int64(i), L: []int64{int64(i)}}
		w.es[i] = &wl.E{T: w.ts[i], Name: "e"}
	}
	wl.V0 = 100
	wl.V1 = "v1"
	wl.V2 = &wl.S{X: 1, Y: "v2"}
	wl.V3 = wl.S{X: 3, Y: "v3"}
	wl.V4 = []int64{1, 2, 3}
}

func ctxFor(c *call) context.Context {
	return context.WithValue(context.Background(), ctxKey{}, c.serial)
}

func xsFor(serial int64) []int64 {
	n := int(serial % 3)
	var xs []int64
	for i := 0; i < n; i++ {
		xs = append(xs, serial+int64(i))
	}
	return xs
}

func rOnly(c *call, r int64, s string, err error) []interface{} { return []interface{}{r} }
func rErr(c *call, r int64, s string, err error) []interface{}  { return []interface{}{r, err} }

var fns []*fnSpec

func init() {
	withRecv := func(f interface{}) reflect.Type {
		t := reflect.TypeOf(f)
		var in, out []reflect.Type
		for i := 1; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, t.Out(i))
		}
		return reflect.FuncOf(in, out, t.IsVariadic())
	}
	tInst := func(r interface{}) int {
		if t, ok := r.(*wl.T); ok {
			return int(t.ID)
		}
		return -9
	}
	fns = []*fnSpec{
		{name: "F0", free: wl.F0, serial: 0, a: 1, r: 0, body: rOnly, sees: true,
			call: func(c *call) []interface{} { return []interface{}{wl.F0(c.serial, c.a)} }},
		{name: "F1", free: wl.F1, serial: 1, a: 2, r: 0, ctx: true, err: true, body: rErr, sees: true,
			call: func(c *call) []interface{} {
				r, e := wl.F1(ctxFor(c), c.serial, c.a)
				return []interface{}{r, e}
			}},
		{name: "F2", free: wl.F2, serial: 0, a: 1, r: -1, sees: true,
			body: func(*call, int64, string, error) []interface{} { return []interface{}{} },
			call: func(c *call) []interface{} { wl.F2(c.serial, c.a); return []interface{}{} }},
		{name: "F3", free: wl.F3, serial: 0, a: 1, r: 0, err: true, sees: true,
			body: func(c *call, r int64, s string, err error) []interface{} { return []interface{}{r + 7, err} },
			call: func(c *call) []interface{} { r, e := wl.F3(c.serial, c.a); return []interface{}{r, e} }},
		{name: "F4", free: wl.F4, serial: 0, a: 1, r: 0, sees: true,
			body: func(c *call, r int64, s string, err error) []interface{} { return []interface{}{r, s} },
			call: func(c *call) []interface{} {
				xs := xsFor(c.serial)
				switch len(xs) {
				case 0:
					r, s := wl.F4(c.serial, c.a)
					return []interface{}{r, s}
				case 1:
					r, s := wl.F4(c.serial, c.a, xs[0])
					return []interface{}{r, s}
				}
				r, s := wl.F4(c.serial, c.a, xs...)
				return []interface{}{r, s}
			}},
		{name: "F5", free: wl.F5, serial: 0, a: 2, r: 1, sees: true,
			body: func(c *call, r int64, s string, err error) []interface{} { return []interface{}{s, r} },
			call: func(c *call) []interface{} {
				s, r := wl.F5(c.serial, "blank", c.a, true)
				return []interface{}{s, r}
			}},
		{name: "F6", free: wl.F6, serial: 0, a: 1, r: 0, err: true, body: rErr,
			call: func(c *call) []interface{} { r, e := wl.F6(c.serial, c.a); return []interface{}{r, e} }},
		{name: "F7", free: wl.F7, serial: 0, a: 1, r: -1, err: true, sees: true,
			body: func(c *call, r int64, s string, err error) []interface{} { return []interface{}{err} },
			call: func(c *call) []interface{} { return []interface{}{wl.F7(c.serial, c.a)} }},
		{name: "F8", free: wl.F8, serial: 0, a: 3, r: -1, sees: true,
			body: func(c *call, r int64, s string, err error) []interface{} {
				return []interface{}{wl.S{X: r, Y: s}, &wl.S{X: r, Y: s}}
			},
			call: func(c *call) []interface{} {
				s, p := wl.F8(c.serial, wl.S{X: c.serial, Y: "s"}, &wl.S{X: c.serial + 1, Y: "p"}, c.a)
				return []interface{}{s, p}
			}},
		{name: "(*T).M0", short: "M0", method: true, free: (*wl.T).M0, serial: 0, a: 1, r: 0, body: rOnly, sees: true,
			bound: func(i int) interface{} { return w.ts[i].M0 }, obj: func(i int) interface{} { return w.ts[i] }, instOf: tInst,
			call: func(c *call) []interface{} {
				switch c.serial % 4 {
				case 0:
					var x wl.I = w.ts[c.inst]
					return []interface{}{x.M0(c.serial, c.a)}
				case 1:
					return []interface{}{w.es[c.inst].M0(c.serial, c.a)}
				case 2:
					f := w.ts[c.inst].M0
					return []interface{}{f(c.serial, c.a)}
				}
				return []interface{}{w.ts[c.inst].M0(c.serial, c.a)}
			}},
		{name: "(*T).M1", short: "M1", method: true, free: (*wl.T).M1, serial: 1, a: 2, r: 0, ctx: true, err: true, body: rErr, sees: true,
			bound: func(i int) interface{} { return w.ts[i].M1 }, obj: func(i int) interface{} { return w.ts[i] }, instOf: tInst,
			call: func(c *call) []interface{} {
				r, e := w.ts[c.inst].M1(ctxFor(c), c.serial, c.a)
				return []interface{}{r, e}
			}},
		{name: "V.M0", short: "M0", method: true, free: wl.V.M0, serial: 0, a: 1, r: 0, body: rOnly, sees: true,
			bound: func(i int) interface{} { return w.vs[i].M0 }, obj: func(i int) interface{} { return w.vs[i] },
			instOf: func(r interface{}) int {
				if v, ok := r.(wl.V); ok {
					return int(v.ID)
				}
				return -9
			},
			call: func(c *call) []interface{} {
				if c.serial%2 == 0 {
					p := &w.vs[c.inst]
					return []interface{}{p.M0(c.serial, c.a)}
				}
				return []interface{}{w.vs[c.inst].M0(c.serial, c.a)}
			}},
		{name: "U.M0", short: "M0", method: true, free: wl.U.M0, serial: 0, a: 1, r: 0, err: true, body: rErr, sees: true,
			bound: func(i int) interface{} { return w.us[i].M0 }, obj: func(i int) interface{} { return w.us[i] },
			instOf: func(r interface{}) int {
				if v, ok := r.(wl.U); ok {
					return int(v.ID)
				}
				return -9
			},
			call: func(c *call) []interface{} {
				r, e := w.us[c.inst].M0(c.serial, c.a)
				return []interface{}{r, e}
			}},
		{name: "", free: wl.G0[string], serial: 0, a: 1, r: 0, sees: true, noName: true,
			body: func(c *call, r int64, s string, err error) []interface{} {
				return []interface{}{r, fmt.Sprint("x", c.serial)}
			},
			call: func(c *call) []interface{} {
				r, x := wl.G0(c.serial, c.a, fmt.Sprint("x", c.serial))
				return []interface{}{r, x}
			}},
		{name: "", method: true, free: (*wl.GT[string]).M0, serial: 0, a: 1, r: 0, body: rOnly, sees: true, noName: true, noFree: true,
			bound: func(i int) interface{} { return w.gs[i].M0 }, obj: func(i int) interface{} { return w.gs[i] },
			instOf: func(r interface{}) int {
				if v, ok := r.(*wl.GT[string]); ok {
					return int(v.ID)
				}
				return -9
			},
			call: func(c *call) []interface{} { return []interface{}{w.gs[c.inst].M0(c.serial, c.a)} }},
		{name: "N.M0", short: "M0", method: true, free: wl.N.M0, serial: 0, a: 1, r: 0, body: rOnly, sees: true,
			bound: func(i int) interface{} { return wl.N(i).M0 }, obj: func(i int) interface{} { return wl.N(i) },
			instOf: func(r interface{}) int {
				if v, ok := r.(wl.N); ok {
					return int(v)
				}
				return -9
			},
			call: func(c *call) []interface{} { return []interface{}{wl.N(c.inst).M0(c.serial, c.a)} }},
		{name: "F16", free: wl.F16, serial: 0, a: 1, r: 0, body: rOnly, sees: true,
			call: func(c *call) []interface{} {
				return []interface{}{wl.F16(c.serial, c.a, func(x int64) int64 { return x + c.serial })}
			}},
	}
	for i, f := range fns {
		f.id = i
		if f.method {
			f.ninst = 3
			f.ftyp = withRecv(f.free)
		} else {
			f.ftyp = reflect.TypeOf(f.free)
		}
	}
}

// assigns: the function changes its parameters after its body.
func (f *fnSpec) assigns() bool {
	switch f.id {
	case 1, 2, 8, 9:
		return true
	}
	return false
}

// wantExtra is what the body must be handed besides serial and a.
func wantExtra(c *call) []interface{} {
	var ex []interface{}
	switch c.fn.id {
	case 4:
		for _, x := range xsFor(c.serial) {
			ex = append(ex, x)
		}
	case 8:
		ex = []interface{}{c.serial, "s", c.serial + 1, "p"}
	case 13:
		ex = []interface{}{fmt.Sprint("x", c.serial)}
	case 16:
		ex = []interface{}{int64(3) + c.serial}
	}
	return ex
}

// encode makes results of the given function type out of a decision.
func encode(t reflect.Type, r int64, s string, err error) []interface{} {
	out := make([]interface{}, t.NumOut())
	for i := range out {
		switch t.Out(i) {
		case reflect.TypeOf(int64(0)):
			out[i] = r
		case reflect.TypeOf(""):
			out[i] = s
		case errType:
			out[i] = err
		case reflect.TypeOf(wl.S{}):
			out[i] = wl.S{X: r, Y: s}
		case reflect.TypeOf(&wl.S{}):
			out[i] = &wl.S{X: r, Y: s}
		default:
			panic("encode: " + t.Out(i).String())
		}
	}
	return out
}

func zeros(t reflect.Type) []interface{} {
	out := make([]interface{}, t.NumOut())
	for i := range out {
		if t.Out(i) == errType {
			out[i] = error(nil)
			continue
		}
		out[i] = reflect.Zero(t.Out(i)).Interface()
	}
	return out
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func sameVal(a, b interface{}) bool {
	if pa, ok := a.(*wl.S); ok {
		pb, ok := b.(*wl.S)
		if !ok || (pa == nil) != (pb == nil) {
			return false
		}
		return pa == nil || *pa == *pb
	}
	return a == b
}

func sameVals(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func show(vs []interface{}) string {
	s := "["
	for i, v := range vs {
		if i > 0 {
			s += " "
		}
		if p, ok := v.(*wl.S); ok && p != nil {
			s += fmt.Sprintf("&%v", *p)
		} else {
			s += fmt.Sprint(v)
		}
	}
	return s + "]"
}

func toVals(t reflect.Type, vs []interface{}) []reflect.Value {
	out := make([]reflect.Value, len(vs))
	for i, v := range vs {
		if v == nil {
			out[i] = reflect.Zero(t.Out(i))
		} else {
			out[i] = reflect.ValueOf(v)
		}
	}
	return out
}

func objVals(o core.Object) []interface{} {
	out := make([]interface{}, o.NumField())
	for i := range out {
		out[i] = o.GetFieldIndex(i).Value()
	}
	return out
}

func ifaces(vs []reflect.Value) []interface{} {
	out := make([]interface{}, len(vs))
	for i, v := range vs {
		out[i] = v.Interface()
	}
	return out
}
