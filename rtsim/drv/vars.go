package drv

import (
	"reflect"

	"verif.local/app/wl"
)

// varSpec describes one package variable of the user program.
type varSpec struct {
	id    int
	name  string
	ptr   interface{}
	typ   reflect.Type
	forms int // number of ways to read it; form addrForm reads its address
	addr  int // form that takes the address, -1 if none
	make  func(a int64) interface{}
	proj  func(form int, v interface{}) interface{} // what reading v in a form yields
	read  func(form int) interface{}
	write func(a int64)
}

var vars []*varSpec

func init() {
	vars = []*varSpec{
		{name: "V0", ptr: &wl.V0, forms: 2, addr: 1,
			make: func(a int64) interface{} { return a },
			proj: func(form int, v interface{}) interface{} { return v },
			read: func(form int) interface{} {
				if form == 1 {
					return wl.Addr0()
				}
				return wl.Read0()
			},
			write: func(a int64) { wl.Write0(a) }},
		{name: "V1", ptr: &wl.V1, forms: 1, addr: -1,
			make:  func(a int64) interface{} { return "s" + string(rune('a'+a%26)) },
			proj:  func(form int, v interface{}) interface{} { return v },
			read:  func(form int) interface{} { return wl.Read1() },
			write: func(a int64) { wl.Write1("s" + string(rune('a'+a%26))) }},
		{name: "V2", ptr: &wl.V2, forms: 2, addr: -1,
			make: func(a int64) interface{} { return &wl.S{X: a, Y: "p"} },
			proj: func(form int, v interface{}) interface{} {
				if form == 1 {
					return v.(*wl.S).X
				}
				return v
			},
			read: func(form int) interface{} {
				if form == 1 {
					return wl.Field2()
				}
				return wl.Read2()
			},
			write: func(a int64) { wl.Write2(&wl.S{X: a, Y: "p"}) }},
		{name: "V3", ptr: &wl.V3, forms: 3, addr: 2,
			make: func(a int64) interface{} { return wl.S{X: a, Y: "v"} },
			proj: func(form int, v interface{}) interface{} {
				if form == 1 {
					return v.(wl.S).X
				}
				return v
			},
			read: func(form int) interface{} {
				switch form {
				case 1:
					return wl.Field3()
				case 2:
					return wl.Addr3()
				}
				return wl.Read3()
			},
			write: func(a int64) {
				if a%2 == 0 {
					wl.Write3(wl.S{X: a, Y: "v"})
				} else {
					wl.WriteF3(a)
				}
			}},
		{name: "V4", ptr: &wl.V4, forms: 2, addr: -1,
			make: func(a int64) interface{} { return []int64{a, a + 1, a + 2} },
			proj: func(form int, v interface{}) interface{} {
				if form == 1 {
					return len(v.([]int64))
				}
				return v.([]int64)[1]
			},
			read: func(form int) interface{} {
				if form == 1 {
					return wl.Len4()
				}
				return wl.Elem4(1)
			},
			write: func(a int64) { wl.Write4([]int64{a, a + 1, a + 2}) }},
	}
	for i, v := range vars {
		v.id = i
		v.typ = reflect.TypeOf(v.ptr).Elem()
	}
}

func (v *varSpec) stored() interface{} { return reflect.ValueOf(v.ptr).Elem().Interface() }

// afterWrite is the value of the variable after write(a).
func (v *varSpec) afterWrite(old interface{}, a int64) interface{} {
	if v.id == 3 && a%2 != 0 {
		s := old.(wl.S)
		s.X = a
		return s
	}
	return v.make(a)
}

func sameVar(a, b interface{}) bool {
	if x, ok := a.([]int64); ok {
		y, ok := b.([]int64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return sameVal(a, b)
}
