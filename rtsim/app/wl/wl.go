// Package wl is the user program: instrumented by the real pipeline.
package wl

import (
	"context"
	"errors"

	"verif.local/api"
)

func F0(serial int64, a int64) int64 {
	return api.B(0, -1, serial, a).R
}

func F1(ctx context.Context, serial int64, a int64) (int64, error) {
	o := api.BC(1, -1, serial, a, ctx)
	serial, a = -serial-1, -a-1
	return o.R, o.Err
}

func F2(serial int64, a int64) {
	api.B(2, -1, serial, a)
	serial, a = -serial-1, -a-1
}

func F3(serial int64, a int64) (r int64, err error) {
	defer func() {
		r += 7
	}()
	o := api.B(3, -1, serial, a)
	return o.R, o.Err
}

func F4(serial int64, a int64, xs ...int64) (int64, string) {
	ex := make([]interface{}, len(xs))
	for i, x := range xs {
		ex[i] = x
	}
	o := api.B(4, -1, serial, a, ex...)
	return o.R, o.S
}

func F5(serial int64, _ string, a int64, _ bool) (_ string, _ int64) {
	o := api.B(5, -1, serial, a)
	return o.S, o.R
}

func F6(int64, int64) (int64, error) {
	o := api.B(6, -1, -1, -1)
	return o.R, o.Err
}

func F7(serial int64, a int64) error {
	return api.B(7, -1, serial, a).Err
}

type S struct {
	X int64
	Y string
}

func F8(serial int64, s S, p *S, a int64) (S, *S) {
	o := api.B(8, -1, serial, a, s.X, s.Y, p.X, p.Y)
	serial, a = -serial-1, -a-1
	s.X, p.X = -1, -2
	p = nil
	return S{o.R, o.S}, &S{o.R, o.S}
}

// T has pointer methods.
type T struct {
	ID  int64
	pad [3]int64
}

func (t *T) M0(serial int64, a int64) int64 {
	r := api.B(9, int(t.ID), serial, a).R
	serial, a = -serial-1, -a-1
	return r
}

func (t *T) M1(ctx context.Context, serial int64, a int64) (r int64, err error) {
	o := api.BC(10, int(t.ID), serial, a, ctx)
	return o.R, o.Err
}

// V has value methods.
type V struct {
	ID int64
}

func (v V) M0(serial int64, a int64) int64 {
	return api.B(11, int(v.ID), serial, a).R
}

// U is not comparable.
type U struct {
	ID int64
	L  []int64
}

func (u U) M0(serial int64, a int64) (int64, error) {
	o := api.B(12, int(u.ID), serial, a)
	return o.R, o.Err
}

func G0[X any](serial int64, a int64, x X) (int64, X) {
	o := api.B(13, -1, serial, a, x)
	return o.R, x
}

// GT is generic.
type GT[X any] struct {
	ID int64
	x  X
}

func (g *GT[X]) M0(serial int64, a int64) int64 {
	return api.B(14, int(g.ID), serial, a).R
}

// I is called through its interface.
type I interface {
	M0(serial int64, a int64) int64
}

// E embeds T: M0 is promoted.
type E struct {
	*T
	Name string
}

// N is a named non-struct type.
type N int64

func (n N) M0(serial int64, a int64) int64 {
	return api.B(15, int(n), serial, a).R
}

func F16(serial, a int64, f func(int64) int64) int64 {
	o := api.B(16, -1, serial, a, f(3))
	return o.R
}

var errInit = errors.New("init")

// package variables
var V0 int64 = 100
var V1 string = "v1"
var V2 *S = &S{X: 1, Y: "v2"}
var V3 S = S{X: 3, Y: "v3"}
var V4 []int64 = []int64{1, 2, 3}
var V5 map[string]int64 = map[string]int64{"k": 5}

// Read0 and the others read variables the way user code does.
var (
	Read0  func() int64
	Addr0  func() *int64
	Write0 func(x int64)
	Inc0   func(x int64)
	Raw0   func() *int64

	Read1  func() string
	Write1 func(x string)

	Read2  func() *S
	Field2 func() int64
	Write2 func(x *S)

	Read3   func() S
	Field3  func() int64
	Addr3   func() *S
	Write3  func(x S)
	WriteF3 func(x int64)

	Elem4  func(i int) int64
	Len4   func() int
	Write4 func(x []int64)

	Elem5 func(k string) int64

	ReadC0 func() int
)

func init() {
	Read0 = func() int64 { return V0 }
	Addr0 = func() *int64 { return &V0 }
	Write0 = func(x int64) { V0 = x }
	Inc0 = func(x int64) { V0 += x }
	Raw0 = func() *int64 { return addr0 }

	Read1 = func() string { return V1 }
	Write1 = func(x string) { V1 = x }

	Read2 = func() *S { return V2 }
	Field2 = func() int64 { return V2.X }
	Write2 = func(x *S) { V2 = x }

	Read3 = func() S { return V3 }
	Field3 = func() int64 { return V3.X }
	Addr3 = func() *S { return &V3 }
	Write3 = func(x S) { V3 = x }
	WriteF3 = func(x int64) { V3.X = x }

	Elem4 = func(i int) int64 { return V4[i] }
	Len4 = func() int { return len(V4) }
	Write4 = func(x []int64) { V4 = x }

	Elem5 = func(k string) int64 { return V5[k] }
	ReadC0 = func() int { return C0 }
}

var addr0 = &V0

const C0 = 77
