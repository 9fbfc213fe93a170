// Package api is how instrumented workload functions reach the driver.
package api

import "context"

// Out is what a body decided.
type Out struct {
	R   int64
	S   string
	Err error
}

// Body is called by every workload function.
var Body func(fn int, inst int, serial int64, a int64, ctx context.Context, extra ...interface{}) *Out

func B(fn int, inst int, serial int64, a int64, extra ...interface{}) *Out {
	return Body(fn, inst, serial, a, nil, extra...)
}

func BC(fn int, inst int, serial int64, a int64, ctx context.Context, extra ...interface{}) *Out {
	return Body(fn, inst, serial, a, ctx, extra...)
}

// Y is a preemption point in workload code, set by the driver.
var Y = func() {}
