// Package psys maps the goroutine and channel operations of the programs to
// the simulation kernel.
package psys

import (
	"fmt"
	"reflect"
	"unsafe"

	"verif.local/simk"
	"verif.local/simrt"
)

// LaneT is what a goroutine did, in order.
type LaneT struct {
	ID  string
	N   int
	Log []string
}

var lanes []*LaneT
var initLane = &LaneT{ID: "init"}

var live int

// Quiesce waits for all goroutines but the program's main one.
func Quiesce() {
	simk.Y()
	for live > 0 {
		simk.Block(unsafe.Pointer(&live))
	}
}

func Reset() {
	live = 0
	lanes = nil
	queues = map[unsafe.Pointer]*chanq{}
}

// Lanes of the run.
func Lanes() []*LaneT { return lanes }

// InitLanes are those of the time before the first run.
func InitLane() *LaneT { return initLane }

func NewInit() *LaneT {
	l := initLane
	initLane = &LaneT{ID: "init"}
	return l
}

func Start(id string) {
	l := &LaneT{ID: id}
	lanes = append(lanes, l)
	simk.Cur().User = unsafe.Pointer(l)
}

func Lane() *LaneT {
	if !simk.Active() {
		return initLane
	}
	if p := simk.Cur().User; p != nil {
		return (*LaneT)(p)
	}
	return initLane
}

// Go starts a goroutine.
func Go(fn func()) {
	if !simk.Active() {
		panic("goroutine during initialisation")
	}
	p := Lane()
	p.N++
	id := fmt.Sprintf("%s.%d", p.ID, p.N)
	live++
	simrt.Go(func() {
		Start(id)
		defer func() {
			live--
			if live == 0 {
				simk.Wake(unsafe.Pointer(&live))
			}
		}()
		defer func() {
			if e := recover(); e != nil {
				l := Lane()
				l.Log = append(l.Log, fmt.Sprintf("goroutine panics: %v", e))
			}
		}()
		fn()
	})
}

// GoCall starts a goroutine that calls fn with the arguments given now.
func GoCall(fn interface{}, args ...interface{}) { goCall(fn, false, args) }

func GoCallSlice(fn interface{}, args ...interface{}) { goCall(fn, true, args) }

func goCall(fn interface{}, slice bool, args []interface{}) {
	f := reflect.ValueOf(fn)
	t := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 && !slice {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() {
		if slice {
			f.CallSlice(in)
		} else {
			f.Call(in)
		}
	})
}

func Y() { simk.Y() }
