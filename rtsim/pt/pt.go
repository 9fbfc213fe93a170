// Package pt is what the generated programs may use besides the language: it
// records what they do and bounds what they do. It is not instrumented.
package pt

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"verif.local/pt/psys"
)

// Var is a package variable of a program.
type Var struct {
	Name string
	Ptr  interface{}
	Read bool // never written by the program
}

var (
	fuel, pars, rare int
	rareMod          int
	off              map[int]bool
)

// Begin prepares a run: chunks in skip are left out.
func Begin(skip map[int]bool, mod int) {
	fuel, pars, rare = 60, 9, 0
	rareMod = mod
	off = skip
	psys.Reset()
}

func On(id int) bool { return !off[id] }

// Out is asked by functions that run on the main goroutine only.
func Out() bool {
	fuel--
	return fuel < 0
}

// Par tells whether goroutines may still be started.
func Par() bool {
	pars--
	return pars >= 0
}

func Rare() bool {
	rare++
	return rareMod > 0 && rare%rareMod == 0
}

func Log(vs ...interface{}) {
	var s []string
	for _, v := range vs {
		s = append(s, Show(reflect.ValueOf(&v).Elem()))
	}
	put(strings.Join(s, " "))
}

func put(s string) {
	l := psys.Lane()
	if len(l.Log) < 400 {
		l.Log = append(l.Log, s)
	}
}

// Line records where its caller is.
func Line() {
	pc, file, line, _ := runtime.Caller(1)
	name := runtime.FuncForPC(pc).Name()
	name = name[strings.LastIndex(name, "/")+1:]
	// how closures are called depends on the optimiser
	if i := strings.Index(name, ".func"); i > 0 {
		name = name[:i]
	}
	put("line " + file[strings.LastIndex(file, "/")+1:] + ":" + strconv.Itoa(line) + " " + name)
}

func Panic(v interface{}) string {
	if e, ok := v.(runtime.Error); ok {
		return "runtime error " + copyless(e.Error())
	}
	return Show(reflect.ValueOf(&v).Elem())
}

// Show prints a value with everything it refers to.
func Show(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, 0)
	return b.String()
}

// Own prints a value without what pointers in it refer to.
func Own(v reflect.Value) string {
	own = true
	defer func() { own = false }()
	return Show(v)
}

var own bool

func show(b *strings.Builder, v reflect.Value, d int) {
	if d > 8 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		e := v.Elem()
		if x, ok := iface(v).(error); ok {
			fmt.Fprintf(b, "error(%s)", x.Error())
			return
		}
		b.WriteString(typ(e.Type()) + ":")
		show(b, e, d+1)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		if own {
			return
		}
		show(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var x strings.Builder
			show(&x, k, d+1)
			x.WriteString("=")
			show(&x, v.MapIndex(k), d+1)
			ks = append(ks, x.String())
		}
		sort.Strings(ks)
		b.WriteString("map" + fmt.Sprint(ks))
	case reflect.Func:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if f, ok := iface(v).(func(int) int); ok {
			fmt.Fprintf(b, "f(2)=%d", f(2))
			return
		}
		b.WriteString("func")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Chan:
		b.WriteString("chan")
	default:
		if v.CanInt() {
			fmt.Fprint(b, v.Int())
		} else if v.CanUint() {
			fmt.Fprint(b, v.Uint())
		} else if v.CanFloat() {
			fmt.Fprint(b, v.Float())
		} else if v.Kind() == reflect.Bool {
			fmt.Fprint(b, v.Bool())
		} else {
			b.WriteString(v.Kind().String())
		}
	}
}

func iface(v reflect.Value) interface{} {
	if !v.CanInterface() {
		return nil
	}
	return v.Interface()
}

func typ(t reflect.Type) string { return copyless(t.String()) }

// copyless makes names of the two copies of a program the same.
func copyless(s string) string { return strings.ReplaceAll(s, "verif.local/orig/", "verif.local/app/") }

// Copier copies values with everything they refer to.
type Copier struct {
	seen map[unsafe.Pointer]reflect.Value
}

func NewCopier() *Copier { return &Copier{seen: map[unsafe.Pointer]reflect.Value{}} }

func (c *Copier) Copy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		if x, ok := c.seen[v.UnsafePointer()]; ok && x.Type() == v.Type() {
			return x
		}
		n := reflect.New(v.Type().Elem())
		c.seen[v.UnsafePointer()] = n
		n.Elem().Set(c.Copy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		out.Set(c.Copy(v.Elem()))
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := out.Field(i)
			if !f.CanSet() {
				if p := v.Type().PkgPath(); p != "" && !strings.HasPrefix(p, "verif.local/") {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(c.Copy(f))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(c.Copy(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(c.Copy(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, c.Copy(v.MapIndex(k)))
		}
	default:
		out.Set(v)
	}
	return out
}

// --- helpers of the programs ---

func B(x bool) int {
	if x {
		return 1
	}
	return 0
}

func Cut(s string) string {
	if len(s) > 24 {
		return s[len(s)-24:]
	}
	return s
}

func S(i int) string { return strconv.Itoa(i % 1000) }

func P(i int) *int { return &i }

func Err(s string) error { return errors.New(s) }

func Sl(l []int) []int {
	for len(l) < 3 {
		l = append(l[:len(l):len(l)], 7)
	}
	return l
}

func U(i int) uint { return uint(i) % 5 }

func Inc(i int) int { return i + 1 }

func Id(i int) int { return i }

func Lim(i int) int {
	if i < 0 {
		i = -i
	}
	return i & 3
}

func Nop(...interface{}) bool { return true }
func No(...interface{}) bool  { return false }
func Use(...interface{})      {}

func Never() chan int { return nil }

// Quiesce lets all other goroutines end.
func Quiesce() { psys.Quiesce() }
