// Package pdrv runs generated programs twice, as written and instrumented, and
// compares what they do.
package pdrv

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
	"verif.local/pt"
	"verif.local/pt/psys"
	"verif.local/simk"
	"verif.local/simrt"
)

// Copy is one copy of a program.
type Copy struct {
	Vars    []pt.Var
	Entries []func(int, int) (int, string)
	Chunks  int

	init   []reflect.Value // the variables' initial values
	traced bool
}

type prog struct {
	n         int
	bad       string // why the instrumented copy cannot be built
	orig, ins *Copy
}

var progs = map[int]*prog{}
var order []int

// Register adds a program.
func Register(n int, orig, ins *Copy) {
	progs[n] = &prog{n: n, orig: orig, ins: ins}
	order = append(order, n)
}

// Bad adds a program whose instrumented copy cannot be built.
func Bad(n int, why string) {
	progs[n] = &prog{n: n, bad: why}
	order = append(order, n)
}

type call struct {
	E    int // entry
	X, Y int
}

type chunk struct{ C int }

type mocked struct {
	V string // name of the variable
	S uint64 // seed of the value
}

type Plan struct {
	Profile string
	Seed    uint64
	Prog    int
	Calls   []call
	Chunks  []chunk
	Mocks   []mocked
	Watch   int // 1: interceptors, 2: trace, 4: recorders on functions
	Rare    int
}

type Run struct {
	Plan  *Plan
	Sched simk.Config
}

type result struct {
	Viol  string `json:",omitempty"`
	Class string `json:",omitempty"`
	Seed  uint64
	Hash  string
	Steps uint64
	Run   *Run `json:",omitempty"`
}

type summary struct {
	Runs     uint64
	SimSteps uint64
	Switches uint64
	SimNs    int64
	Reuses   uint64
	Stats    map[string]uint64
	Hashes   []uint64
	Policies map[string]uint64
	Tasks    uint64
	MaxTasks int
	LastSeed uint64
	Nontriv  []uint64
}

type rng uint64

func (r *rng) u64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int { return int(r.u64() % uint64(n)) }

var stats = map[string]uint64{}

func generate(seed uint64) *Plan {
	r := rng(seed*0x9e3779b97f4a7c15 + 3)
	p := &Plan{Profile: "R08", Seed: seed, Prog: order[int(seed%uint64(len(order)))]}
	g := progs[p.Prog]
	if g.bad != "" {
		return p
	}
	n := 1 + r.n(4)
	for i := 0; i < n; i++ {
		p.Calls = append(p.Calls, call{E: r.n(len(g.orig.Entries)), X: r.n(41) - 20, Y: r.n(9)})
	}
	// some runs leave out parts, so that others come to be reached
	skip := []int{0, 0, 20, 50}[r.n(4)]
	for i := 0; i < g.orig.Chunks; i++ {
		if r.n(100) >= skip {
			p.Chunks = append(p.Chunks, chunk{i})
		}
	}
	p.Rare = []int{0, 0, 1, 3, 7, 15}[r.n(6)]
	switch r.n(8) {
	case 0:
	case 1, 2:
		p.Watch = 1
	case 3:
		p.Watch = 2
	case 4:
		p.Watch = 3
	case 5:
		p.Watch = 1 + r.n(3)
		fallthrough
	default:
		for _, v := range g.ins.Vars {
			if v.Read && r.n(100) < 40 {
				p.Mocks = append(p.Mocks, mocked{v.Name, r.u64() % 1000})
			}
		}
	}
	return p
}

func schedule(seed uint64) simk.Config {
	r := rng(seed*0xd1342543de82ef95 + 5)
	c := simk.Config{Seed: r.u64() >> 1, MaxSteps: 3000000}
	switch r.n(10) {
	case 0, 1:
		c.Policy = simk.PolPCT
		c.Points = 1 + r.n(8)
		c.Horizon = 500 << r.n(6)
	case 2:
		c.Policy = simk.PolRR
		c.Period = 1 + r.n(60)
	case 3, 4:
		c.Policy = simk.PolStarve
		c.Period = 1 + r.n(40)
		c.Victim = r.n(6)
	case 5:
		c.Policy = simk.PolSerial
		c.Points = r.n(6)
		c.Horizon = 500 << r.n(6)
	default:
		c.Policy = simk.PolRandom
		c.Period = []int{1, 2, 3, 5, 10, 20, 50, 100, 300}[r.n(9)]
	}
	c.ClockMax = 1000
	return c
}

// outcome is everything a run shows.
type outcome struct {
	lanes map[string][]string
	state []string
	steps uint64
}

type (
	ctxT      = context.Context
	funcInfoT = *core.FuncInfo
	objectT   = core.Object
)

func (c *Copy) save() {
	cp := pt.NewCopier()
	for _, v := range c.Vars {
		c.init = append(c.init, cp.Copy(reflect.ValueOf(v.Ptr).Elem()))
	}
}

func (c *Copy) reset() {
	cp := pt.NewCopier()
	for i, v := range c.Vars {
		reflect.ValueOf(v.Ptr).Elem().Set(cp.Copy(c.init[i]))
	}
}

func (c *Copy) state() []string {
	var out []string
	for _, v := range c.Vars {
		out = append(out, v.Name+" = "+pt.Show(reflect.ValueOf(v.Ptr).Elem()))
	}
	return out
}

func (c *Copy) index(name string) int {
	for i, v := range c.Vars {
		if v.Name == name {
			return i
		}
	}
	return -1
}

// other makes a value of a variable's type, different from its own.
func (c *Copy) other(i int, seed uint64) reflect.Value {
	r := rng(seed)
	v := pt.NewCopier().Copy(c.init[i])
	alter(v, &r, 0)
	return v
}

func alter(v reflect.Value, r *rng, d int) {
	if d > 4 {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1 + int64(r.n(50)))
	case reflect.String:
		v.SetString("m" + strconv.Itoa(r.n(100)))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float64:
		v.SetFloat(v.Float() + 0.5 + float64(r.n(9)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				alter(v.Field(i), r, d+1)
			}
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			alter(v.Index(i), r, d+1)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			alter(v.Elem(), r, d+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return pt.Show(ks[i]) < pt.Show(ks[j]) })
		for _, k := range ks {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			alter(e, r, d+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if _, ok := v.Interface().(error); ok {
			v.Set(reflect.ValueOf(pt.Err("mocked" + strconv.Itoa(r.n(100)))))
			return
		}
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		alter(e, r, d+1)
		v.Set(e)
	case reflect.Func:
		k := r.n(1000)
		if v.Type() == reflect.TypeOf(pt.Inc) {
			v.Set(reflect.ValueOf(func(i int) int { return i*3 + k }))
		}
	}
}

// simulate runs the calls of the plan on one copy.
func simulate(p *Plan, c *Copy, sched simk.Config, before func() func()) *outcome {
	on := map[int]bool{}
	for _, x := range p.Chunks {
		on[x.C] = true
	}
	skip := map[int]bool{}
	for i := 0; i < c.Chunks; i++ {
		if !on[i] {
			skip[i] = true
		}
	}
	out := &outcome{lanes: map[string][]string{}}
	simrt.ResetFree()
	sk := simk.Begin(sched)
	simrt.AttachMain(sk)
	pt.Begin(skip, p.Rare)
	t := simrt.Go(func() {
		psys.Start("m")
		done := before()
		body := func() {
			for _, k := range p.Calls {
				one(c, k)
			}
			psys.Quiesce()
		}
		if p.Watch&2 != 0 && c.traced {
			trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) { stats["trace"]++ }}, nil, func() (interface{}, error) {
				body()
				return nil, nil
			})
		} else {
			body()
		}
		// functions among them see mocked variables
		out.state = c.state()
		done()
	})
	simk.Join(t)
	simk.WaitAll()
	simk.End()
	out.steps = simk.Steps()
	for _, l := range psys.Lanes() {
		out.lanes[l.ID] = l.Log
	}
	return out
}

func one(c *Copy, k call) {
	l := psys.Lane()
	defer func() {
		if e := recover(); e != nil {
			l.Log = append(l.Log, "panic "+pt.Panic(e))
		}
	}()
	a, s := c.Entries[k.E%len(c.Entries)](k.X, k.Y)
	l.Log = append(l.Log, fmt.Sprintf("returns %d %q", a, s))
}

func differ(a, b *outcome) string {
	var ids []string
	for id := range a.lanes {
		ids = append(ids, id)
	}
	for id := range b.lanes {
		if _, ok := a.lanes[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		x, ok := a.lanes[id]
		y, ok2 := b.lanes[id]
		if !ok || !ok2 {
			return fmt.Sprintf("goroutine %s: started by one of the two only", id)
		}
		for i := 0; i < len(x) || i < len(y); i++ {
			switch {
			case i >= len(x):
				return fmt.Sprintf("goroutine %s, event %d: nothing in the original, %s", id, i, y[i])
			case i >= len(y):
				return fmt.Sprintf("goroutine %s, event %d: %s in the original, nothing", id, i, x[i])
			case x[i] != y[i]:
				return fmt.Sprintf("goroutine %s, event %d: %s in the original, %s", id, i, x[i], y[i])
			}
		}
	}
	return ""
}

func diffState(a, b []string, skip map[string]bool) string {
	for i := range a {
		if i < len(b) && a[i] != b[i] && !skip[a[i][:strings.Index(a[i], " ")]] {
			return fmt.Sprintf("%s in the original, %s", a[i], b[i][strings.Index(b[i], "=")+2:])
		}
	}
	return ""
}

// unsuitable ends the process when the program itself cannot go on.
var unsuitable func()

// execute runs a plan; report does not return.
func execute(run *Run, report func(class, msg string)) bool {
	p := run.Plan
	g := progs[p.Prog]
	if g == nil {
		return false
	}
	if g.bad != "" {
		report("build", fmt.Sprintf("program %d: the instrumented copy cannot be built: %s", p.Prog, g.bad))
	}
	simk.OnStuck = func(reason string) {
		stats["unsuitable program"]++
		fmt.Fprintf(os.Stderr, "program %d seed %d: %s\n", p.Prog, p.Seed, reason)
		unsuitable()
	}
	serial := simk.Config{Seed: 1, Policy: simk.PolSerial, MaxSteps: 1 << 40}
	g.orig.reset()
	g.ins.reset()
	nop := func() func() { return func() {} }
	// the original; it must not depend on the schedule
	set := map[string]bool{}
	applied := map[string]uint64{}
	for _, m := range p.Mocks {
		i := g.ins.index(m.V)
		if i < 0 || functab.InfoVar(g.ins.Vars[i].Ptr) == nil {
			stats["variable not mockable"]++
			continue
		}
		applied[m.V] = m.S
	}
	setMocked := func() {
		for n, s := range applied {
			i := g.orig.index(n)
			reflect.ValueOf(g.orig.Vars[i].Ptr).Elem().Set(g.orig.other(i, s))
			set[n] = true
		}
	}
	setMocked()
	want := simulate(p, g.orig, serial, nop)
	g.orig.reset()
	setMocked()
	free := run.Sched
	free.UseList = false
	again := simulate(p, g.orig, free, nop)
	if d := differ(want, again); d != "" {
		stats["unsuitable program"]++
		fmt.Fprintf(os.Stderr, "program %d seed %d depends on the schedule: %s\n", p.Prog, p.Seed, d)
		return false
	}
	if d := diffState(want.state, again.state, nil); d != "" {
		stats["unsuitable program"]++
		fmt.Fprintf(os.Stderr, "program %d seed %d depends on the schedule: %s\n", p.Prog, p.Seed, d)
		return false
	}
	simk.OnStuck = func(reason string) { report("stuck", fmt.Sprintf("program %d, instrumented: %s", p.Prog, reason)) }
	got := simulate(p, g.ins, run.Sched, func() func() { return hooks(p, g.ins, applied) })
	what := ""
	if len(applied) > 0 {
		what = ", with mocked variables"
	}
	if d := differ(want, got); d != "" {
		report("behaviour", fmt.Sprintf("program %d%s: %s in the instrumented copy", p.Prog, what, d))
	}
	if d := diffState(want.state, got.state, set); d != "" {
		report("state", fmt.Sprintf("program %d%s: final state: %s in the instrumented copy", p.Prog, what, d))
	}
	// mocked variables keep their own value
	for n := range set {
		i := g.ins.index(n)
		if a, b := pt.Own(g.ins.init[i]), pt.Own(reflect.ValueOf(g.ins.Vars[i].Ptr).Elem()); a != b {
			report("stored", fmt.Sprintf("program %d: the mocked variable %s was %s and is %s", p.Prog, n, a, b))
		}
	}
	stats["log entries"] += uint64(len(want.lanes["m"]))
	for _, l := range want.lanes {
		for _, s := range l {
			if strings.HasPrefix(s, "panic") {
				stats["panic"]++
			}
		}
	}
	stats["goroutine"] += uint64(len(want.lanes) - 1)
	stats["mocked variable"] += uint64(len(set))
	stats[fmt.Sprintf("watch %d", p.Watch)]++
	return true
}

// hooks installs what the plan wants; the result undoes it.
func hooks(p *Plan, c *Copy, mocks map[string]uint64) func() {
	var undo []func()
	var names []string
	for n := range mocks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		i := c.index(n)
		x := c.other(i, mocks[n])
		ft := reflect.FuncOf(nil, []reflect.Type{x.Type()}, false)
		f := reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value {
			stats["intercepted read"]++
			return []reflect.Value{x}
		})
		undo = append(undo, mock.Patch(c.Vars[i].Ptr, f.Interface()))
	}
	if p.Watch&1 != 0 {
		undo = append(undo, trap.AddInterceptor(&trap.Interceptor{
			Pre: func(ctx ctxT, f funcInfoT, args, results objectT) (interface{}, error) {
				stats["intercepted call"]++
				return nil, nil
			},
			Post: func(ctx ctxT, f funcInfoT, args, results objectT, data interface{}) error { return nil },
		}))
	}
	return func() {
		for _, u := range undo {
			u()
		}
	}
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func parseSeed(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

var policyNames = []string{"random", "pct", "round-robin", "starve", "serial"}

func prepare() {
	sort.Ints(order)
	for _, n := range order {
		g := progs[n]
		if g.bad != "" {
			continue
		}
		g.orig.save()
		g.ins.save()
		g.ins.traced = true
		if d := diffState(g.orig.state(), g.ins.state(), nil); d != "" {
			g.bad = "state after initialisation: " + d
		}
	}
	simrt.Warm()
	simrt.InitFinished()
}

// Main is the command line, as of the other simulators.
func Main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: work|run|gen|search")
		os.Exit(2)
	}
	prepare()
	switch args[0] {
	case "gen":
		emit(&Run{Plan: generate(parseSeed(args[2])), Sched: schedule(parseSeed(args[2]))})
	case "work":
		seed, stride := parseSeed(args[2]), parseSeed(args[3])
		n, _ := strconv.Atoi(args[4])
		secs, _ := strconv.ParseFloat(args[5], 64)
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		sum := &summary{Stats: stats, Policies: map[string]uint64{}}
		unsuitable = func() {
			sum.LastSeed = seed
			emit(sum)
			os.Exit(0)
		}
		for i := 0; i < n && (i == 0 || time.Now().Before(end)); i++ {
			if len(args) > 6 {
				os.WriteFile(args[6], []byte(strconv.FormatUint(seed, 10)), 0644)
			}
			run := &Run{Plan: generate(seed), Sched: schedule(seed)}
			ok := execute(run, func(class, msg string) {
				run.Sched.UseList = true
				run.Sched.Replay = simk.Switches()
				emit(&result{Viol: msg, Class: class, Seed: seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps(), Run: run})
				os.Exit(0)
			})
			sum.Runs++
			sum.SimSteps += simk.Steps()
			sum.Switches += uint64(simk.NumSwitches())
			sum.SimNs += simk.ClockSpan()
			sum.Policies[policyNames[run.Sched.Policy]]++
			h := simk.Hash() ^ run.Plan.Seed*0x9e3779b97f4a7c15
			sum.Hashes = append(sum.Hashes, h)
			if ok && simk.Steps() > 50 {
				sum.Nontriv = append(sum.Nontriv, h)
			}
			sum.Tasks += uint64(simk.Tasks())
			if simk.Tasks() > sum.MaxTasks {
				sum.MaxTasks = simk.Tasks()
			}
			sum.LastSeed = seed
			seed += stride
		}
		sum.Reuses = simrt.Reuses()
		emit(sum)
	case "run", "search":
		b, err := os.ReadFile(args[1])
		if err != nil {
			panic(err)
		}
		run := &Run{}
		if err := json.Unmarshal(b, run); err != nil {
			panic(err)
		}
		from, n := 0, 1
		if args[0] == "search" {
			from, _ = strconv.Atoi(args[2])
			n, _ = strconv.Atoi(args[3])
		}
		unsuitable = func() {
			emit(&result{Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps()})
			os.Exit(0)
		}
		for i := from; i < from+n; i++ {
			if i > 0 {
				run.Sched = schedule(run.Plan.Seed + uint64(i)*7919)
			}
			execute(run, func(class, msg string) {
				out := *run
				out.Sched.UseList = true
				out.Sched.Replay = simk.Switches()
				emit(&result{Viol: msg, Class: class, Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps(), Run: &out})
				os.Exit(0)
			})
		}
		if f := os.Getenv("SIMDUMP"); f != "" {
			b, _ := json.Marshal(simk.Switches())
			os.WriteFile(f, b, 0644)
		}
		emit(&result{Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps()})
	}
}
