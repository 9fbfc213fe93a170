package drv

import "verif.local/simk"

// Op is one step of a task. A plan is a tree of them.
type Op struct {
	K string // kind
	T int    `json:",omitempty"` // function, variable, key
	I int    `json:",omitempty"` // instance+1, form
	A int64  `json:",omitempty"`
	L int    `json:",omitempty"` // label of a hook or a task
	F int    `json:",omitempty"` // flags
	H string `json:",omitempty"` // kind of hook
	B []*Op  `json:",omitempty"`
	P []*Op  `json:",omitempty"`
}

const (
	fPanic     = 1 << iota // call: body panics; hook: before-step (or mock) panics
	fGoexit                // call: body ends the goroutine
	fErr                   // call: body fails; mock: error
	fPre                   // hook has a before-step
	fPost                  // hook has an after-step
	fModArg                // before-step changes the argument
	fModRes                // after-step changes the result
	fStop                  // before-step declares the call handled
	fPanicPost             // after-step panics
	fPostErr               // after-step returns an error
	fPtr                   // recorder takes pointers
	fFinish                // trace: callback
	fFile                  // trace: output file
	fFilter                // trace: filter
	fWFault                // trace: writing fails
	fInherit               // key is inherited
	fOwn                   // stop on own functions only
)

// Plan is everything that happens in one simulated execution, apart from the
// schedule.
type Plan struct {
	Profile string
	Seed    uint64
	Init    []*Op `json:",omitempty"`
	Main    []*Op
}

// Run is a plan with its schedule: the content of a replay file.
type Run struct {
	Plan  *Plan
	Sched simk.Config
}

type rng uint64

func (r *rng) u64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) p(percent int) bool { return r.n(100) < percent }

// profile weighs what the generator does.
type profile struct {
	prop   string
	iso    bool // one run per process
	noDecl bool // no new keys, they outlive the run
	tasks  int  // most tasks started
	ops    int  // most operations generated
	depth  int
	init   bool

	wCall, wHook, wCancel, wSpawn, wJoin, wYield, wRec, wTrace, wTLS, wVar, wWrite, wTick, wDefer int
	hooks                                                                                         map[string]int // weight of each hook kind

	pPanic, pErr, pGoexit, pMod, pStop, pHookBody, pHookPanic, pBody, pBound, pPostPanic, pPostErr int
	fns                                                                                            []int // functions used; nil: all
	nvars                                                                                          int
}

var mockKinds = map[string]int{"patch": 4, "mock": 3, "pname": 1, "mname": 1, "pmeth": 1, "mmeth": 1}
var obsKinds = map[string]int{"rec": 5, "fint": 5, "int": 3}
var vmockKinds = map[string]int{"vpatch": 3, "vpatchp": 2, "vmock": 2, "vpname": 1, "vpnamep": 1, "vmname": 1, "vmnamep": 1}
var vobsKinds = map[string]int{"vrec": 2, "vrecp": 1, "vfint": 2}

func kinds(ms ...interface{}) map[string]int {
	out := map[string]int{}
	for i := 0; i < len(ms); i += 2 {
		for k, v := range ms[i].(map[string]int) {
			out[k] += v * ms[i+1].(int)
		}
	}
	return out
}

var profiles = map[string]*profile{
	"R01": {tasks: 7, ops: 46, depth: 3, wCall: 26, wHook: 18, wCancel: 9, wSpawn: 16, wJoin: 3, wYield: 6, wRec: 2, wVar: 8, wWrite: 2,
		hooks: kinds(mockKinds, 3, vmockKinds, 2, obsKinds, 1), pBound: 40, pBody: 25, pHookBody: 10, pPanic: 6, pGoexit: 3, fns: []int{0, 1, 3, 9, 11, 13}, nvars: 4},
	"R02": {tasks: 4, ops: 60, depth: 2, wCall: 24, wHook: 26, wCancel: 26, wSpawn: 5, wJoin: 2, wYield: 4, wRec: 2, wVar: 10,
		hooks: kinds(mockKinds, 3, vmockKinds, 2, obsKinds, 3, vobsKinds, 2), pBound: 25, pBody: 15, pHookBody: 12, pPanic: 4, fns: []int{0, 3, 9}, nvars: 2},
	"R03": {tasks: 5, ops: 46, depth: 2, wCall: 34, wHook: 24, wCancel: 8, wSpawn: 10, wJoin: 2, wYield: 4,
		hooks: kinds(mockKinds, 3, obsKinds, 2), pBound: 85, pBody: 15, pMod: 20, fns: []int{9, 10, 11, 12, 14, 15}},
	"R04": {tasks: 4, ops: 44, depth: 3, wCall: 28, wHook: 24, wCancel: 6, wSpawn: 6, wJoin: 2, wYield: 3, wRec: 8, wVar: 8, wWrite: 2, wDefer: 3,
		hooks: kinds(mockKinds, 1, obsKinds, 5, vobsKinds, 2, vmockKinds, 1), pBound: 25, pBody: 25, pHookBody: 25, pPanic: 14, pMod: 15, pErr: 15, pHookPanic: 6, pPostPanic: 6, pGoexit: 3, nvars: 4, pPostErr: 8, pStop: 8},
	"R05": {tasks: 3, ops: 46, depth: 3, wCall: 28, wHook: 20, wCancel: 4, wSpawn: 5, wJoin: 2, wYield: 3, wRec: 12, wVar: 6, wTrace: 6, wDefer: 3,
		hooks: kinds(mockKinds, 3, obsKinds, 4, vobsKinds, 1, vmockKinds, 1), pBound: 20, pBody: 25, pHookBody: 70, pPanic: 14, pErr: 10, pHookPanic: 22, pPostPanic: 12, nvars: 3, pStop: 8},
	"R06": {iso: true, init: true, tasks: 5, ops: 44, depth: 2, wCall: 28, wHook: 16, wCancel: 10, wSpawn: 12, wJoin: 2, wYield: 4, wRec: 4, wVar: 10, wWrite: 2,
		hooks: kinds(mockKinds, 3, vmockKinds, 2, obsKinds, 2, vobsKinds, 1), pBound: 20, pBody: 15, pHookBody: 12, pPanic: 4, nvars: 4},
	"R07": {tasks: 5, ops: 50, depth: 2, wCall: 3, wHook: 20, wCancel: 10, wSpawn: 10, wJoin: 2, wYield: 5, wRec: 2, wVar: 36, wWrite: 14, wTrace: 3, wDefer: 2, pPanic: 2, pHookPanic: 4,
		hooks: kinds(vmockKinds, 5, vobsKinds, 1, obsKinds, 1), pBody: 25, pHookBody: 10, nvars: 5},
	"R09": {tasks: 5, ops: 60, depth: 4, wCall: 40, wHook: 9, wCancel: 3, wSpawn: 9, wJoin: 2, wYield: 3, wRec: 8, wVar: 8, wTrace: 12, wTick: 3, wDefer: 4,
		hooks: kinds(mockKinds, 3, obsKinds, 2, vobsKinds, 1, vmockKinds, 1), pBound: 25, pBody: 55, pHookBody: 20, pPanic: 12, pErr: 15, pMod: 15, pGoexit: 2, nvars: 4, pHookPanic: 4, pPostPanic: 4, pStop: 20},
	"R10": {tasks: 7, ops: 60, depth: 4, wCall: 44, wHook: 4, wCancel: 1, wSpawn: 18, wJoin: 1, wYield: 5, wRec: 4, wVar: 6, wTrace: 12, wTick: 3,
		hooks: kinds(mockKinds, 3, obsKinds, 1), pBound: 25, pBody: 55, pHookBody: 10, pPanic: 6, pErr: 10, pMod: 10, nvars: 3, pStop: 15},
	"R11": {tasks: 4, ops: 50, depth: 3, wCall: 22, wHook: 16, wCancel: 6, wSpawn: 6, wJoin: 2, wYield: 3, wRec: 8, wVar: 5, wTrace: 26, wTick: 2,
		hooks: kinds(mockKinds, 3, obsKinds, 3, vobsKinds, 1, vmockKinds, 1), pBound: 20, pBody: 20, pHookBody: 15, pPanic: 14, pErr: 12, pGoexit: 3, nvars: 3, pStop: 12},
	"R12": {iso: true, init: true, tasks: 9, ops: 60, depth: 3, wCall: 4, wHook: 2, wSpawn: 22, wJoin: 5, wYield: 6, wTLS: 60, wRec: 1,
		hooks: kinds(mockKinds, 1), pBody: 40},
	"R13": {noDecl: true, tasks: 7, ops: 56, depth: 3, wCall: 30, wHook: 12, wCancel: 5, wSpawn: 16, wJoin: 2, wYield: 3, wRec: 4, wVar: 6, wTrace: 8, wTLS: 4,
		hooks: kinds(mockKinds, 3, obsKinds, 3, vobsKinds, 1, vmockKinds, 1), pBound: 25, pBody: 40, pHookBody: 20, pPanic: 6, pErr: 8, pMod: 10, nvars: 4, pStop: 8},
	"R13I": {iso: true, tasks: 9, ops: 56, depth: 3, wCall: 30, wHook: 12, wCancel: 5, wSpawn: 16, wJoin: 2, wYield: 3, wRec: 4, wVar: 6, wTrace: 3, wTLS: 30,
		hooks: kinds(mockKinds, 3, obsKinds, 3, vobsKinds, 1, vmockKinds, 1), pBound: 25, pBody: 40, pHookBody: 20, pPanic: 6, pErr: 8, pMod: 10, nvars: 4},
	"R14": {tasks: 3, ops: 44, depth: 2, wCall: 36, wHook: 22, wCancel: 6, wSpawn: 4, wJoin: 1, wYield: 2, wRec: 6, wTrace: 4,
		hooks: kinds(mockKinds, 3, obsKinds, 3), pBound: 35, pBody: 20, pHookBody: 12, pPanic: 6, pErr: 25, pMod: 35, pStop: 35, pHookPanic: 3, pPostErr: 10},
}

type gen struct {
	r      rng
	p      *profile
	left   int
	tasks  int
	label  int
	hooks  []int // labels
	spawns []int
	keys   int
}

func pick(r *rng, m map[string]int, order []string) string {
	total := 0
	for _, k := range order {
		total += m[k]
	}
	if total == 0 {
		return ""
	}
	n := r.n(total)
	for _, k := range order {
		n -= m[k]
		if n < 0 {
			return k
		}
	}
	return ""
}

var hookOrder = []string{"patch", "mock", "pname", "mname", "pmeth", "mmeth", "rec", "fint", "int",
	"vpatch", "vpatchp", "vmock", "vpname", "vpnamep", "vmname", "vmnamep", "vrec", "vrecp", "vfint"}

// Generate makes the plan of a seed.
func Generate(prof string, seed uint64) *Plan {
	p := profiles[prof]
	g := &gen{r: rng(seed*0x9e3779b97f4a7c15 + 77), p: p}
	// runs differ in size and in how much of each feature they use
	q := *p
	if g.r.p(40) {
		q.hooks = map[string]int{}
		n := 1 + g.r.n(4)
		for i := 0; i < n; i++ {
			k := pick(&g.r, p.hooks, hookOrder)
			q.hooks[k] = p.hooks[k]
		}
	}
	all := q.fns
	if all == nil {
		for i := range fns {
			all = append(all, i)
		}
	}
	nf := 1 + g.r.n(4)
	q.fns = nil
	for i := 0; i < nf; i++ {
		q.fns = append(q.fns, all[g.r.n(len(all))])
	}
	if q.nvars > 0 {
		q.nvars = 1 + g.r.n(q.nvars)
	}
	if g.r.p(30) {
		q.ops = 4 + g.r.n(q.ops/2)
	} else {
		q.ops = q.ops/2 + g.r.n(q.ops/2+1)
	}
	q.tasks = 1 + g.r.n(q.tasks)
	g.p = &q
	g.left = q.ops
	g.keys = 3
	pl := &Plan{Profile: prof, Seed: seed}
	if q.init {
		g.left = q.ops / 3
		save := q.wSpawn
		q.wSpawn = 0
		pl.Init = g.block(ctx{depth: q.depth, max: 10, rank: 1000, init: true})
		q.wSpawn = save
		g.left = q.ops
	}
	pl.Main = g.block(ctx{depth: q.depth, max: 14, rank: 1000})
	for i := 0; i < 6 && g.left > q.ops/4; i++ {
		pl.Main = append(pl.Main, g.block(ctx{depth: q.depth, max: 10, rank: 1000})...)
	}
	return pl
}

type ctx struct {
	depth int
	max   int
	rank  int // calls only functions of a lower rank
	hook  bool
	varH  bool // inside a hook of a variable: no variable reads
	init  bool
	trace int
}

func (g *gen) block(c ctx) []*Op {
	var out []*Op
	n := 1 + g.r.n(c.max)
	for i := 0; i < n && g.left > 0; i++ {
		if op := g.op(c); op != nil {
			out = append(out, op)
		}
	}
	return out
}

func (g *gen) fn(c ctx) int {
	for i := 0; i < 6; i++ {
		f := g.p.fns[g.r.n(len(g.p.fns))]
		if f < c.rank {
			return f
		}
	}
	return -1
}

func (g *gen) inst(f int) int {
	if !fns[f].method {
		return 0
	}
	if g.r.p(45) {
		return 1
	}
	return 1 + g.r.n(fns[f].ninst)
}

func (g *gen) op(c ctx) *Op {
	p := g.p
	type wk struct {
		k string
		w int
	}
	ws := []wk{{"call", p.wCall}, {"hook", p.wHook}, {"cancel", p.wCancel}, {"spawn", p.wSpawn}, {"join", p.wJoin}, {"yield", p.wYield},
		{"rec", p.wRec}, {"trace", p.wTrace}, {"tls", p.wTLS}, {"var", p.wVar}, {"vwrite", p.wWrite}, {"tick", p.wTick}, {"defer", p.wDefer}}
	total := 0
	for _, x := range ws {
		total += x.w
	}
	n := g.r.n(total)
	k := ""
	for _, x := range ws {
		n -= x.w
		if n < 0 {
			k = x.k
			break
		}
	}
	g.left--
	sub := c
	sub.depth--
	sub.max = 4
	switch k {
	case "call":
		f := g.fn(c)
		if f < 0 {
			return nil
		}
		op := &Op{K: "call", T: f, I: g.inst(f), A: int64(g.r.n(50))}
		if c.depth > 0 && g.r.p(p.pBody) {
			if c.hook {
				sub.rank = f
			}
			op.B = g.block(sub)
		}
		if g.r.p(p.pErr) {
			op.F |= fErr
		}
		if g.r.p(p.pPanic) {
			op.F |= fPanic
			if !c.hook || g.r.p(50) {
				return &Op{K: "rec", B: []*Op{op}}
			}
		} else if !c.hook && !c.init && g.r.p(p.pGoexit) {
			op.F |= fGoexit
		}
		return op
	case "hook":
		h := pick(&g.r, p.hooks, hookOrder)
		if h == "" {
			return nil
		}
		g.label++
		op := &Op{K: "hook", H: h, L: g.label, A: int64(1 + g.r.n(9))}
		if c.hook && h != "rec" && h != "fint" && h != "int" && h != "vrec" && h != "vfint" && !(h[0] != 'v' && g.r.p(50)) {
			h = "rec"
			op.H = h
		}
		if h[0] == 'v' {
			if p.nvars == 0 {
				return nil
			}
			op.T = g.r.n(p.nvars)
			if h == "vpatchp" || h == "vpnamep" || h == "vmnamep" || h == "vrecp" {
				if vars[op.T].addr < 0 {
					op.T = 0
				}
			}
		} else if h != "int" {
			op.T = p.fns[g.r.n(len(p.fns))]
			f := fns[op.T]
			if f.noName && (h == "pname" || h == "mname" || h == "pmeth" || h == "mmeth") {
				op.H = "patch"
				h = "patch"
			}
			if f.method && (f.noFree || g.r.p(p.pBound)) && h != "pname" && h != "mname" {
				op.I = g.inst(op.T)
			}
			if h == "pmeth" || h == "mmeth" {
				if !f.method {
					op.H = "patch"
					h = op.H
				} else if op.I == 0 {
					op.I = g.inst(op.T)
				}
			}
		}
		obs := h == "rec" || h == "fint" || h == "int" || h == "vrec" || h == "vrecp" || h == "vfint"
		if obs {
			switch g.r.n(5) {
			case 0:
				op.F |= fPre
			case 1:
				op.F |= fPost
			default:
				op.F |= fPre | fPost
			}
			if g.r.p(p.pMod) {
				op.F |= fModArg | fPtr
			}
			if g.r.p(p.pMod) {
				op.F |= fModRes | fPtr
			}
			if (h == "fint" || h == "int") && g.r.p(p.pStop) {
				op.F |= fStop | fPre
			}
			if op.F&fPost != 0 && g.r.p(p.pPostPanic) {
				op.F |= fPanicPost
			}
			if op.F&fPost != 0 && (h == "fint" || h == "int") && g.r.p(p.pPostErr) {
				op.F |= fPostErr
			}
			if g.r.p(20) {
				op.F |= fPtr
			}
		} else if g.r.p(p.pErr) {
			op.F |= fErr
		}
		if (op.F&fPre != 0 || !obs) && g.r.p(p.pHookPanic) {
			op.F |= fPanic
		}
		hs := sub
		hs.hook = true
		hs.max = 2
		if h[0] == 'v' {
			hs.varH = true
			hs.rank = 0
		} else if h == "int" {
			hs.rank = 1000
			if c.hook {
				hs.rank = c.rank
			}
			hs.varH = true
		} else {
			hs.rank = op.T
			if c.rank < hs.rank {
				hs.rank = c.rank
			}
		}
		if c.depth > 0 {
			if g.r.p(p.pHookBody) {
				op.B = g.block(hs)
			}
			if obs && g.r.p(p.pHookBody) {
				op.P = g.block(hs)
			}
		}
		g.hooks = append(g.hooks, g.label)
		return op
	case "cancel":
		if len(g.hooks) == 0 {
			return nil
		}
		op := &Op{K: "cancel", L: g.hooks[g.r.n(len(g.hooks))]}
		if g.r.p(12) {
			op.K = "cancel2"
		}
		return op
	case "spawn":
		if g.tasks >= p.tasks || c.depth <= 0 {
			return nil
		}
		g.tasks++
		g.label++
		op := &Op{K: "spawn", L: g.label}
		sub.max = 10
		sub.rank = c.rank
		op.B = g.block(sub)
		g.spawns = append(g.spawns, g.label)
		return op
	case "join":
		if len(g.spawns) == 0 {
			return nil
		}
		return &Op{K: "join", L: g.spawns[g.r.n(len(g.spawns))]}
	case "yield":
		return &Op{K: "yield", A: int64(1 + g.r.n(30))}
	case "tick":
		return &Op{K: "tick", A: int64(g.r.n(1000000))}
	case "rec":
		if c.depth <= 0 {
			return nil
		}
		sub.depth = c.depth
		return &Op{K: "rec", B: g.block(sub)}
	case "defer":
		if c.depth <= 0 {
			return nil
		}
		return &Op{K: "defer", B: g.block(sub), P: g.block(sub)}
	case "trace":
		if c.depth <= 0 || c.init || c.trace >= 2 {
			return nil
		}
		op := &Op{K: "trace"}
		switch g.r.n(8) {
		case 0:
		case 1, 2:
			op.F |= fFile
		case 3:
			op.F |= fFile | fFinish
		default:
			op.F |= fFinish
		}
		if g.r.p(15) {
			op.F |= fFilter
			op.A = int64(g.r.n(8))
		}
		if op.F&fFile != 0 && g.r.p(30) {
			op.F |= fWFault
		}
		sub.trace++
		sub.max = 8
		op.B = g.block(sub)
		if g.r.p(15) {
			op.F |= fErr
		}
		if g.r.p(p.pPanic) {
			op.F |= fPanic
			return &Op{K: "rec", B: []*Op{op}}
		}
		return op
	case "tls":
		switch g.r.n(12) {
		case 0:
			if g.keys < 12 && !p.noDecl {
				op := &Op{K: "tdecl", T: g.keys}
				g.keys++
				if g.r.p(60) {
					op.F |= fInherit
				}
				return op
			}
			return nil
		case 1, 2, 3, 4, 5:
			return &Op{K: "tset", T: g.r.n(g.keys), A: int64(g.r.n(1000))}
		}
		return &Op{K: "tget", T: g.r.n(g.keys)}
	case "var":
		if p.nvars == 0 || c.varH {
			return nil
		}
		v := g.r.n(p.nvars)
		return &Op{K: "var", T: v, I: g.r.n(vars[v].forms)}
	case "vwrite":
		if p.nvars == 0 {
			return nil
		}
		return &Op{K: "vwrite", T: g.r.n(p.nvars), A: int64(g.r.n(500))}
	}
	return nil
}

// Schedule picks the scheduling policy of a seed.
func Schedule(seed uint64) simk.Config {
	r := rng(seed*0xd1342543de82ef95 + 5)
	c := simk.Config{Seed: r.u64() >> 1, MaxSteps: 4000000}
	switch r.n(10) {
	case 0, 1:
		c.Policy = simk.PolPCT
		c.Points = 1 + r.n(8)
		c.Horizon = 500 << r.n(6)
	case 2:
		c.Policy = simk.PolRR
		c.Period = 1 + r.n(60)
	case 3, 4:
		c.Policy = simk.PolStarve
		c.Period = 1 + r.n(40)
		c.Victim = r.n(6)
	case 5:
		c.Policy = simk.PolSerial
		c.Points = r.n(6)
		c.Horizon = 500 << r.n(6)
	default:
		c.Policy = simk.PolRandom
		c.Period = []int{1, 2, 3, 5, 10, 20, 50, 100, 300}[r.n(9)]
	}
	c.ClockMax = []int64{0, 10, 1000, 100000, 50000000}[r.n(5)]
	c.ClockZero = []int{0, 20, 60, 95}[r.n(4)]
	return c
}
