// Package drv drives the simulated program: it generates plans, runs them
// under the simulation kernel and compares everything the runtime does with a
// reference model.
package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/xhd2015/xgo/runtime/functab"
	"github.com/xhd2015/xgo/runtime/mock"
	_ "github.com/xhd2015/xgo/runtime/tls"
	_ "github.com/xhd2015/xgo/runtime/trace"
	"verif.local/api"
	"verif.local/app/wl"
	"verif.local/simk"
	"verif.local/simrt"
)

// result of one run, printed as a line of JSON.
type result struct {
	Viol  string `json:",omitempty"`
	Class string `json:",omitempty"`
	Seed  uint64
	Hash  string
	Steps uint64
	Run   *Run `json:",omitempty"`
}

type stuck struct{ reason string }

var exhausted bool

func setup() {
	declareKeys()
	// first uses that initialise tables happen before any run
	w = nil
	newWorld()
	functab.InfoFunc(wl.F0)
	functab.GetFuncByPkg(pkg, "F0")
	functab.GetTypeMethods(nil)
	_ = mock.Patch
	simrt.Warm()
}

func reset(plan *Plan) {
	curPlan = plan
	newWorld()
	nextTask = 0
	globals = nil
	inInit = false
	budget = 700
	nhook = 0
	sessions = nil
	byFile = map[string]*session{}
	stored = map[int]interface{}{}
	for _, v := range vars {
		stored[v.id] = v.stored()
	}
	globInst = map[int][]*install{}
	events = 0
	wl.V5 = map[string]int64{"k": 5}
}

// one executes a run to its end. It does not return on a violation.
func one(run *Run, isolated bool, report func(msg string)) (exh bool) {
	plan := run.Plan
	reset(plan)
	failer = report
	simk.FaultWrite = faultWrite
	simk.OnWrite = onWrite
	simrt.ResetFree()
	sk := simk.Begin(run.Sched)
	simk.OnStuck = func(reason string) { failClass = reason; report(reason) }
	simrt.AttachMain(sk)
	if !model {
		if isolated {
			simrt.InitFinished()
		}
		t := simrt.Go(func() { rmain(plan.Main) })
		simk.Join(t)
		simk.WaitAll()
		simk.End()
		return
	}
	if isolated {
		t := newTask(nil)
		t.sk = sk
		setUser(sk, t)
		inInit = true
		t.run(plan.Init)
		inInit = false
		if t.goexit || t.expect != nil {
			report("internal: init")
		}
		simrt.InitFinished()
		t.run(plan.Main)
		simk.WaitAll()
	} else {
		root := newTask(nil)
		root.sk = simrt.Go(func() { root.main(plan.Main) })
		simk.Join(root.sk)
		simk.WaitAll()
	}
	simk.End()
	for _, s := range sessions {
		s.check()
	}
	return
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func parseSeed(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

type summary struct {
	Runs     uint64
	SimSteps uint64
	Switches uint64
	SimNs    int64
	Reuses   uint64
	Stats    map[string]uint64
	Hashes   []uint64 // of the interleavings
	Policies map[string]uint64
	Tasks    uint64
	MaxTasks int
	LastSeed uint64
	Nontriv  []uint64
}

var policyNames = []string{"random", "pct", "round-robin", "starve", "serial"}

// Main is the simulator's command line:
//
//	work PROFILE SEED STRIDE COUNT SECONDS [PROGRESS]  run seeds, print a summary
//	run FILE                                 run a replay file
//	gen PROFILE SEED                         print the run of a seed
//	search FILE FROM N                            try N schedules for the plan
func Main() {
	args := os.Args[1:]
	api.Body = body
	if len(args) == 0 {
		fmt.Println("usage: work|run|gen|search")
		os.Exit(2)
	}
	switch args[0] {
	case "gen":
		emit(&Run{Plan: Generate(args[1], parseSeed(args[2])), Sched: Schedule(parseSeed(args[2]))})
	case "work":
		prof := args[1]
		model = !strings.HasPrefix(prof, "R13")
		p := profiles[prof]
		if !p.iso {
			setup()
			simrt.InitFinished()
		} else {
			setup()
		}
		seed, stride := parseSeed(args[2]), parseSeed(args[3])
		n, _ := strconv.Atoi(args[4])
		secs, _ := strconv.ParseFloat(args[5], 64)
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		sum := &summary{Stats: stats, Policies: map[string]uint64{}}
		for i := 0; i < n && (i == 0 || time.Now().Before(end)); i++ {
			if len(args) > 6 {
				os.WriteFile(args[6], []byte(strconv.FormatUint(seed, 10)), 0644)
			}
			run := &Run{Plan: Generate(prof, seed), Sched: Schedule(seed)}
			one(run, p.iso, func(msg string) {
				run.Sched.UseList = true
				run.Sched.Replay = simk.Switches()
				emit(&result{Viol: msg, Class: failClass, Seed: seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps(), Run: run})
				os.Exit(0)
			})
			sum.Runs++
			sum.SimSteps += simk.Steps()
			sum.Switches += uint64(simk.NumSwitches())
			sum.SimNs += simk.ClockSpan()
			sum.Policies[policyNames[run.Sched.Policy]]++
			h := simk.Hash() ^ rehash(run.Plan)
			sum.Hashes = append(sum.Hashes, h)
			if simk.Tasks() > 2 && simk.NumSwitches() > 3 && events+stats["call"] > 0 {
				sum.Nontriv = append(sum.Nontriv, h)
			}
			sum.Tasks += uint64(simk.Tasks())
			if simk.Tasks() > sum.MaxTasks {
				sum.MaxTasks = simk.Tasks()
			}
			sum.LastSeed = seed
			seed += stride
			if p.iso {
				break
			}
		}
		sum.Reuses = simrt.Reuses()
		if !model {
			stats["call"], stats["spawn"], stats["hook"], stats["trace"], stats["export"] = rCalls, rSpawns, rHooks, rTraces, rExports
		}
		emit(sum)
	case "run", "search":
		b, err := os.ReadFile(args[1])
		if err != nil {
			panic(err)
		}
		run := &Run{}
		if err := json.Unmarshal(b, run); err != nil {
			panic(err)
		}
		prof := run.Plan.Profile
		model = !strings.HasPrefix(prof, "R13")
		p := profiles[prof]
		setup()
		if !p.iso {
			simrt.InitFinished()
		}
		from, n := 0, 1
		if args[0] == "search" {
			from, _ = strconv.Atoi(args[2])
			n, _ = strconv.Atoi(args[3])
			if p.iso {
				n = 1
			}
		}
		for i := from; i < from+n; i++ {
			if i > 0 {
				run.Sched = Schedule(run.Plan.Seed + uint64(i)*7919)
			}
			one(run, p.iso, func(msg string) {
				out := *run
				out.Sched.UseList = true
				out.Sched.Replay = simk.Switches()
				emit(&result{Viol: msg, Class: failClass, Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps(), Run: &out})
				os.Exit(0)
			})
		}
		if f := os.Getenv("SIMDUMP"); f != "" {
			b, _ := json.Marshal(simk.Switches())
			os.WriteFile(f, b, 0644)
		}
		emit(&result{Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps()})
	}
}

func rehash(p *Plan) uint64 {
	h := uint64(p.Seed) * 0x9e3779b97f4a7c15
	return h
}
