// Command verifdrv drives the simulated tool: it generates plans, runs them in
// the simulated operating system and judges what the code did.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"strconv"
	"syscall"
	"time"

	_ "github.com/xhd2015/xgo/cmd/xgo"
	"verif.local/io/sys"
	"verif.local/simk"
)

// result of one run, printed as a line of JSON.
type result struct {
	Viol  string `json:",omitempty"`
	Class string `json:",omitempty"`
	Seed  uint64
	Hash  string
	Steps uint64
	Run   *Run `json:",omitempty"`
}

// Op is one element of a plan: a step, a file of a tree or a fault.
type Op struct {
	K string // kind
	N string `json:",omitempty"` // name
	S string `json:",omitempty"` // text
	T int    `json:",omitempty"`
	I int    `json:",omitempty"`
	A int64  `json:",omitempty"`
	L int    `json:",omitempty"`
	F int    `json:",omitempty"`
	H string `json:",omitempty"`
	E string `json:",omitempty"` // environment
	B []*Op  `json:",omitempty"`
	P []*Op  `json:",omitempty"`
}

// Plan is everything that happens in one simulated execution, apart from the
// schedule.
type Plan struct {
	Profile string
	Seed    uint64
	Salt    uint64           `json:",omitempty"` // directory order, temporary names, map order
	Jump    int64            `json:",omitempty"` // per mille of steps at which the clock jumps
	JumpMax int64            `json:",omitempty"`
	Quota   int64            `json:",omitempty"` // free space
	Opt     map[string]int64 `json:",omitempty"`
	Main    []*Op            `json:",omitempty"`
	Tree    []*Op            `json:",omitempty"`
	Faults  []*Op            `json:",omitempty"`
}

// Run is a plan with its schedule: the content of a replay file.
type Run struct {
	Plan  *Plan
	Sched simk.Config
}

type rng uint64

func (r *rng) u64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) p(percent int) bool { return r.n(100) < percent }

func (r *rng) pick(s ...string) string { return s[r.n(len(s))] }

// profile is what simulates one property.
type profile struct {
	gen  func(r *rng, p *Plan)
	run  func(p *Plan)
	jump bool // the property does not depend on the clock being smooth
	max  uint64
	// one-time preparation
	init func()
}

var profiles = map[string]*profile{}

var (
	stats  = map[string]uint64{}
	failer func(class, msg string)
	events int // per run
	out    *os.File
)

func stat(k string) { stats[k]++ }

// viol reports a violation and ends the process.
func viol(class, format string, a ...interface{}) {
	failer(class, fmt.Sprintf(format, a...))
}

var errnos = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS}

// setFaults translates the faults of a plan.
func setFaults(p *Plan) {
	for _, f := range p.Faults {
		sys.Faults = append(sys.Faults, &sys.Fault{Proc: f.T, Kind: f.S, N: int(f.A), Act: f.K, Err: errnos[f.I%len(errnos)], Arg: f.F})
	}
}

// fault makes a fault of process proc.
func (r *rng) fault(proc int, acts []string, kinds []string, max int) *Op {
	f := &Op{K: acts[r.n(len(acts))], T: proc, S: kinds[r.n(len(kinds))], I: r.n(len(errnos))}
	switch r.n(3) {
	case 0:
		f.A = int64(r.n(max))
	case 1:
		f.A = int64(r.n(max/4 + 1))
	default:
		f.A = int64(r.n(8))
	}
	if f.K == "torn" || f.K == "short" {
		f.F = r.n(1000)
	}
	return f
}

func Generate(prof string, seed uint64) *Plan {
	pr := profiles[prof]
	r := rng(seed*0x9e3779b97f4a7c15 + 177)
	p := &Plan{Profile: prof, Seed: seed, Salt: r.u64() >> 1, Opt: map[string]int64{}}
	if pr.jump && r.p(30) {
		p.Jump = int64(1 + r.n(100))
		p.JumpMax = int64(1000) << uint(r.n(22))
	}
	pr.gen(&r, p)
	return p
}

// Schedule picks the scheduling policy of a seed.
func Schedule(seed uint64) simk.Config {
	r := rng(seed*0xd1342543de82ef95 + 5)
	c := simk.Config{Seed: r.u64() >> 1, MaxSteps: 40000000}
	switch r.n(10) {
	case 0, 1:
		c.Policy = simk.PolPCT
		c.Points = 1 + r.n(8)
		c.Horizon = 100 << r.n(9)
	case 2:
		c.Policy = simk.PolRR
		c.Period = 1 + r.n(60)
	case 3, 4:
		c.Policy = simk.PolStarve
		c.Period = 1 + r.n(40)
		c.Victim = r.n(8)
	case 5:
		c.Policy = simk.PolSerial
		c.Points = r.n(6)
		c.Horizon = 100 << r.n(9)
	default:
		c.Policy = simk.PolRandom
		c.Period = []int{1, 2, 3, 5, 10, 20, 50, 100, 300}[r.n(9)]
	}
	c.ClockMax = []int64{0, 10, 1000, 100000}[r.n(4)]
	c.ClockZero = []int{0, 20, 60, 95}[r.n(4)]
	return c
}

// one executes a run to its end. It does not return on a violation.
func one(run *Run, report func(class, msg string)) {
	p := run.Plan
	failer = report
	events = 0
	simk.OnStuck = func(reason string) { report("stuck", "no progress: "+reason+stuckInfo()) }
	simk.Begin(run.Sched)
	sys.Reset()
	sys.RestoreGlobals()
	sys.Salt = p.Salt
	sys.JumpPercent, sys.JumpMax = p.Jump, p.JumpMax
	pr := profiles[p.Profile]
	pr.run(p)
	simk.WaitAll()
	simk.End()
	for k, v := range sys.Stat {
		stats[k] += v
	}
}

var phase string

func stuckInfo() string {
	if phase == "" {
		return ""
	}
	return " (" + phase + ")"
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	out.Write(append(b, '\n'))
}

func parseSeed(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

type summary struct {
	Runs     uint64
	SimSteps uint64
	Switches uint64
	SimNs    int64
	Reuses   uint64
	Stats    map[string]uint64
	Hashes   []uint64 // of the interleavings
	Policies map[string]uint64
	Tasks    uint64
	MaxTasks int
	LastSeed uint64
	Nontriv  []uint64
}

var policyNames = []string{"random", "pct", "round-robin", "starve", "serial"}

// The simulator's command line:
//
//	work PROFILE SEED STRIDE COUNT SECONDS [PROGRESS]  run seeds, print a summary
//	run FILE                                 run a replay file
//	gen PROFILE SEED                         print the run of a seed
//	search FILE FROM N                            try N schedules for the plan
func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: work|run|gen|search")
		os.Exit(2)
	}
	// nothing of the code under test reaches the real world
	out = os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	log.SetOutput(io.Discard)
	http.DefaultTransport = transport{}
	http.DefaultClient = &http.Client{Transport: transport{}}
	report := func(run *Run) func(class, msg string) {
		return func(class, msg string) {
			o := *run
			o.Sched.UseList = true
			o.Sched.Replay = simk.Switches()
			emit(&result{Viol: msg, Class: class, Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps(), Run: &o})
			os.Exit(0)
		}
	}
	prep := func(prof string) *profile {
		p := profiles[prof]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no profile "+prof)
			os.Exit(2)
		}
		if p.init != nil {
			p.init()
		}
		return p
	}
	switch args[0] {
	case "gen":
		prep(args[1])
		emit(&Run{Plan: Generate(args[1], parseSeed(args[2])), Sched: Schedule(parseSeed(args[2]))})
	case "work":
		prof := args[1]
		prep(prof)
		seed, stride := parseSeed(args[2]), parseSeed(args[3])
		n, _ := strconv.Atoi(args[4])
		secs, _ := strconv.ParseFloat(args[5], 64)
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		sum := &summary{Stats: stats, Policies: map[string]uint64{}}
		for i := 0; i < n && (i == 0 || time.Now().Before(end)); i++ {
			if len(args) > 6 {
				os.WriteFile(args[6], []byte(strconv.FormatUint(seed, 10)), 0644)
			}
			run := &Run{Plan: Generate(prof, seed), Sched: Schedule(seed)}
			one(run, report(run))
			sum.Runs++
			sum.SimSteps += simk.Steps()
			sum.Switches += uint64(simk.NumSwitches())
			sum.SimNs += simk.ClockSpan()
			sum.Policies[policyNames[run.Sched.Policy]]++
			h := simk.Hash() ^ run.Plan.Seed*0x9e3779b97f4a7c15
			sum.Hashes = append(sum.Hashes, h)
			if events > 0 {
				sum.Nontriv = append(sum.Nontriv, h)
			}
			sum.Tasks += uint64(simk.Tasks())
			if simk.Tasks() > sum.MaxTasks {
				sum.MaxTasks = simk.Tasks()
			}
			sum.LastSeed = seed
			seed += stride
		}
		emit(sum)
	case "run", "search":
		b, err := os.ReadFile(args[1])
		if err != nil {
			panic(err)
		}
		run := &Run{}
		if err := json.Unmarshal(b, run); err != nil {
			panic(err)
		}
		prep(run.Plan.Profile)
		from, n := 0, 1
		if args[0] == "search" {
			from, _ = strconv.Atoi(args[2])
			n, _ = strconv.Atoi(args[3])
		}
		for i := from; i < from+n; i++ {
			if i > 0 {
				run.Sched = Schedule(run.Plan.Seed + uint64(i)*7919)
			}
			one(run, report(run))
		}
		if f := os.Getenv("SIMDUMP"); f != "" {
			b, _ := json.Marshal(simk.Switches())
			os.WriteFile(f, b, 0644)
		}
		emit(&result{Seed: run.Plan.Seed, Hash: fmt.Sprintf("%x", simk.Hash()), Steps: simk.Steps()})
	}
}

// transport carries HTTP requests over the simulated network.
type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	sys.Y()
	if sys.HTTP == nil {
		return nil, syscall.ECONNREFUSED
	}
	resp := sys.HTTP(r.URL.String())
	if resp == nil {
		return nil, syscall.ECONNREFUSED
	}
	if resp.DialErr != nil {
		return nil, resp.DialErr
	}
	h := http.Header{}
	for k, v := range resp.Header {
		h.Set(k, v)
	}
	body := resp.Body
	rerr := resp.Err
	if resp.Cut >= 0 && resp.Cut < len(body) {
		body = body[:resp.Cut]
		if rerr == nil {
			rerr = io.ErrUnexpectedEOF // the transport checks the declared length
			if resp.Length < 0 {
				rerr = nil
			}
		}
	} else {
		rerr = nil
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status)), StatusCode: resp.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: resp.Length,
		Body: &netBody{data: body, err: rerr, ctx: r.Context()}, Request: r,
	}, nil
}

type netBody struct {
	data   []byte
	err    error
	closed bool
	ctx    context.Context
}

func (b *netBody) Read(p []byte) (int, error) {
	sys.Y()
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(b.data) == 0 {
		if b.err == errStall {
			// nothing more arrives
			for i := 0; i < 600; i++ {
				if err := b.ctx.Err(); err != nil {
					return 0, err
				}
				sys.Sleep(time.Second)
			}
			return 0, syscall.ETIMEDOUT
		}
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	if len(p) > 700 {
		p = p[:700]
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *netBody) Close() error { b.closed = true; return nil }
