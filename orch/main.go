// Command orch runs a check: it fans simulated runs out over worker
// processes, and on a violation minimises it and writes the replay file.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// run is the content of a replay file.
type run struct {
	Plan  map[string]interface{}
	Sched map[string]interface{}
}

func (r *run) seed() uint64 {
	n, _ := strconv.ParseUint(fmt.Sprint(r.Plan["Seed"]), 10, 64)
	return n
}

type result struct {
	Viol  string
	Class string
	Seed  uint64
	Hash  string
	Steps uint64
	Run   *run
}

type summary struct {
	result
	Runs     uint64
	SimSteps uint64
	Switches uint64
	SimNs    int64
	Reuses   uint64
	Stats    map[string]uint64
	Hashes   []uint64
	Nontriv  []uint64
	Policies map[string]uint64
	Tasks    uint64
	MaxTasks int
	LastSeed uint64
}

type opts struct {
	bin, prop, prof, tier, verif string
	seed                         uint64
	secs                         float64
	iso                          bool
	variant                      string
	meta                         map[string]interface{}
	dir                          string
	workers                      int
	level                        string
}

func (o *opts) cmd(secs float64, args ...string) *exec.Cmd {
	c := exec.Command(o.bin, args...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=system", "GOMAXPROCS=2")
	return c
}

// exec runs the simulator and decodes what it prints. died is set when it did
// not get to print anything.
func (o *opts) exec(secs float64, out interface{}, args ...string) (died string, err error) {
	c := o.cmd(secs, args...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		return "", err
	}
	timer := time.AfterFunc(time.Duration(secs*float64(time.Second)), func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	werr := c.Wait()
	timedOut := !timer.Stop()
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	last := lines[len(lines)-1]
	if werr == nil && decode([]byte(last), out) == nil {
		return "", nil
	}
	if timedOut {
		return "no progress: the execution did not come to an end", nil
	}
	return firstLine(se.String(), werr), nil
}

func decode(b []byte, out interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(out)
}

func firstLine(stderr string, err error) string {
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		return "data race: " + raceSummary(stderr[i:])
	}
	for _, l := range strings.Split(stderr, "\n") {
		for _, p := range []string{"fatal error:", "panic:", "runtime:", "signal", "SIG"} {
			if strings.HasPrefix(l, p) {
				return "the process died: " + l + where(stderr)
			}
		}
	}
	return fmt.Sprintf("the process died: %v: %.200s", err, stderr)
}

// where names the first functions of xgo's own code in a traceback.
func where(stderr string) string {
	var out []string
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "github.com/xhd2015/xgo/") && len(out) < 3 {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimPrefix(l, "github.com/xhd2015/xgo/"))
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " in " + strings.Join(out, " < ")
}

func raceSummary(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if (strings.Contains(l, " at 0x") && strings.Contains(l, " by ")) && i+1 < len(lines) {
			kind := strings.Fields(l)[0]
			if kind == "Previous" {
				kind = "previous " + strings.Fields(l)[1]
			}
			f := ""
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				n := strings.TrimSpace(lines[j])
				if strings.Contains(n, "xhd2015/xgo") || strings.Contains(n, "verif.local") {
					f = n
					break
				}
			}
			if f == "" {
				f = strings.TrimSpace(lines[i+1])
			}
			out = append(out, kind+" in "+strings.TrimPrefix(f, "github.com/xhd2015/xgo/"))
		}
	}
	return strings.Join(out, ", ")
}

var ncand int64

func (o *opts) search(r *run, from, n int) *result {
	b, _ := json.Marshal(r)
	f := filepath.Join(o.dir, fmt.Sprintf("cand-%.8x-%d.json", sha256.Sum256(b), atomic.AddInt64(&ncand, 1)))
	os.WriteFile(f, b, 0644)
	defer os.Remove(f)
	if o.iso {
		for i := from; i < from+n; i++ {
			if res := o.search1(r, f, i, 1); res.Viol != "" {
				return res
			}
		}
		return &result{}
	}
	return o.search1(r, f, from, n)
}

func (o *opts) search1(r *run, f string, from, n int) *result {
	res := &result{}
	died, err := o.exec(20+float64(n)*0.5, res, "search", f, strconv.Itoa(from), strconv.Itoa(n))
	if err != nil {
		fatal("%v", err)
	}
	if died != "" {
		rr := *r
		return &result{Viol: died, Class: class(died), Run: &rr}
	}
	return res
}

// class of a violation that comes without one.
func class(s string) string {
	if strings.HasPrefix(s, "data race") || strings.HasPrefix(s, "the process died") {
		return s
	}
	f := strings.Fields(s)
	if len(f) > 6 {
		f = f[:6]
	}
	return strings.Join(f, " ")
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "orch: "+format+"\n", args...)
	os.Exit(2)
}

func mergeStats(a, b map[string]uint64) {
	for k, v := range b {
		a[k] += v
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: orch check CONFIG.json | replay BIN FILE")
	}
	switch os.Args[1] {
	case "check":
		check()
	case "replay":
		replay()
	case "minimise":
		// orch minimise BIN FILE [iso]
		o := &opts{bin: os.Args[2], iso: len(os.Args) > 4, dir: os.TempDir()}
		r := load(os.Args[3])
		res := o.search(r, 0, 1)
		if res.Viol == "" {
			fatal("no violation")
		}
		res = o.minimise(res, time.Now().Add(120*time.Second))
		b, _ := json.MarshalIndent(res.Run, "", " ")
		fmt.Println(res.Viol)
		fmt.Println(string(b))
	}
}

func load(f string) *run {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var x struct {
		run
		Run *run
	}
	if err := decode(b, &x); err != nil {
		fatal("%v", err)
	}
	if x.Run != nil {
		return x.Run
	}
	return &x.run
}

func replay() {
	o := &opts{bin: os.Args[2], dir: os.TempDir()}
	r := load(os.Args[3])
	res := o.search1(r, writeTemp(r), 0, 1)
	if res.Viol == "" {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("VIOLATION reproduced: %s\nsteps=%d hash=%s\n", res.Viol, res.Steps, res.Hash)
	os.Exit(1)
}

func writeTemp(r *run) string {
	b, _ := json.Marshal(r)
	f, err := os.CreateTemp("", "replay-*.json")
	if err != nil {
		fatal("%v", err)
	}
	f.Write(b)
	f.Close()
	return f.Name()
}

type finding struct {
	Property string
	Class    string // class of the violation
	Contains []string
	What     string
	Fixed    string
}

func (o *opts) findings() []finding {
	f, err := os.Open(filepath.Join(o.verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var k finding
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			fatal("known_findings.jsonl: %v", err)
		}
		if k.Property == o.prop && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

func check() {
	start := time.Now()
	var cfg struct {
		Prop, Tier, Verif, Dir string
		Stages                 []struct {
			Bin, Variant, Profile string
			Iso                   bool
			Share                 float64 // of the time
		}
		Seed    uint64
		Secs    float64
		Workers int
		Level   string
		Meta    map[string]interface{}
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		fatal("%v", err)
	}
	if cfg.Workers == 0 {
		cfg.Workers = 8
	}
	total := &summary{Stats: map[string]uint64{}, Policies: map[string]uint64{}}
	var detRuns, detDiff uint64
	var samples []interface{}
	shares := 0.0
	for i := range cfg.Stages {
		if cfg.Stages[i].Share == 0 {
			cfg.Stages[i].Share = 1
		}
		shares += cfg.Stages[i].Share
	}
	for i, st := range cfg.Stages {
		o := &opts{bin: st.Bin, variant: st.Variant, prop: cfg.Prop, prof: st.Profile, tier: cfg.Tier, verif: cfg.Verif, seed: cfg.Seed + uint64(i)*1000, secs: cfg.Secs * st.Share / shares,
			iso: st.Iso, meta: cfg.Meta, dir: cfg.Dir, workers: cfg.Workers, level: cfg.Level}
		if i == 0 {
			for _, k := range o.findings() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.What)
			}
		}
		// the same seeds, alone and in another process: they must give the same runs
		sum, viol := o.explore()
		if viol != nil {
			o.report(viol, start, cfg.Seed)
		}
		n, d := o.determinism(sum)
		detRuns += n
		detDiff += d
		total.Runs += sum.Runs
		total.SimSteps += sum.SimSteps
		total.Switches += sum.Switches
		total.SimNs += sum.SimNs
		total.Reuses += sum.Reuses
		total.Tasks += sum.Tasks
		if sum.MaxTasks > total.MaxTasks {
			total.MaxTasks = sum.MaxTasks
		}
		mergeStats(total.Stats, sum.Stats)
		mergeStats(total.Policies, sum.Policies)
		total.Hashes = append(total.Hashes, sum.Hashes...)
		total.Nontriv = append(total.Nontriv, sum.Nontriv...)
		samples = append(samples, o.samples()...)
	}
	wall := time.Since(start).Seconds()
	distinct := func(h []uint64) int {
		m := map[uint64]bool{}
		for _, x := range h {
			m[x] = true
		}
		return len(m)
	}
	if detDiff > 0 {
		fmt.Printf("warning: %d of %d runs did not repeat exactly\n", detDiff, detRuns)
	}
	cov := map[string]interface{}{
		"evaluations":              total.Runs,
		"distinct_nontrivial":      distinct(total.Nontriv),
		"distinct_executions":      distinct(total.Hashes),
		"samples":                  samples,
		"runs_per_hour":            int(float64(total.Runs) / wall * 3600),
		"seeds_per_hour":           int(float64(total.Runs) / wall * 3600),
		"steps":                    total.SimSteps,
		"context_switches":         total.Switches,
		"simulated_time_s":         float64(total.SimNs) / 1e9,
		"simulated_tasks":          total.Tasks,
		"most_tasks_in_a_run":      total.MaxTasks,
		"schedules_by_policy":      total.Policies,
		"events_and_faults":        total.Stats,
		"goroutine_structs_reused": total.Reuses,
		"repeated_for_determinism": detRuns,
		"diverged":                 detDiff,
	}
	for k, v := range cfg.Meta {
		cov[k] = v
	}
	if _, ok := cov["rule"]; !ok {
		cov["rule"] = "seeded plans and schedules"
	}
	ev := map[string]interface{}{
		"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": cfg.Level,
		"coverage": cov, "wall_s": wall, "violations": 0,
	}
	writeEvidence(cfg.Verif, cfg.Prop, ev)
	fmt.Printf("%s: %d runs, %d distinct, %.1f s: no violation\n", cfg.Prop, total.Runs, distinct(total.Hashes), wall)
}

func writeEvidence(verif, prop string, ev interface{}) {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

func (o *opts) report(v *result, start time.Time, seed uint64) {
	fmt.Printf("%s: seed %d: %s\n", o.prop, v.Seed, v.Viol)
	limit := 60 * time.Second
	if o.tier == "thorough" {
		limit = 300 * time.Second
	}
	orig := v.Viol
	rep := true
	if again := o.search(v.Run, 0, 1); again.Viol == "" {
		rep = false
		fmt.Println("warning: the violation did not repeat")
	} else {
		v = o.minimise(again, time.Now().Add(limit))
	}
	if v.Seed == 0 && v.Run != nil {
		v.Seed = v.Run.seed()
	}
	dir := filepath.Join(o.verif, "replays")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", o.prop, v.Seed))
	b, _ := json.MarshalIndent(map[string]interface{}{"Property": o.prop, "Variant": o.variant, "Iso": o.iso, "Violation": v.Viol, "First": orig, "Hash": v.Hash, "Steps": v.Steps, "Reproducible": rep,
		"Replay": "bash check.sh replay " + f, "Run": v.Run}, "", " ")
	os.WriteFile(f, b, 0644)
	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1, "samples": []interface{}{v.Run}, "violation": v.Viol, "replay": f}
	for k, x := range o.meta {
		cov[k] = x
	}
	writeEvidence(o.verif, o.prop, map[string]interface{}{"property": o.prop, "tier": o.tier, "seed": seed, "level": o.level, "coverage": cov, "wall_s": wall, "violations": 1})
	fmt.Printf("minimised: %s\n", v.Viol)
	fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, f)
	os.Exit(1)
}

// explore spends the time budget. It stops at the first violation.
func (o *opts) explore() (*summary, *result) {
	sum := &summary{Stats: map[string]uint64{}, Policies: map[string]uint64{}}
	var mu sync.Mutex
	var viol *result
	var procs = map[int]bool{}
	end := time.Now().Add(time.Duration(o.secs * float64(time.Second)))
	known := o.findings()
	var wg sync.WaitGroup
	base := o.seed * 1000003
	add := func(s *summary) {
		sum.Runs += s.Runs
		sum.SimSteps += s.SimSteps
		sum.Switches += s.Switches
		sum.SimNs += s.SimNs
		sum.Reuses += s.Reuses
		sum.Tasks += s.Tasks
		if s.MaxTasks > sum.MaxTasks {
			sum.MaxTasks = s.MaxTasks
		}
		mergeStats(sum.Stats, s.Stats)
		mergeStats(sum.Policies, s.Policies)
		sum.Hashes = append(sum.Hashes, s.Hashes...)
		sum.Nontriv = append(sum.Nontriv, s.Nontriv...)
	}
	_ = procs
	for i := 0; i < o.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			seed := base + uint64(i)
			for time.Now().Before(end) {
				mu.Lock()
				stop := viol != nil
				mu.Unlock()
				if stop {
					return
				}
				left := time.Until(end).Seconds()
				n := 1 << 30
				if o.iso {
					n = 1
				} else if left > 5 {
					left = 5
				}
				prog := filepath.Join(o.dir, fmt.Sprintf("progress-%s-%d", o.prof, i))
				os.Remove(prog)
				s := &summary{}
				died, err := o.exec(left+40, s, "work", o.prof, fmt.Sprint(seed), fmt.Sprint(o.workers), fmt.Sprint(n), fmt.Sprintf("%.2f", left), prog)
				if err != nil {
					fatal("%v", err)
				}
				var res *result
				if died != "" {
					b, _ := os.ReadFile(prog)
					at, err := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
					if err != nil {
						fatal("a worker of %s died before its first run: %s", o.prof, died)
					}
					r := &run{}
					if d, err := o.exec(10, r, "gen", o.prof, fmt.Sprint(at)); d != "" || err != nil {
						fatal("cannot generate seed %d: %s %v", at, d, err)
					}
					res = &result{Viol: died, Class: class(died), Seed: at, Run: r}
					seed = at + uint64(o.workers)
				} else if s.Viol != "" {
					res = &s.result
					seed = s.Seed + uint64(o.workers)
				} else {
					seed = s.LastSeed + uint64(o.workers)
				}
				mu.Lock()
				if res != nil {
					sum.Runs++
					if k := matches(known, res); k {
						sum.Stats["runs ended by a known finding"]++
					} else if viol == nil || res.Seed < viol.Seed {
						viol = res
					}
				} else {
					add(s)
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	return sum, viol
}

func matches(known []finding, r *result) bool {
	for _, k := range known {
		if k.Class != "" && k.Class != r.Class {
			continue
		}
		ok := true
		for _, c := range k.Contains {
			if !strings.Contains(r.Viol, c) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// determinism repeats runs in other processes and compares their hashes.
func (o *opts) determinism(sum *summary) (n, diff uint64) {
	base := o.seed * 1000003
	want := map[uint64]uint64{}
	k := 40
	if o.tier == "thorough" {
		k = 400
	}
	if o.iso {
		k = 8
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	one := func(seed uint64, stride, cnt int, into map[uint64]uint64) {
		defer wg.Done()
		for cnt > 0 {
			s := &summary{}
			c := cnt
			if o.iso {
				c = 1
			}
			died, err := o.exec(60, s, "work", o.prof, fmt.Sprint(seed), fmt.Sprint(stride), fmt.Sprint(c), "1000", filepath.Join(o.dir, fmt.Sprintf("progress-d-%d-%d", seed, stride)))
			if died != "" || err != nil || s.Viol != "" {
				return
			}
			mu.Lock()
			for i, h := range s.Hashes {
				into[seed+uint64(i*stride)] = h
			}
			mu.Unlock()
			cnt -= c
			seed += uint64(c * stride)
		}
	}
	got := map[uint64]uint64{}
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go one(base+uint64(i*k), 1, k, want)
		go one(base+uint64(i), 4, k, got)
	}
	wg.Wait()
	for s, h := range got {
		if w, ok := want[s]; ok {
			n++
			if w != h {
				diff++
				if diff < 4 {
					fmt.Printf("seed %d of %s diverges: %x %x\n", s, o.prof, w, h)
				}
			}
		}
	}
	return
}

func (o *opts) samples() []interface{} {
	r := map[string]interface{}{}
	if d, err := o.exec(10, &r, "gen", o.prof, fmt.Sprint(o.seed*1000003)); d != "" || err != nil {
		return nil
	}
	return []interface{}{r}
}

// --- minimising ---

func clone(r *run) *run {
	b, _ := json.Marshal(r)
	out := &run{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(out); err != nil {
		fatal("%v", err)
	}
	return out
}

// slot is a list of operations within a plan.
type slot struct {
	m   map[string]interface{}
	key string
}

func (s slot) list() []interface{} { l, _ := s.m[s.key].([]interface{}); return l }

func slots(m map[string]interface{}, out *[]slot) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l, ok := m[k].([]interface{})
		if !ok || len(l) == 0 {
			continue
		}
		if _, ok := l[0].(map[string]interface{}); !ok {
			continue
		}
		*out = append(*out, slot{m, k})
		for _, x := range l {
			if xm, ok := x.(map[string]interface{}); ok {
				slots(xm, out)
			}
		}
	}
}

func all(r *run) []slot {
	var out []slot
	slots(r.Plan, &out)
	return out
}

func (o *opts) minimise(v *result, deadline time.Time) *result {
	best := v
	best.Run = clone(best.Run)
	cls := v.Class
	if cls == "" {
		cls = class(v.Viol)
	}
	same := func(r *result) bool {
		c := r.Class
		if c == "" {
			c = class(r.Viol)
		}
		return r.Viol != "" && c == cls
	}
	tries := 12
	if o.iso {
		tries = 4
	}
	// candidates are tried in parallel, the first that fails in the same way wins
	round := func(cands []*run) *result {
		res := make([]*result, len(cands))
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i, c := range cands {
			if time.Now().After(deadline) {
				break
			}
			wg.Add(1)
			sem <- true
			go func(i int, c *run) {
				defer wg.Done()
				defer func() { <-sem }()
				c.Sched["UseList"] = false
				delete(c.Sched, "Replay")
				res[i] = o.search(c, 0, tries)
			}(i, c)
		}
		wg.Wait()
		for _, r := range res {
			if r != nil && same(r) {
				r.Run = clone(r.Run)
				r.Seed = v.Seed
				return r
			}
		}
		return nil
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for size := 16; size >= 1; size /= 2 {
			for si := 0; si < len(all(best.Run)); si++ {
				for at := 0; ; {
					sl := all(best.Run)
					if si >= len(sl) || at >= len(sl[si].list()) || time.Now().After(deadline) {
						break
					}
					n := len(sl[si].list())
					if size > n {
						break
					}
					// a batch of removals at consecutive places
					var cands []*run
					for j := 0; j < 8 && at+j*size < n; j++ {
						c := clone(best.Run)
						s := all(c)[si]
						l := s.list()
						lo, hi := at+j*size, at+(j+1)*size
						if hi > n {
							hi = n
						}
						s.m[s.key] = append(append([]interface{}{}, l[:lo]...), l[hi:]...)
						cands = append(cands, c)
					}
					if r := round(cands); r != nil {
						best = r
						changed = true
						continue
					}
					at += 8 * size
				}
			}
		}
		// lift the operations of a block out of it, drop flags
		for si := 0; si < len(all(best.Run)) && time.Now().Before(deadline); si++ {
			for at := 0; ; at++ {
				sl := all(best.Run)
				if si >= len(sl) || at >= len(sl[si].list()) || time.Now().After(deadline) {
					break
				}
				var cands []*run
				m, ok := sl[si].list()[at].(map[string]interface{})
				if !ok {
					continue
				}
				for _, k := range []string{"B", "P"} {
					if inner, ok := m[k].([]interface{}); ok && len(inner) > 0 {
						c := clone(best.Run)
						s := all(c)[si]
						l := s.list()
						s.m[s.key] = append(append(append([]interface{}{}, l[:at]...), l[at].(map[string]interface{})[k].([]interface{})...), l[at+1:]...)
						cands = append(cands, c)
					}
				}
				for _, k := range []string{"F", "A", "I"} {
					num, ok := m[k].(json.Number)
					if !ok {
						continue
					}
					x, _ := num.Int64()
					vals := []int64{0}
					if k == "F" {
						for b := int64(1); b <= x; b <<= 1 {
							if x&b != 0 && x != b {
								vals = append(vals, x&^b)
							}
						}
					}
					for _, y := range vals {
						if y == x || k == "A" && x <= 1 {
							continue
						}
						c := clone(best.Run)
						all(c)[si].list()[at].(map[string]interface{})[k] = y
						if k == "A" {
							all(c)[si].list()[at].(map[string]interface{})[k] = 1
						}
						cands = append(cands, c)
					}
				}
				if r := round(cands); r != nil {
					best = r
					changed = true
					at--
				}
			}
		}
	}
	return o.minimiseSchedule(best, same, deadline.Add(10*time.Second))
}

// minimiseSchedule drops switches from the recorded schedule.
func (o *opts) minimiseSchedule(best *result, same func(*result) bool, deadline time.Time) *result {
	list := func(r *run) []interface{} { l, _ := r.Sched["Replay"].([]interface{}); return l }
	for size := len(list(best.Run)); size >= 1; size /= 2 {
		for at := 0; at < len(list(best.Run)); {
			if time.Now().After(deadline) {
				return best
			}
			c := clone(best.Run)
			l := list(c)
			hi := at + size
			if hi > len(l) {
				hi = len(l)
			}
			c.Sched["Replay"] = append(append([]interface{}{}, l[:at]...), l[hi:]...)
			c.Sched["UseList"] = true
			r := o.search(c, 0, 1)
			if same(r) && len(list(r.Run)) < len(list(best.Run)) {
				r.Run = clone(r.Run)
				r.Seed = best.Seed
				best = r
				continue
			}
			at += size
		}
	}
	return best
}
