package main

import (
	"fmt"
	"strconv"
	"strings"

	xgomain "github.com/xhd2015/xgo/cmd/xgo"
	simos "verif.local/io/os"
	"verif.local/io/sys"
)

// S15: merging coverage profiles.

func init() {
	profiles["S15"] = &profile{gen: gen15, run: run15}
}

var names15 = []string{"/work/a.out", "/work/b.out", "/work/c.out", "/work/all.out", "/work/none.out"}

func gen15(r *rng, p *Plan) {
	for i := 0; i < 4; i++ {
		if i == 3 && r.p(60) {
			break
		}
		t := &Op{K: r.pick("set", "count", "atomic", "none"), T: i, A: int64(r.n(12)), I: r.n(1 << 20)}
		if r.p(20) {
			t.A = int64(r.n(400))
		}
		t.F = r.n(8) // 1: no newline at the end, 2: blocks of other files, 4: some more often
		p.Tree = append(p.Tree, t)
	}
	n := 1 + r.n(6)
	for i := 0; i < n; i++ {
		o := &Op{K: r.pick("merge", "merge", "merge", "compact", "profile")}
		if o.K == "profile" {
			o.T, o.A, o.I, o.F = r.n(3), int64(r.n(12)), r.n(1<<20), r.n(8)
			o.S = r.pick("set", "count", "atomic")
			p.Main = append(p.Main, o)
			continue
		}
		var f []string
		if r.p(75) {
			f = append(f, "-o", names15[r.n(4)])
		}
		if r.p(25) {
			f = append(f, "--exclude-prefix", r.pick("example.com/m/x/", "example.com/m/y", "example.com/none"))
		}
		k := 1
		if o.K == "merge" {
			k = 1 + r.n(4)
		}
		var in []string
		for j := 0; j < k; j++ {
			x := names15[r.n(4)]
			if r.p(3) {
				x = names15[4]
			}
			in = append(in, x)
		}
		if r.p(50) {
			f = append(f, in...)
		} else {
			f = append(in, f...)
		}
		if r.p(10) {
			f = append([]string{"-o", "/work/over.out"}, f...)
		}
		o.S = strings.Join(f, " ")
		p.Main = append(p.Main, o)
		if r.p(50) {
			p.Faults = append(p.Faults, r.fault(i, []string{"crash", "crashafter", "torn", "err", "err", "short", "late"}, []string{"", "write", "create", "close", "open", "read"}, 6))
		}
	}
	if r.p(10) {
		p.Quota = int64(1 + r.n(3000))
	}
}

// profile15 is a profile as go writes it.
func profile15(mode string, n, seed, f int) string {
	r := rng(uint64(seed)*2654435761 + 1)
	var l []string
	if mode != "none" {
		l = append(l, "mode: "+mode)
	}
	for i := 0; i < n; i++ {
		k := i
		if f&2 != 0 {
			k += r.n(30)
		}
		file := []string{"example.com/m/x/x.go", "example.com/m/y/y.go", "example.com/m/main file.go"}[k%3]
		s := fmt.Sprintf("%s:%d.%d,%d.2 %d ", file, 3+k, 10+k%2, 5+k, 1+k%4)
		c := r.n(3)
		if mode != "set" && r.p(30) {
			c = r.n(1 << 30)
		}
		l = append(l, s+strconv.Itoa(c))
		if f&4 != 0 && r.p(30) {
			l = append(l, s+strconv.Itoa(r.n(4)))
		}
	}
	s := strings.Join(l, "\n")
	if f&1 == 0 && s != "" {
		s += "\n"
	}
	return s
}

// blocks15 adds the counts of a profile.
func blocks15(s string, to map[string]int64) (mode string, dup string) {
	seen := map[string]bool{}
	for i, l := range strings.Split(s, "\n") {
		if i == 0 && strings.HasPrefix(l, "mode: ") {
			mode = l[6:]
			continue
		}
		if l == "" {
			continue
		}
		k := strings.LastIndex(l, " ")
		if k < 0 {
			return mode, l
		}
		c, err := strconv.ParseInt(l[k+1:], 10, 64)
		if err != nil || seen[l[:k]] {
			dup = l
		}
		seen[l[:k]] = true
		to[l[:k]] += c
	}
	return
}

func run15(p *Plan) {
	sys.MkdirAll("/work", 0755)
	for _, t := range p.Tree {
		sys.Put(names15[t.T], []byte(profile15(t.K, int(t.A), t.I, t.F)), 0644)
	}
	setFaults(p)
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	faults := sys.Faults
	read := func(f string) (string, bool) {
		b, err := sys.ReadFile(f)
		return string(b), err == nil
	}
	for i, o := range p.Main {
		if o.K == "profile" {
			sys.Put(names15[o.T], []byte(profile15(o.S, int(o.A), o.I, o.F)), 0644)
			continue
		}
		sys.Faults = nil
		for _, f := range faults {
			if f.Proc == i {
				g := *f
				g.Proc = sys.NumProcs()
				sys.Faults = append(sys.Faults, &g)
			}
		}
		args := strings.Fields(o.S)
		var in, exclude []string
		out := ""
		for j := 0; j < len(args); j++ {
			switch args[j] {
			case "-o":
				j++
				out = args[j]
			case "--exclude-prefix":
				j++
				exclude = append(exclude, args[j])
			default:
				in = append(in, args[j])
			}
		}
		want := map[string]int64{}
		before := map[string]string{}
		missing := false
		for _, f := range append(append([]string{"/work/over.out"}, names15...), out) {
			if s, ok := read(f); ok {
				before[f] = s
			}
		}
		for _, f := range in {
			s, ok := before[f]
			missing = missing || !ok
			blocks15(s, want)
		}
		for b := range want {
			for _, e := range exclude {
				if strings.HasPrefix(b, e) {
					delete(want, b)
				}
			}
		}
		sys.RestoreGlobals()
		pr := sys.Start("xgo", "/work", []string{"HOME=/home/u", "PATH=/usr/bin"}, func() int {
			simos.Args = append([]string{"/usr/bin/xgo", "tool", "coverage", o.K}, args...)
			xgomain.Main()
			return 0
		})
		pr.Wait()
		calm := len(sys.Faults) == 0 && sys.Quota == 0
		sys.Faults = nil
		events++
		stat(o.K)
		cmd := "coverage " + o.K + " " + o.S
		if pr.Panic != "" {
			viol("panic", "%s: panic: %s", cmd, pr.Panic)
		}
		for _, f := range sorted(before) {
			if s, ok := read(f); f != out && (!ok || s != before[f]) {
				viol("input", "%s: %s has changed: %.60q, and was %.60q", cmd, f, s, before[f])
			}
		}
		got, ok := pr.Stdout.String(), true
		if out != "" {
			got, ok = read(out)
		}
		switch {
		case pr.Killed:
			stat("killed")
			continue
		case pr.Code != 0:
			stat("failed")
			if calm && !missing {
				viol("fails", "%s: failed: %s", cmd, tail(pr.Out.String()))
			}
			if s, was := before[out]; missing && out != "" && (ok != was || got != s) {
				viol("failed", "%s: failed, for an input is missing, and the output file has changed", cmd)
			}
			continue
		case missing:
			viol("missing", "%s: an input is missing, and it succeeds", cmd)
		}
		has := map[string]int64{}
		mode, dup := blocks15(got, has)
		if !ok || mode != "count" || dup != "" {
			viol("format", "%s: succeeded, and the result is not a profile of counts: %q %q", cmd, mode, dup)
		}
		for b := range want {
			if _, ok := has[b]; !ok {
				viol("lost", "%s: succeeded, and %q is not in the result", cmd, b)
			}
		}
		for b, c := range has {
			if w, ok := want[b]; !ok || w != c {
				viol("count", "%s: succeeded, and %q has count %d, the inputs have %d", cmd, b, c, w)
			}
		}
	}
}
