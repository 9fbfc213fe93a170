package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/support/cmd"
	"verif.local/io/sys"
)

// S10: running external commands.

func init() {
	profiles["S10"] = &profile{gen: gen10, run: run10}
}

const (
	c10Env = 1 << iota
	c10NoInherit
	c10Dir
	c10Stdin
	c10Stdout
	c10Stderr
	c10Debug
	c10Ignore
	c10IgnoreFalse
	c10Builder // even without an option
	c10FailingWriter
)

func gen10(r *rng, p *Plan) {
	n := 1 + r.n(3)
	for i := 0; i < n; i++ {
		t := &Op{K: "task", L: i}
		m := 1 + r.n(5)
		for j := 0; j < m; j++ {
			o := &Op{K: r.pick("output", "output", "run"), L: i*100 + j}
			if r.p(75) {
				o.F |= c10Builder
				for b := c10Env; b < c10Builder; b <<= 1 {
					if r.p(30) {
						o.F |= b
					}
				}
				if o.F&c10Stdout != 0 && r.p(30) {
					o.F |= c10FailingWriter
				}
			}
			o.H = r.pick("ok", "ok", "exit", "exit", "signal", "missing", "missing-path", "bad-dir", "start-error")
			o.I = 1 + r.n(255)
			o.T = r.n(9)
			o.A = int64(r.n(30))
			o.S = r.pick("a", "", "x y", "-flag=1", "quo'te", "$HOME", "*")
			t.B = append(t.B, o)
		}
		p.Main = append(p.Main, t)
	}
}

func out10(o *Op) string {
	s := fmt.Sprintf("out-%d", o.L)
	switch o.T {
	case 0:
		return ""
	case 1:
		return s + "\n"
	case 2:
		return s + "\r\n"
	case 3:
		return s + "\nmore\n\n"
	case 4:
		return "\n\n " + s + " \t\n"
	case 5:
		return strings.Repeat(s+"\n", 9000)
	case 6:
		return s + "\x00\xff"
	case 7:
		return "\n"
	}
	return s
}

type failingWriter struct{ n int }

func (w *failingWriter) Write(b []byte) (int, error) {
	w.n++
	if w.n > 1 {
		return 0, fmt.Errorf("disk full")
	}
	return len(b), nil
}

func run10(p *Plan) {
	sys.MkdirAll("/work/sub", 0755)
	sys.MkdirAll("/home", 0755)
	sys.Put("/work/denied", []byte("x"), 0644)
	type rec struct {
		calls int
		o     *Op
		c     sys.Call
		stdin string
	}
	byTag := map[string]*rec{}
	sys.Commands["prog"] = func(c *sys.Call) int {
		r := byTag[c.Args[len(c.Args)-1]]
		if r == nil {
			viol("args", "the command received the arguments %q", c.Args)
		}
		r.calls++
		r.c = *c
		if c.Stdin != nil {
			b, _ := io.ReadAll(c.Stdin)
			r.stdin = string(b)
		}
		s := out10(r.o)
		for len(s) > 0 {
			n := len(s)
			if n > 20000 {
				n = 20000
			}
			if _, err := io.WriteString(c.Stdout, s[:n]); err != nil {
				break
			}
			s = s[n:]
			sys.Y()
		}
		c.Errf("err-%d", r.o.L)
		switch r.o.H {
		case "exit":
			return r.o.I
		case "signal":
			return -9
		}
		return 0
	}
	env := []string{"PATH=/usr/bin", "HOME=/home", "A=1"}
	pr := sys.Start("tool", "/work", env, func() int {
		live := 0
		for _, t := range p.Main {
			t := t
			live++
			sys.Spawn(func() {
				for _, o := range t.B {
					tag := fmt.Sprintf("tag%d", o.L)
					r := &rec{o: o}
					byTag[tag] = r
					exec10(o, tag, func() (int, sys.Call, string) { return r.calls, r.c, r.stdin }, env)
				}
				live--
			})
		}
		for i := 0; live > 0; i++ {
			sys.Sleep(1000000)
		}
		return 0
	})
	pr.Wait()
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
}

func exec10(o *Op, tag string, get func() (int, sys.Call, string), env []string) {
	events++
	prog := "prog"
	switch o.H {
	case "missing":
		prog = "nosuchprog"
	case "missing-path":
		prog = "/nosuch/prog"
	}
	args := []string{o.S, "x", tag}
	var b *cmd.CmdBuilder
	var outW, errW bytes.Buffer
	xenv := []string{fmt.Sprintf("X=%d", o.L), "A=2"}
	dir := ""
	if o.F&c10Builder != 0 {
		switch o.A % 3 {
		case 0:
			b = cmd.New()
		case 1:
			b = cmd.Debug()
			o.F |= c10Debug
		default:
			b = cmd.Dir("")
		}
		if o.F&c10Env != 0 {
			b.Env(xenv)
		}
		if o.F&c10NoInherit != 0 {
			b.NoInheritEnv()
		}
		if o.F&c10Dir != 0 || o.H == "bad-dir" {
			dir = "/work/sub"
			if o.H == "bad-dir" {
				dir = "/nosuch"
			}
			b.Dir(dir)
		}
		if o.F&c10Stdin != 0 {
			b.Stdin(strings.NewReader("input " + tag))
		}
		if o.F&c10Stdout != 0 {
			if o.F&c10FailingWriter != 0 {
				b.Stdout(&failingWriter{})
			} else {
				b.Stdout(&outW)
			}
		}
		if o.F&c10Stderr != 0 {
			b.Stderr(&errW)
		}
		if o.F&c10Debug != 0 {
			b.Debug()
		}
		if o.F&c10Ignore != 0 {
			b.IgnoreError()
			if o.F&c10IgnoreFalse != 0 {
				b.IgnoreError(false)
			}
		}
	}
	ignore := o.F&c10Builder != 0 && o.F&c10Ignore != 0 && o.F&c10IgnoreFalse == 0
	started := true
	fails := false
	switch o.H {
	case "exit", "signal":
		fails = true
	case "missing", "missing-path":
		fails, started = true, false
	case "bad-dir":
		if dir != "" {
			fails, started = true, false
		}
	case "start-error":
		fails, started = true, false
		prog = "/work/denied"
	}
	if o.F&c10FailingWriter != 0 && o.F&c10Stdout != 0 && started && len(out10(o)) > 20000 {
		fails = true
	}
	var out string
	var err error
	pStart := sys.Cur().Stdout.Len()
	switch {
	case b == nil && o.K == "output":
		out, err = cmd.Output(prog, args...)
	case b == nil:
		err = cmd.Run(prog, args...)
	case o.K == "output":
		out, err = b.Output(prog, args...)
	default:
		err = b.Run(prog, args...)
	}
	desc := fmt.Sprintf("%s (%s, options %#x)", o.K, o.H, o.F)
	calls, c, stdin := get()
	stat("outcome:" + o.H)
	if fails && !ignore && err == nil {
		viol("swallowed:"+o.K, "%s failed, no error was returned", desc)
	}
	if !fails && err != nil {
		viol("spurious", "%s succeeded, the error %q was returned", desc, err)
	}
	if !started {
		if calls != 0 {
			viol("started", "%s ran", desc)
		}
		return
	}
	if calls != 1 {
		viol("started", "%s was run %d times", desc, calls)
	}
	full := out10(o)
	if o.F&c10Stdout != 0 && o.F&c10Builder != 0 {
		if o.F&c10FailingWriter == 0 && outW.String() != full {
			viol("output", "%s: the writer received %.40q (%d bytes), want %.40q (%d bytes)", desc, outW.String(), outW.Len(), full, len(full))
		}
	} else if o.K == "output" && !(fails && ignore && out == "") {
		ok := out == full
		for _, suf := range []string{"\n", "\r\n", "\r"} {
			if strings.HasSuffix(full, suf) && out == full[:len(full)-len(suf)] {
				ok = true
			}
		}
		if !ok {
			viol("output", "%s returned %.40q (%d bytes), the command wrote %.40q (%d bytes)", desc, out, len(out), full, len(full))
		}
	} else if o.K == "run" && !strings.Contains(sys.Cur().Stdout.String()[pStart:], strings.TrimSpace(full[:min(len(full), 5)])) {
		viol("output", "%s: the output of the command did not reach standard output", desc)
	}
	if o.F&c10Stderr != 0 && o.F&c10Builder != 0 && !strings.Contains(errW.String(), fmt.Sprintf("err-%d", o.L)) {
		viol("stderr", "%s: the writer received %q", desc, errW.String())
	}
	wantArgs := append([]string{prog}, args...)
	if strings.Join(c.Args, "\x00") != strings.Join(wantArgs, "\x00") {
		viol("args", "%s: the command received the arguments %q, want %q", desc, c.Args, wantArgs)
	}
	cdir := c.Dir
	if cdir == "" {
		cdir = "/work"
	}
	want := "/work"
	if dir != "" {
		want = dir
	}
	if cdir != want {
		viol("dir", "%s ran in %s, want %s", desc, cdir, want)
	}
	if o.F&c10Stdin != 0 && o.F&c10Builder != 0 && stdin != "input "+tag {
		viol("stdin", "%s read %q", desc, stdin)
	}
	m := map[string]string{}
	if o.F&c10Builder == 0 || o.F&c10NoInherit == 0 {
		setenv(m, env)
	}
	if o.F&c10Builder != 0 && o.F&c10Env != 0 {
		setenv(m, xenv)
	}
	got := map[string]string{}
	if c.Env == nil {
		setenv(got, env)
	} else {
		setenv(got, c.Env)
	}
	if a, b := flat(m), flat(got); a != b {
		viol("env", "%s saw the environment %s, want %s", desc, b, a)
	}
}

func setenv(m map[string]string, env []string) {
	for _, e := range env {
		i := strings.Index(e, "=")
		m[e[:i]] = e[i+1:]
	}
}

func flat(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if k == "PWD" {
			continue // set by os/exec with a directory
		}
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
