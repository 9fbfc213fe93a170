package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	xgomain "github.com/xhd2015/xgo/cmd/xgo"
	"verif.local/io/sys"
	"verif.local/simk"
)

// S02: preparing the instrumented toolchain.

func init() {
	profiles["S02"] = &profile{gen: gen02, run: run02, jump: true, init: init02}
}

// toolchain is a small Go installation: the files the preparation works on,
// from an installed toolchain, and some others.
type toolchain struct {
	version string
	files   map[string][]byte
	// what a preparation from scratch makes of it
	prepared map[string]string
}

var toolchains []*toolchain

// everything the preparation is known to touch
var touched = []string{
	"src/runtime/*.go", "src/time/*.go", "src/testing/testing.go", "src/encoding/json/encode.go", "src/reflect/value.go", "src/reflect/type.go",
	"src/cmd/go/main.go", "src/cmd/go/internal/load/*.go", "src/cmd/go/internal/test/*.go", "src/cmd/go/internal/work/*.go",
	"src/cmd/cover/*.go", "src/cmd/internal/test2json/*.go",
	"src/cmd/compile/internal/gc/*.go", "src/cmd/compile/internal/noder/*.go", "src/cmd/compile/internal/syntax/*.go",
	"src/cmd/compile/internal/typecheck/*.go", "src/cmd/compile/internal/typecheck/_builtin/*.go",
	"src/cmd/compile/internal/ir/gen.go", "src/cmd/compile/internal/types2/*.go", "src/cmd/compile/internal/base/*.go",
}

func binary(name, d string) []byte {
	s := "ELF " + name + " " + d + "\n"
	for len(s) < 700 {
		s += "........................................\n"
	}
	return []byte(s + "END\n")
}

func isBinary(b []byte) bool {
	return strings.HasPrefix(string(b), "ELF ") && strings.HasSuffix(string(b), "END\n")
}

func init02() {
	var dirs []string
	for _, v := range []string{"1.23", "1.24", "1.25", "1.26", "1.27"} {
		m, _ := filepath.Glob("/opt/veriftools/go" + v + ".*")
		sort.Strings(m)
		if len(m) > 0 {
			dirs = append(dirs, m[len(m)-1])
		}
	}
	if len(dirs) == 0 {
		fmt.Fprintln(os.Stderr, "no Go toolchain in /opt/veriftools")
		os.Exit(2)
	}
	for _, d := range dirs {
		t := &toolchain{version: path.Base(d), files: map[string][]byte{}}
		for _, pat := range touched {
			m, _ := filepath.Glob(d + "/" + pat)
			for _, f := range m {
				rel := f[len(d)+1:]
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := os.ReadFile(f)
				if err != nil {
					panic(err)
				}
				t.files[rel] = b
			}
		}
		t.files["VERSION"] = []byte(t.version + "\ntime 2025-01-01T00:00:00Z\n")
		t.files["src/fmt/print.go"] = []byte("package fmt\n")
		t.files["src/fmt/empty.go"] = nil
		t.files["lib/time/update.bash"] = []byte("#!/bin/sh\n")
		t.files["bin/go"] = binary("go", t.version)
		t.files["bin/gofmt"] = binary("gofmt", t.version)
		for _, x := range []string{"compile", "cover", "asm"} {
			t.files["pkg/tool/linux_amd64/"+x] = binary(x, t.version)
		}
		toolchains = append(toolchains, t)
	}
	// drop the files no preparation touches: first prepare with all of them
	for ti, t := range toolchains {
		full := t.scratch(dirs[ti])
		keep := map[string][]byte{}
		other := 0
		for _, f := range sortedBytes(t.files) {
			changed := "file "+string(t.files[f]) != full[t.version+"/"+f]
			if !changed && strings.HasPrefix(f, "src/") && len(t.files[f]) > 0 && f != "src/fmt/print.go" && path.Base(f) != "mkbuiltin.go" && path.Base(f) != "runtime.go" {
				if other++; other > 6 || len(t.files[f]) > 3000 {
					continue
				}
			}
			keep[f] = t.files[f]
		}
		t.files = keep
		t.prepared = t.scratch(dirs[ti])
	}
}

func sortedBytes(m map[string][]byte) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// scratch prepares the toolchain without any disturbance. Files that turn out
// to be needed are taken from the installation.
func (t *toolchain) scratch(from string) map[string]string {
	for n := 0; ; n++ {
		out, msg := t.prepare()
		if msg == "" {
			return out
		}
		added := false
		for _, w := range strings.FieldsFunc(msg, func(r rune) bool { return r == ' ' || r == ':' || r == '\n' }) {
			i := strings.Index(w, "/src/")
			if i < 0 || t.files[w[i+1:]] != nil {
				continue
			}
			if b, err := os.ReadFile(from + w[i:]); err == nil {
				t.files[w[i+1:]] = b
				added = true
			}
		}
		if !added || n > 100 {
			fmt.Fprintf(os.Stderr, "preparing %s: %s\n", t.version, msg)
			os.Exit(2)
		}
	}
}

func (t *toolchain) prepare() (out map[string]string, msg string) {
	failer = func(class, msg string) {
		fmt.Fprintf(os.Stderr, "preparing %s: %s\n", t.version, msg)
		os.Exit(2)
	}
	simk.OnStuck = func(reason string) { failer("stuck", reason) }
	simk.Begin(Schedule(1))
	sys.Reset()
	sys.RestoreGlobals()
	t.install("/goroot", false)
	pr := setup02([]string{"--with-goroot", "/goroot"})
	dirs, _ := sys.ReadDir("/home/u/.xgo/go-instrument")
	switch {
	case pr.Panic != "" || pr.Code != 0:
		msg = pr.Panic + tail(pr.Out.String()) + "."
	case len(dirs) != 1:
		msg = "no instrumented toolchain"
	default:
		out = masked(sys.Tree("/home/u/.xgo/go-instrument/" + dirs[0].Name()))
	}
	simk.WaitAll()
	simk.End()
	return out, msg
}

// masked leaves out the record of the copy and an empty cache directory: they
// are not part of the toolchain.
func masked(m map[string]string) map[string]string {
	delete(m, "full-sync-record.txt")
	delete(m, "pkgdata/")
	return m
}

func (t *toolchain) install(dir string, links bool) {
	if links {
		// src is a link, as some distributions have it
		sys.MkdirAll("/share/go/src", 0755)
		sys.MkdirAll(dir, 0755)
		sys.Symlink("/share/go/src", path.Join(dir, "src"))
	}
	for _, f := range sortedBytes(t.files) {
		to := path.Join(dir, f)
		if links && strings.HasPrefix(f, "src/") {
			to = "/share/go/" + f
		}
		sys.Put(to, t.files[f], 0755)
	}
	sys.Symlink("../../src/fmt", path.Join(dir, "lib/time/fmt"))
	sys.MkdirAll(path.Join(dir, "pkg/include"), 0755)
	sys.MkdirAll("/work", 0755)
	sys.MkdirAll("/home/u", 0755)
	sys.Put("/work/go.mod", []byte("module example.com/m\n\ngo 1.20\n"), 0644)
	sys.Commands["go"] = func(c *sys.Call) int { return goCmd(c, dir) }
}

func setup02(args []string) *sys.Proc {
	pr := sys.Start("setup", "/work", []string{"HOME=/home/u", "PATH=/usr/bin"}, func() int {
		if err := xgomain.HandleBuild("setup", args); err != nil {
			fmt.Fprintf(sys.Stderr, "%v\n", err)
			return 1
		}
		return 0
	})
	pr.Wait()
	return pr
}

// goCmd is the go command of a toolchain, or the one in the path.
func goCmd(c *sys.Call, def string) int {
	root := def
	if strings.HasSuffix(c.Path, "/bin/go") && !strings.HasPrefix(c.Path, "/usr/bin/") {
		root = path.Dir(path.Dir(c.File(c.Path)))
	}
	read := func(f string) string {
		b, _ := sys.ReadFile(path.Join(root, f))
		return string(b)
	}
	if !isBinary([]byte(read("bin/go"))) {
		c.Errf("cannot execute binary file: Exec format error\n")
		return 126
	}
	if c.Fail != nil && c.Fail.Arg%5 == 0 {
		return 1 + c.Fail.Arg%100
	}
	version := strings.SplitN(read("VERSION"), "\n", 2)[0]
	a := c.Args[1:]
	if len(a) == 0 {
		return 2
	}
	env := func() string { return c.Getenv("GOROOT") }
	finish := func(out string, b []byte) int {
		if c.Fail != nil && c.Fail.Arg%5 == 1 {
			return 1 + c.Fail.Arg%100
		}
		// the linker's result is copied over the old file
		if old, err := sys.ReadFile(out); err == nil && len(old) > 0 && !strings.HasPrefix(string(old), "ELF ") {
			c.Errf("build output %q already exists and is not an object file\n", out)
			return 1
		}
		sys.Remove(out)
		f, err := sys.Open(out, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0755)
		if err != nil {
			c.Errf("go build: copying: %v\n", err)
			return 1
		}
		for len(b) > 0 {
			n := 256
			if n > len(b) {
				n = len(b)
			}
			if _, err := f.Write(b[:n]); err != nil {
				f.Close()
				c.Errf("go build: copying: %v\n", err)
				return 1
			}
			b = b[n:]
			if c.Fail != nil && c.Fail.Arg%5 == 2 {
				f.Close()
				return -9
			}
		}
		if err := f.Close(); err != nil {
			c.Errf("go build: copying: %v\n", err)
			return 1
		}
		if c.Fail != nil {
			return 1
		}
		return 0
	}
	switch a[0] {
	case "version":
		c.Out("go version %s linux/amd64\n", version)
	case "env":
		for _, k := range a[1:] {
			switch k {
			case "GOROOT":
				c.Out("%s\n", root)
			case "GOVERSION":
				c.Out("%s\n", version)
			default:
				c.Out("%s\n", c.Getenv(k))
			}
		}
	case "mod":
		c.Out(`{"Module":{"Path":"example.com/m"},"Go":"1.20"}` + "\n")
	case "install", "list", "tool", "clean":
	case "build", "run":
		if env() != "" && env() != root {
			c.Errf("go: %s run with GOROOT=%s\n", root, env())
			return 2
		}
		if !isBinary([]byte(read("pkg/tool/linux_amd64/compile"))) {
			c.Errf("fork/exec %s/pkg/tool/linux_amd64/compile: exec format error\n", root)
			return 1
		}
		out, pkg := "", a[len(a)-1]
		for i, x := range a {
			if x == "-o" {
				out = a[i+1]
			}
		}
		if a[0] == "run" {
			// mkbuiltin
			dir := c.File(".")
			in, err := sys.ReadFile(path.Join(dir, "_builtin/runtime.go"))
			if err != nil {
				c.Errf("%v\n", err)
				return 1
			}
			if _, err := sys.Stat_(path.Join(dir, pkg)); err != nil {
				c.Errf("%v\n", err)
				return 1
			}
			if err := sys.WriteFile(path.Join(dir, "builtin.go"), []byte("// Code generated by mkbuiltin.go. DO NOT EDIT.\n\npackage typecheck\n\n// "+digest(string(in))+"\n"), 0644); err != nil {
				c.Errf("%v\n", err)
				return 1
			}
			if c.Fail != nil {
				return 1
			}
			return 0
		}
		name := path.Base(pkg)
		src := map[string]string{}
		for k, v := range sys.Tree(path.Join(root, "src")) {
			if !strings.HasSuffix(k, "/") {
				src[k] = v
			}
		}
		return finish(c.File(out), binary(name, version+" "+digest(listing(src))))
	default:
		c.Errf("go: unknown command %s\n", a[0])
		return 2
	}
	if c.Fail != nil {
		return 1
	}
	return 0
}

func gen02(r *rng, p *Plan) {
	p.Opt["go"] = int64(r.n(5))
	if r.p(20) {
		p.Opt["links"] = int64(r.n(8))
	}
	n := 1 + r.n(4)
	for i := 0; i < n; i++ {
		o := &Op{K: "setup", L: i}
		switch r.n(12) {
		case 0, 1:
			o.F = 1 // reset
		case 2:
			o.K = "delete"
		case 3:
			o.K = "older"
			o.I = r.n(4)
		case 4:
			o.K = "gone"
		case 5:
			o.K = "own"
			if r.p(30) {
				o.F = 1
			}
		}
		if r.p(20) {
			o.T = 1 // verbose
		}
		p.Main = append(p.Main, o)
		if r.p(75) {
			for j := 0; j < 1+r.n(2); j++ {
				f := r.fault(i, []string{"crash", "crash", "crash", "crashafter", "torn", "err", "short", "late", "fail"},
					[]string{"", "", "mut", "mut", "write", "close", "create", "read", "mkdir", "open", "rename", "remove", "remove", "exec", "exec", "readdir", "stat"}, 900)
				p.Faults = append(p.Faults, f)
			}
		}
	}
	if r.p(5) {
		p.Quota = int64(r.n(6000000))
	}
}

func run02(p *Plan) {
	t := toolchains[int(p.Opt["go"])%len(toolchains)]
	t.install("/goroot", p.Opt["links"]&4 != 0)
	given := "/goroot"
	switch p.Opt["links"] & 3 {
	case 1:
		sys.MkdirAll("/usr", 0755)
		sys.Symlink("/goroot", "/usr/go")
		given = "/usr/go"
	case 2:
		sys.MkdirAll("/usr/lib", 0755)
		sys.Symlink("../../goroot", "/usr/lib/go")
		given = "/usr/lib/go"
	}
	orig := sys.Tree("/goroot")
	shared := sys.Tree("/share")
	// the directory holding the prepared toolchain
	const parent = "/home/u/.xgo/go-instrument"
	home := func() string {
		l, _ := sys.ReadDir(parent)
		if len(l) == 0 {
			return parent + "/none"
		}
		if len(l) > 1 {
			viol("tree", "there are %d prepared toolchains for one Go installation", len(l))
		}
		return parent + "/" + l[0].Name()
	}
	root := func() string { return home() + "/" + t.version }
	sys.OnOp = func(q *sys.Proc, kind, name string) {
		switch kind {
		case "create", "write", "remove", "rename", "symlink", "mkdir", "truncate", "chmod":
			if name == "/goroot" || strings.HasPrefix(name, "/goroot/") || strings.HasPrefix(name, "/share/") {
				if kind == "mkdir" {
					return // of what exists
				}
				viol("original", "%s %s in the user's Go installation", kind, name)
			}
		}
	}
	setFaults(p)
	index := map[int]int{}
	for _, o := range p.Main {
		if o.K == "setup" || o.K == "delete" || o.K == "own" {
			index[o.L] = len(index)
		}
	}
	for _, f := range sys.Faults {
		if i, ok := index[f.Proc]; ok {
			f.Proc = i
		} else {
			f.Proc = -1
		}
	}
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	// binaries built while the sources were patched already are not the same
	// as those of a preparation from scratch
	rebuilt := false
	cut := func(m map[string]string) map[string]string {
		if !rebuilt {
			return m
		}
		out := map[string]string{}
		for k, v := range m {
			if strings.HasPrefix(v, "file ELF ") {
				f := strings.Fields(v)
				v = fmt.Sprint(f[:3], isBinary([]byte(v[5:])))
			}
			out[k] = v
		}
		return out
	}
	check := func(when string, pr *sys.Proc) {
		if d := sys.Diff(cut(t.prepared), cut(masked(sys.Tree(home())))); d != "" {
			viol("tree", "%s, and the toolchain differs from one prepared from scratch: %s", when, d)
		}
		if !strings.HasSuffix(strings.TrimSpace(pr.Stdout.String()), root()) {
			viol("output", "%s, and it printed %q", when, pr.Stdout.String())
		}
	}
	run := func(o *Op) *sys.Proc {
		args := []string{"--with-goroot", given}
		if o.K == "own" {
			args[1] = root()
		}
		if o.F == 1 {
			args = append(args, "--reset-instrument")
		}
		if o.T == 1 {
			args = append(args, "-v")
		}
		if o.K == "delete" {
			args = append(args, "--delete")
		}
		pr := setup02(args)
		if pr.Panic != "" {
			viol("panic", "panic: %s", pr.Panic)
		}
		events++
		switch {
		case pr.Killed:
			stat("killed")
		case pr.Code != 0:
			stat("failed")
		case o.K == "delete":
			stat("deleted")
			if len(sys.Tree(home())) > 0 {
				viol("delete", "deleting reported success, and %s is still there", home())
			}
		default:
			stat("prepared")
			check("a preparation reported success", pr)
		}
		return pr
	}
	own := false
	for _, o := range p.Main {
		own = own || o.K == "own"
	}
	for _, o := range p.Main {
		switch o.K {
		case "older":
			// another version of the tool was here
			if _, err := sys.Stat_(home() + "/xgo-revision.txt"); err != nil {
				continue
			}
			stat("older")
			sys.Put(home()+"/xgo-revision.txt", []byte("1.0.9 abc BUILD_100"), 0755)
			if own {
				// changes are only undone by copying again
				continue
			}
			if o.I&1 != 0 {
				sys.Put(root()+"/src/runtime/xgo_trap_old.go", []byte("package runtime\n"), 0644)
			}
			if o.I&2 != 0 {
				sys.Put(root()+"/src/fmt/print.go", []byte("package fmt // patched\n"), 0644)
			}
		case "own":
			// the prepared toolchain itself is given as the Go installation
			if _, err := sys.Stat_(home() + "/xgo-revision.txt"); err != nil {
				continue
			}
			stat("own")
			rebuilt = true
			run(o)
		case "gone":
			stat("gone")
			sys.RemoveAll(root())
		default:
			run(o)
		}
	}
	// without faults, preparing succeeds and leaves the same as from scratch
	sys.Quota = 0
	sys.Faults = nil
	pr := run(&Op{K: "setup"})
	if pr.Code != 0 {
		viol("stuck", "preparing fails after the faults have stopped: %s", tail(pr.Out.String()))
	}
	before := masked(sys.Tree(home()))
	pr = run(&Op{K: "setup"})
	if pr.Code != 0 {
		viol("again", "preparing again fails: %s", tail(pr.Out.String()))
	}
	if d := sys.Diff(before, masked(sys.Tree(home()))); d != "" {
		viol("again", "preparing again changes %s", d)
	}
	if d := sys.Diff(shared, sys.Tree("/share")); d != "" {
		viol("original", "the user's Go installation was changed: %s", d)
	}
	if d := sys.Diff(orig, sys.Tree("/goroot")); d != "" {
		viol("original", "the user's Go installation was changed: %s", d)
	}
}
