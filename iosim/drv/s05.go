package main

import (
	"errors"
	"fmt"
	"path"
	"strings"

	"github.com/xhd2015/xgo/support/gitgoroot"
	"verif.local/io/sys"
)

// S05: cached source checkouts.

func init() {
	profiles["S05"] = &profile{gen: gen05, run: run05, jump: true}
}

func gen05(r *rng, p *Plan) {
	p.Tree = genArchive(r, "go", 8, false)
	for i, n := 0, 1+r.n(4); i < n; i++ {
		o := &Op{K: "ensure", L: i, S: r.pick("go1.20.1", "1.20.1", "1.20.1", "1.20")}
		if r.p(10) {
			o.S = "1.21.0"
		}
		if r.p(12) {
			o.K = "valid"
		}
		if r.p(50) {
			o.I = 1 // without a bootstrap toolchain given
		}
		p.Main = append(p.Main, o)
		if r.p(85) {
			for j := 0; j < 1+r.n(2); j++ {
				p.Faults = append(p.Faults, r.fault(i, []string{"crash", "crash", "crash", "crashafter", "torn", "err", "err", "short", "late", "fail", "fail"},
					[]string{"", "", "mut", "write", "close", "create", "read", "mkdir", "open", "rename", "remove", "remove", "exec", "exec", "readdir", "stat"}, 150))
			}
		}
	}
	for i := 0; i < r.n(3); i++ {
		o := &Op{K: "net", L: r.n(len(p.Main) * 2), T: 200, S: r.pick("cut", "status", "refused", "flip", "html", "reset"), A: int64(r.n(1000)), I: r.n(8)}
		if o.S == "status" {
			o.T = []int{404, 403, 500, 503}[r.n(4)]
		}
		p.Main = append(p.Main, o)
	}
	p.Opt["parent"] = int64(r.n(4))
	if r.p(8) {
		p.Quota = int64(r.n(30000))
	}
}

// built is what make.bash adds to a source tree.
func built(src map[string]string) map[string]string {
	h := digest(listing(src))
	return map[string]string{
		"bin/": "dir", "bin/go": "file go " + h, "bin/gofmt": "file gofmt " + h,
		"pkg/": "dir", "pkg/tool/": "dir", "pkg/tool/compile": "file compile " + h,
	}
}

func makeBash(c *sys.Call) int {
	dir := path.Dir(c.File("."))
	if path.Base(c.File(".")) != "src" {
		c.Errf("make.bash must be run from $GOROOT/src\n")
		return 1
	}
	boot := c.Getenv("GOROOT_BOOTSTRAP")
	if _, err := sys.Stat_(boot + "/bin/go"); boot == "" || err != nil {
		c.Errf("ERROR: Cannot find %s/bin/go.\n", boot)
		return 1
	}
	src := map[string]string{}
	for k, v := range sys.Tree(dir) {
		if strings.HasPrefix(k, "src/") && !strings.HasSuffix(k, "/") {
			src[k] = v
		}
	}
	out := built(src)
	n := 0
	for _, k := range sorted(out) {
		if c.Fail != nil && n >= c.Fail.Arg%7 {
			if c.Fail.Arg%2 == 0 {
				return -9
			}
			return 1 + c.Fail.Arg%50
		}
		n++
		var err error
		if strings.HasSuffix(k, "/") {
			err = sys.MkdirAll(path.Join(dir, k), 0755)
		} else {
			err = sys.WriteFile(path.Join(dir, k), []byte(out[k][5:]), 0755)
		}
		if err != nil {
			c.Errf("%v\n", err)
			return 1
		}
	}
	if c.Fail != nil {
		return 1
	}
	return 0
}

func run05(p *Plan) {
	sys.MkdirAll("/usr/lib/go/bin", 0755)
	sys.Put("/usr/lib/go/bin/go", []byte("go"), 0755)
	sys.MkdirAll("/cache", 0755)
	archive := map[string][]byte{}
	want := map[string]map[string]string{}
	for _, v := range []string{"1.20.1", "1.21.0"} {
		tree := []*Op{{K: "dir", N: "go"}, {K: "file", N: "go/src/make.bash", A: 100}, {K: "file", N: "go/src/fmt/print.go", A: 200}}
		for _, o := range p.Tree {
			switch top := strings.SplitN(path.Clean(o.N), "/", 3); {
			case len(top) < 2:
			case top[1] == "src" || top[1] == "bin" || top[1] == "pkg" || strings.HasPrefix(top[1], "."):
			default:
				tree = append(tree, o)
			}
		}
		tree = append(tree, &Op{K: "file", N: "go/VERSION", A: int64(len(v) + int(v[3]))})
		archive["go"+v+".src.tar.gz"] = tarGz(tree, false)
		w := below(unpacked(tree), "go")
		src := map[string]string{}
		for k, s := range w {
			if strings.HasPrefix(k, "src/") && !strings.HasSuffix(k, "/") {
				src[k] = s
			}
		}
		for k, s := range built(src) {
			w[k] = s
		}
		w[".gitignore"] = "file .DS_Store\n"
		want["go"+v] = w
	}
	nreq := 0
	sys.HTTP = func(url string) *sys.Response {
		r := &sys.Response{Status: 200, Cut: -1}
		name := url[strings.LastIndex(url, "/")+1:]
		if url == "https://go.dev/dl" {
			r.Body = []byte(list04)
		} else if b, ok := archive[name]; ok && strings.HasPrefix(url, "https://go.dev/dl/") {
			r.Body = b
		} else {
			return &sys.Response{Status: 404, Body: []byte("not found"), Cut: -1, Length: 9}
		}
		r.Length = int64(len(r.Body))
		for _, o := range p.Main {
			if o.K != "net" || o.L != nreq {
				continue
			}
			stat("net:" + o.S)
			switch o.S {
			case "cut":
				r.Cut = len(r.Body) * int(o.A) / 1000
			case "reset":
				r.Cut = len(r.Body) * int(o.A) / 1000
				r.Err = errors.New("connection reset")
			case "status":
				r.Status, r.Body = o.T, []byte("<html>error page</html>")
				r.Length = int64(len(r.Body))
			case "html":
				r.Body = []byte("<html>captive portal</html>")
				r.Length = int64(len(r.Body))
			case "refused":
				r = nil
			case "flip":
				if strings.HasSuffix(name, ".gz") {
					b := append([]byte(nil), r.Body...)
					b[10+(len(b)-18)*int(o.A)/1000] ^= 1 << uint(o.I)
					r.Body = b
				}
			}
			break
		}
		nreq++
		return r
	}
	sys.Commands["curl"] = func(c *sys.Call) int { stat("curl"); return curl(c) }
	sys.Commands["tar"] = untar
	sys.Commands["git"] = git
	sys.Commands["make.bash"] = makeBash
	sys.Commands["go"] = func(c *sys.Call) int {
		if c.Fail != nil {
			return 1
		}
		c.Out("/usr/lib/go\n")
		return 0
	}
	// the cache may lie in a repository of the user
	env := []string{"HOME=/home", "PATH=/usr/bin"}
	if p.Opt["parent"] == 1 {
		g := sys.Start("setup", "/cache", env, func() int {
			return git(&sys.Call{Args: []string{"git", "init", "-b", "go1.20.1"}, Dir: "/cache", Stdout: discard{}, Stderr: discard{}})
		})
		g.Wait()
	}
	first := 0
	if p.Opt["parent"] == 1 {
		first = 1
	}
	// the faults of an operation belong to it even if others were dropped
	setFaults(p)
	index := map[int]int{}
	for _, o := range p.Main {
		if o.K != "net" {
			index[o.L] = first + len(index)
		}
	}
	for _, f := range sys.Faults {
		if i, ok := index[f.Proc]; ok {
			f.Proc = i
		} else {
			f.Proc = -1
		}
	}
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	// complete tells what is missing in a checkout.
	complete := func(root, version string) string {
		w := want[version]
		got := map[string]string{}
		for k, v := range sys.Tree(root) {
			if k != ".git/" && !strings.HasPrefix(k, ".git/") {
				got[k] = v
			}
		}
		if d := sys.Diff(w, got); d != "" {
			return d
		}
		g := findRepo(root)
		if g == nil || g.top != root {
			return "no repository"
		}
		if g.branch() != version {
			return "on branch " + g.branch()
		}
		parent, _, msg, ok := g.commit(g.head())
		if !ok || parent != "" || msg != "init "+version {
			return "no initial commit"
		}
		m, ok := g.treeOf(g.head())
		if !ok {
			return "damaged commit"
		}
		files := map[string]string{}
		for k, v := range w {
			if !strings.HasSuffix(k, "/") {
				files[k] = v
			}
		}
		if d := sys.Diff(files, m); d != "" {
			return "the commit differs: " + d
		}
		return ""
	}
	name := func(s string) string {
		s = strings.TrimPrefix(s, "go")
		if s == "1.20" {
			s = "1.20.1"
		}
		return "go" + s
	}
	ensure := func(o *Op) *sys.Proc {
		v := name(o.S)
		root := "/cache/" + v
		valid, ok, dir := false, false, ""
		pr := sys.Start(fmt.Sprintf("%s%d", o.K, o.L), "/work", env, func() int {
			var err error
			if o.K == "valid" {
				v, err := gitgoroot.IsGitGorootValid(root, v)
				valid = v && err == nil
				return 0
			}
			boot := "/usr/lib/go"
			if o.I == 1 {
				boot = ""
			}
			dir, err = gitgoroot.EnsureGitGoroot("/cache", o.S, boot)
			if err != nil {
				fmt.Fprintf(sys.Stderr, "%v\n", err)
				return 1
			}
			ok = true
			return 0
		})
		pr.Wait()
		if valid {
			stat("valid")
			if d := complete(root, v); d != "" {
				viol("accepted", "%s is taken as valid: %s", root, d)
			}
		}
		if ok {
			stat("ensure:ok")
			if dir != root {
				viol("dest", "preparing %s returned %q", o.S, dir)
			}
			if d := complete(root, v); d != "" {
				viol("incomplete", "preparing %s reported success, %s is not complete: %s", o.S, root, d)
			}
		} else {
			stat("ensure:failed")
		}
		if pr.Panic != "" {
			viol("panic", "panic: %s", pr.Panic)
		}
		if pr.Killed {
			stat("killed")
		}
		events++
		return pr
	}
	for _, o := range p.Main {
		if o.K != "net" {
			ensure(o)
		}
	}
	// without faults, preparing succeeds, and once only
	sys.Quota = 0
	sys.Faults = nil
	nreq = 1 << 20
	for _, v := range []string{"1.20.1", "1.20", "1.21.0"} {
		pr := ensure(&Op{K: "ensure", L: 99, S: v})
		if pr.Code != 0 {
			viol("stuck", "preparing %s fails after the faults have stopped: %s", v, tail(pr.Out.String()))
		}
	}
	before := listing(sys.Tree("/cache"))
	got := stats["curl"]
	if pr := ensure(&Op{K: "ensure", L: 99, S: "1.20.1"}); pr.Code != 0 || stats["curl"] != got || listing(sys.Tree("/cache")) != before {
		viol("again", "a complete checkout is prepared again")
	}
	pr := sys.Start("worktree", "/work", env, func() int {
		dir, clean, err := gitgoroot.SpawnWorktree("/cache/go1.20.1")
		if err != nil {
			viol("worktree", "no working tree: %v", err)
		}
		got := map[string]string{}
		for k, v := range sys.Tree(dir) {
			if k != ".git" && !strings.HasSuffix(k, "/") {
				got[k] = v
			}
		}
		w := map[string]string{}
		for k, v := range want["go1.20.1"] {
			if !strings.HasSuffix(k, "/") {
				w[k] = v
			}
		}
		if d := sys.Diff(w, got); d != "" {
			viol("worktree", "the working tree differs from the checkout: %s", d)
		}
		clean()
		if len(sys.Tree(dir)) > 0 {
			viol("worktree", "the working tree stays")
		}
		return 0
	})
	pr.Wait()
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
