package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	explorer "github.com/xhd2015/xgo/cmd/xgo/test-explorer"
	"verif.local/io/sys"
)

// S13: test runs of the explorer.

func init() {
	profiles["S13"] = &profile{gen: gen13, run: run13}
}

var subs13 = []string{"sub", "sub2", "sub#01", "a+b", "f(x)", "x.y", "x|y", "{}", "[1]", "a_b", "é", "$", "^", "n\\1", "*", "s", "a", "a/b"}

func gen13(r *rng, p *Plan) {
	var tests func(depth, n int, names []string) []*Op
	outcome := func() string {
		return r.pick("pass", "pass", "pass", "pass", "fail", "skip")
	}
	tests = func(depth, n int, names []string) (l []*Op) {
		for i := 0; i < n && i < len(names); i++ {
			t := &Op{K: "test", N: names[i], S: outcome(), A: int64(r.n(4)), T: r.n(8), F: r.n(16)}
			if depth < 3 && r.p(30) {
				s := append([]string(nil), subs13...)
				for j := range s {
					k := r.n(j + 1)
					s[j], s[k] = s[k], s[j]
				}
				t.B = tests(depth+1, 1+r.n(3), s)
			}
			l = append(l, t)
		}
		return
	}
	tops := []string{"TestA", "TestAB", "TestB", "TestBA", "TestC", "Test", "Test_x", "TestÄ"}
	pkgs := []string{"", "p", "p/q", "pq", "r/s/t", "p/q/v", "r/q", "q", "p/p"}
	for i := range pkgs {
		j := r.n(i + 1)
		pkgs[i], pkgs[j] = pkgs[j], pkgs[i]
	}
	n := 1 + r.n(4)
	k := 0
	for i := 0; i < n; i++ {
		pk := &Op{K: "pkg", N: pkgs[(k+i)%len(pkgs)], S: "ok", T: r.n(1000), F: r.n(8)}
		if r.p(15) {
			pk.S = r.pick("build", "build", "exit", "panic", "fail")
		}
		s := append([]string(nil), tops...)
		for j := range s {
			k := r.n(j + 1)
			s[j], s[k] = s[k], s[j]
		}
		m := 1 + r.n(3)
		for j := 0; j < m; j++ {
			f := &Op{K: "file", N: []string{"a_test.go", "b_test.go", "c_x_test.go"}[j]}
			c := r.n(4)
			if c > len(s) {
				c = len(s)
			}
			f.B = tests(0, c, s)
			s = s[c:]
			pk.B = append(pk.B, f)
		}
		p.Tree = append(p.Tree, pk)
	}
	p.Opt["go"] = int64(r.n(3))       // how build failures are reported
	p.Opt["parallel"] = int64(r.n(3)) // packages tested at a time
	p.Opt["chunk"] = int64(r.n(4))
	p.Opt["flags"] = int64(r.n(8))
	p.Opt["console"] = int64(r.n(2))
	if r.p(12) {
		p.Opt["kill"] = int64(1 + r.n(40))
	}
	if r.p(5) {
		p.Opt["missing"] = 1
	}
	if r.p(20) {
		p.Opt["sub"] = int64(1 + r.n(2)) // the project directory is a directory of the module
	}
	if r.p(15) {
		p.Opt["exclude"] = int64(1 + r.n(3))
	}
	if r.p(25) {
		p.Opt["stderr"] = int64(1 + r.n(3))
	}
	if r.p(15) {
		p.Opt["noise"] = int64(1 + r.n(4))
	}
	if r.p(10) {
		p.Opt["long"] = int64(60000 + r.n(90000))
	}
	m := 1 + r.n(4)
	for i := 0; i < m; i++ {
		p.Main = append(p.Main, &Op{K: "run", S: r.pick("", "", "", "", "", "debug", "/run", "/debug"), L: i, T: r.n(3), I: r.n(1000), A: int64(r.n(1000)), F: r.n(16)})
	}
	if r.p(10) {
		p.Faults = append(p.Faults, &Op{K: "error", S: "exec", A: int64(r.n(3)), I: r.n(len(errnos))})
	}
}

// an invocation of go test, as far as it got
type inv13 struct {
	tag     string
	args    []string
	results map[string]string // package \x00 test: result reported
	ran     map[string]bool
	out     map[string]string // package \x00 test: output reported, test may be empty
	texts   []string          // lines on standard error and those that are no JSON
	raw     []string          // lines without -json
	started bool
	ended   bool
	code    int
	json    bool
	lines   int
	cmd     string
	killed  bool
}

type event13 struct {
	Event        string
	Path         []string
	Status       string
	Msg          string
	LogConsole   bool
	TraceRecords []struct{ Func string }
}

type item13 struct {
	Key, Name, BaseCaseName, NameUnderPkg, RelPath, File, Kind string
	HasTestCases, HasTestGoFiles                               bool
	Children                                                   []*item13
}

// session is what a client saw
type ses13 struct {
	op     *Op
	item   *item13
	path   []string
	events []*event13
	ended  bool
	err    string
	trace  bool
	mode   string
}

// base13 is the project directory in the module.
func base13(p *Plan) string {
	return []string{"", "p", "p/q"}[p.Opt["sub"]]
}

// rel13 is the path of a file or directory in the project directory.
func rel13(p *Plan, f string) (string, bool) {
	b := base13(p)
	if b == "" {
		return f, true
	}
	if f == b {
		return "", true
	}
	return strings.TrimPrefix(f, b+"/"), strings.HasPrefix(f, b+"/")
}

// path13 is the path of an item of the project directory.
func path13(p *Plan, f string) []string {
	r := []string{path.Base(path.Join("proj", base13(p)))}
	f, _ = rel13(p, f)
	if f != "" {
		r = append(r, strings.Split(f, "/")...)
	}
	return r
}

var excludes13 = [][]string{nil, {"p/q"}, {"r/**"}, {"q", "p/p"}}

func excluded13(p *Plan, file string) bool {
	for _, e := range excludes13[p.Opt["exclude"]] {
		e = strings.TrimSuffix(e, "/**")
		if strings.HasPrefix(file, e+"/") || file == e {
			return true
		}
	}
	return false
}

func run13(p *Plan) {
	src := map[string]string{"go.mod": "module example.com/proj\n\ngo 1.20\n"}
	for i, pk := range p.Tree {
		d := pk.N
		if d != "" {
			d += "/"
		}
		src[d+"lib.go"] = fmt.Sprintf("package p%d\n", i)
		for _, f := range pk.B {
			s := fmt.Sprintf("package p%d\n\nimport \"testing\"\n", i)
			for _, t := range f.B {
				s += fmt.Sprintf("\nfunc %s(t *testing.T) {\n}\n", t.N)
			}
			src[d+f.N] = s + "\nfunc BenchmarkX(b *testing.B) {}\n\nfunc helper(t *testing.T, n int) {}\n"
		}
	}
	for n, s := range src {
		sys.Put("/work/proj/"+n, []byte(s), 0644)
	}
	sys.MkdirAll("/tmp", 0777)
	sys.MkdirAll(path.Join("/work/proj", base13(p)), 0755)
	if p.Opt["flags"] > 0 || p.Opt["exclude"] > 0 {
		c := map[string]interface{}{}
		if p.Opt["flags"]&1 != 0 {
			c["flags"] = []string{"-count=1"}
		}
		if p.Opt["flags"]&2 != 0 {
			c["args"] = []string{"-x", "y z"}
		}
		if p.Opt["flags"]&4 != 0 {
			c["env"] = map[string]string{"K": "v w"}
			c["bypass_go_flags"] = true
		}
		if e := excludes13[p.Opt["exclude"]]; e != nil {
			c["exclude"] = e
		}
		b, _ := json.Marshal(c)
		sys.Put("/work/proj/test.config.json", b, 0644)
	}
	var invs []*inv13
	if p.Opt["missing"] == 0 {
		sys.Commands["go"] = func(c *sys.Call) int {
			v := &inv13{tag: fmt.Sprintf("inv%d.", len(invs)), args: c.Args[1:], results: map[string]string{}, ran: map[string]bool{}, out: map[string]string{}}
			invs = append(invs, v)
			v.code = goTest13(p, c, v)
			v.ended = true
			return v.code
		}
		sys.Commands["dlv"] = sys.Commands["go"]
	}
	setFaults(p)
	args := []string{"--coverage=false", "--project-dir", path.Join("/work/proj", base13(p)), "--bind", "localhost", "--port", "7070"}
	if p.Opt["console"] != 0 {
		args = append(args, "--log-console")
	}
	sys.ServeFn = func(port int) error {
		for {
			sys.Sleep(time.Second)
			if sys.Gone() {
				return sys.ErrDead
			}
		}
	}
	sys.Handler = nil
	var mainErr error
	pr := sys.Start("explorer", "/work/proj", []string{"PATH=/usr/bin", "HOME=/home"}, func() int {
		mainErr = explorer.Main(args, nil)
		return 1
	})
	for i := 0; sys.Handler == nil && i < 20000 && !pr.Dead; i++ {
		sys.Sleep(time.Millisecond)
	}
	if sys.Handler == nil {
		viol("start", "the explorer does not serve: %v %s", mainErr, pr.Panic)
	}
	h := sys.Handler.(http.Handler)
	live := 0
	var sess []*ses13
	for c := 0; c < 3; c++ {
		c := c
		live++
		pr.Spawn(func() {
			for _, o := range p.Main {
				if o.T == c {
					s := &ses13{op: o}
					sess = append(sess, s)
					s.run(h, p)
				}
			}
			live--
		})
	}
	for live > 0 && !pr.Dead {
		sys.Sleep(10 * time.Millisecond)
	}
	if pr.Panic != "" {
		if known13("unreadable", unreadable13(p, true)) {
			return
		}
		viol("panic", "the explorer crashed: %s", pr.Panic)
	}
	// nothing may come after the end
	pr.Kill()
	pr.Wait()
	for _, s := range sess {
		s.judge(p, invs)
	}
}

func call13(h http.Handler, url string, req, res interface{}) (int, string) {
	b, _ := json.Marshal(req)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("POST", url, strings.NewReader(string(b))))
	if w.Code == 200 && res != nil {
		if err := json.Unmarshal(w.Body.Bytes(), res); err != nil {
			return 0, err.Error()
		}
	}
	return w.Code, w.Body.String()
}

func (s *ses13) run(h http.Handler, p *Plan) {
	sys.Sleep(time.Duration(s.op.A) * time.Millisecond)
	root := &item13{}
	if code, msg := call13(h, "/list", nil, root); code != 200 {
		viol("list", "listing the tests: %d %.200q", code, msg)
	}
	type cand struct {
		it   *item13
		path []string
	}
	var cands, cases []cand
	have := map[string]bool{}
	var walk func(it *item13, pre []string)
	walk = func(it *item13, pre []string) {
		pa := append(append([]string(nil), pre...), it.Key)
		c := cand{it, pa}
		if it.Kind == "case" {
			cases = append(cases, c)
			have[path.Join(it.RelPath, it.Name)] = true
		} else {
			cands = append(cands, c)
		}
		for _, k := range it.Children {
			walk(k, pa)
		}
	}
	walk(root, nil)
	for _, pk := range p.Tree {
		for _, f := range pk.B {
			file, ok := rel13(p, path.Join(pk.N, f.N))
			if !ok || excluded13(p, path.Join(pk.N, f.N)) {
				continue
			}
			for _, t := range f.B {
				k := path.Join(file, t.N)
				if !have[k] {
					viol("list", "the test %s is not listed", k)
				}
				delete(have, k)
			}
		}
	}
	for k := range have {
		viol("list", "%s is listed, but there is no such test", k)
	}
	all := cands
	if s.op.F&3 == 0 {
		all = cases
	}
	if len(all) == 0 || len(cases) == 0 {
		return
	}
	c := all[s.op.I%len(all)]
	it := *c.it
	s.item, s.path = &it, c.path
	if it.Kind == "case" && s.op.F&4 != 0 {
		// a case below it, as the explorer makes it from events
		if subs := paths13(find13(p, it.RelPath, it.Name).B, ""); len(subs) > 0 {
			sub := subs[s.op.I/7%len(subs)]
			it.NameUnderPkg = it.Name + "/" + sub
			it.BaseCaseName = it.Name
			it.Name = path.Base(sub)
			it.Key = it.Name
			s.path = append(append([]string(nil), c.path...), strings.Split(sub, "/")...)
		}
	}
	s.trace = it.Kind == "case" && s.op.F&8 != 0
	stat("item:" + it.Kind)
	var started struct{ ID string }
	poll, destroy := "/session/pollStatus", "/session/destroy"
	var code int
	var msg string
	s.mode = ""
	if it.Kind == "case" {
		s.mode = s.op.S
	}
	switch s.mode {
	case "/run", "/debug":
		s.item, s.path = c.it, c.path
		s.trace = false
		poll, destroy = s.mode+"/pollStatus", s.mode+"/destroy"
		code, msg = call13(h, s.mode, map[string]interface{}{"item": s.item, "path": s.path}, &started)
	default:
		s.trace = s.trace && s.mode == ""
		code, msg = call13(h, "/session/start", map[string]interface{}{"item": s.item, "path": s.path, "trace": s.trace, "debug": s.mode == "debug"}, &started)
	}
	stat("mode:" + s.mode)
	if code != 200 {
		s.err = msg
		if started.ID != "" || code < 400 {
			viol("start", "starting a session: %d %.200q", code, msg)
		}
		return
	}
	empty := 0
	for empty < 60 && !s.ended {
		var res struct{ Events []*event13 }
		code, msg := call13(h, poll, map[string]string{"id": started.ID}, &res)
		if code != 200 {
			viol("poll", "polling: %d %.200q", code, msg)
		}
		if len(res.Events) == 0 {
			empty++
		} else {
			empty = 0
		}
		s.events = append(s.events, res.Events...)
		for _, e := range res.Events {
			if e.Event == "test_end" {
				s.ended = true
			}
		}
		if s.op.A%3 == 0 {
			sys.Sleep(time.Duration(s.op.A) * time.Millisecond)
		}
	}
	if s.ended {
		// what comes after the end
		var res struct{ Events []*event13 }
		call13(h, poll, map[string]string{"id": started.ID}, &res)
		s.events = append(s.events, res.Events...)
	}
	if code, _ := call13(h, destroy, map[string]string{"id": started.ID}, nil); code != 200 {
		viol("destroy", "destroying the session: %d", code)
	}
}

// find13 is the test of a file.
func find13(p *Plan, file, name string) *Op {
	for _, pk := range p.Tree {
		for _, f := range pk.B {
			if rel, ok := rel13(p, path.Join(pk.N, f.N)); ok && rel == file {
				for _, t := range f.B {
					if t.N == name {
						return t
					}
				}
			}
		}
	}
	return &Op{}
}

func paths13(l []*Op, pre string) (r []string) {
	for _, t := range l {
		r = append(r, pre+t.N)
		r = append(r, paths13(t.B, pre+t.N+"/")...)
	}
	return
}

func pkgPath13(d string) string { return path.Join("example.com/proj", d) }

// goTest13 is the go command.
func goTest13(p *Plan, c *sys.Call, v *inv13) int {
	var dirs []string
	var pat []*regexp.Regexp
	traceDir := ""
	args := c.Args[1:]
	verbose := false
	compile := ""
	v.cmd = c.Args[0]
	if v.cmd == "dlv" {
		// dlv exec flags bin -- flags
		for len(args) > 0 && args[0] != "--" {
			if args[0] == "exec" {
				verbose = true
			} else if strings.HasPrefix(args[0], "/tmp/") {
				f, _ := sys.ReadFile(args[0])
				if !strings.HasPrefix(string(f), "binary ") {
					viol("args", "dlv was called for %s, which is no test binary", args[0])
				}
				dirs = append(dirs, string(f[len("binary "):]))
			}
			args = args[1:]
		}
		if len(args) == 0 || len(dirs) != 1 || !verbose {
			viol("args", "dlv was called wrongly: %q", c.Args)
		}
		args[0] = "test"
	}
	if len(args) == 0 || args[0] != "test" {
		c.Errf("unknown command\n")
		return 2
	}
	for i := 1; i < len(args); i++ {
		switch a := args[i]; {
		case a == "-args":
			i = len(args)
		case a == "-json":
			v.json = true
		case a == "-c":
			verbose = true
			compile = "-"
		case a == "-o" && compile != "":
			i++
			compile = c.File(args[i])
		case a == "-test.run":
			args[i] = "-run"
			i--
		case a == "-test.v", a == "-v":
			verbose = true
		case a == "-run":
			i++
			for _, e := range splitRun13(args[i]) {
				re, err := regexp.Compile(e)
				if err != nil {
					c.Errf("testing: invalid regexp in element 0 of %q (%q): %v\n", args[i], e, err)
					return 1
				}
				pat = append(pat, re)
			}
		case a == "--strace":
		case a == "--strace-dir":
			i++
			traceDir = args[i]
		case strings.HasPrefix(a, "-"):
		default:
			if a == "." || strings.HasPrefix(a, "./") {
				if d, err := filepath.Rel("/work/proj", path.Join(c.Dir, a)); err == nil {
					dirs = append(dirs, d)
					break
				}
			}
			if v.cmd == "go" {
				viol("args", "go was called for %q: %q", a, c.Args)
			}
		}
	}
	if !verbose {
		viol("args", "go was called without -v: %q", c.Args)
	}
	v.started = true
	kill := int(p.Opt["kill"])
	dead := func() bool { return v.killed }
	writing := false
	write := func(s string) bool {
		for writing {
			sys.Sleep(time.Millisecond)
			if sys.Gone() {
				return false
			}
		}
		if dead() {
			return false
		}
		writing = true
		defer func() { writing = false }()
		b := []byte(s)
		for len(b) > 0 {
			n := len(b)
			switch p.Opt["chunk"] {
			case 1:
				n = 1 + len(b)/2
			case 2:
				n = 17
			}
			if n < 400 && len(b) > 4000 {
				n = 4000
			}
			if n > len(b) {
				n = len(b)
			}
			c.Stdout.Write(b[:n])
			b = b[n:]
		}
		v.lines++
		if v.lines == kill {
			v.killed = true
		}
		if v.lines%5 == 0 {
			sys.Sleep(time.Duration(v.lines) * time.Millisecond)
		}
		return true
	}
	text := func(s string) {
		if !dead() {
			v.texts = append(v.texts, strings.Split(strings.TrimSuffix(s, "\n"), "\n")...)
		}
	}
	emit := func(action, pkg, test, output string) {
		if dead() {
			return
		}
		k := pkg + "\x00" + test
		if !v.json {
			if output != "" {
				v.raw = append(v.raw, strings.TrimSuffix(strings.TrimSuffix(output, "\n"), "\r"))
				write(output)
			}
			return
		}
		m := map[string]interface{}{"Time": "2024-01-02T03:04:05Z", "Action": action}
		if pkg != "" {
			m["Package"] = pkg
		}
		if test != "" {
			m["Test"] = test
		}
		if output != "" {
			m["Output"] = output
		}
		switch action {
		case "pass", "fail", "skip":
			m["Elapsed"] = 0.01
		}
		b, _ := json.Marshal(m)
		if !write(string(b) + "\n") {
			return
		}
		v.out[k] += output
		switch action {
		case "pass", "fail", "skip":
			v.results[k] = action
		}
	}
	if compile != "" {
		for _, pk := range p.Tree {
			if len(dirs) == 1 && path.Clean(pk.N) == dirs[0] {
				if pk.S == "build" {
					msg := pk.N + "/lib.go:3:5: undefined: x" + v.tag
					text("# " + pkgPath13(pk.N) + "\n" + msg)
					c.Errf("# %s\n%s\n", pkgPath13(pk.N), msg)
					return 1
				}
				if err := sys.WriteFile(compile, []byte("binary "+dirs[0]), 0755); err != nil {
					return 1
				}
				return 0
			}
		}
		viol("args", "go was called to compile no package: %q", c.Args)
	}
	for i := int64(0); i < p.Opt["stderr"]; i++ {
		s := fmt.Sprintf("go: warning %s%d", v.tag, i)
		text(s)
		c.Errf("%s\n", s)
	}
	if p.Opt["noise"]&1 != 0 && v.json {
		s := "note " + v.tag
		text(s)
		write(s + "\n")
	}
	fail := false
	one := func(pk *Op) {
		pkg := pkgPath13(pk.N)
		hash := pk.T + len(v.tag)
		if dead() {
			return
		}
		if pk.S == "build" {
			fail = true
			msg := fmt.Sprintf("%s/lib.go:3:5: undefined: x%s", pk.N, v.tag)
			switch {
			case !v.json || p.Opt["go"] == 0:
				text("# " + pkg + "\n" + msg)
				c.Errf("# %s\n%s\n", pkg, msg)
				s := "FAIL\t" + pkg + " [build failed]\n"
				if v.json {
					text(s)
				} else {
					v.raw = append(v.raw, strings.TrimSuffix(s, "\n"))
				}
				if write(s) && v.json {
					v.results[pkg+"\x00"] = "fail"
				}
			default:
				for _, l := range []string{"# " + pkg, msg} {
					b, _ := json.Marshal(map[string]string{"ImportPath": pkg, "Action": "build-output", "Output": l + "\n"})
					text(l)
					write(string(b) + "\n")
				}
				b, _ := json.Marshal(map[string]string{"ImportPath": pkg, "Action": "build-fail"})
				write(string(b) + "\n")
				emit("start", pkg, "", "")
				emit("output", pkg, "", "FAIL\t"+pkg+" [build failed]\n")
				emit("fail", pkg, "", "")
			}
			return
		}
		emit("start", pkg, "", "")
		bad := false
		stop := false
		n := 0
		var test func(t *Op, pre string, depth int) (failed bool)
		test = func(t *Op, pre string, depth int) (failed bool) {
			if stop || dead() {
				return false
			}
			name := pre + t.N
			for i, e := range strings.Split(name, "/") {
				if i < len(pat) && !pat[i].MatchString(e) {
					return false
				}
			}
			v.ran[pkg+"\x00"+name] = true
			emit("run", pkg, name, "")
			emit("output", pkg, name, "=== RUN   "+name+"\n")
			if t.F == 1 {
				emit("output", pkg, name, "=== PAUSE "+name+"\n")
				emit("pause", pkg, name, "")
				sys.Y()
				emit("output", pkg, name, "=== CONT  "+name+"\n")
				emit("cont", pkg, name, "")
			}
			for i := int64(0); i < t.A; i++ {
				emit("output", pkg, name, fmt.Sprintf("    x_test.go:%d: %s %s\n", i, v.tag, t.N))
			}
			if l := int(p.Opt["long"]); l > 0 && depth == 0 {
				for l > 0 {
					k := l
					if v.json && k > 4000 {
						k = 4000
					}
					s := strings.Repeat("y", k)
					l -= k
					if l == 0 {
						s += "\n"
					}
					emit("output", pkg, name, s)
				}
			}
			switch t.T {
			case 1:
				emit("output", pkg, name, "\"quoted\" {brace} \\ "+v.tag+"\r\n")
			case 2:
				emit("output", pkg, name, "FAIL\tnot really\n")
			case 3:
				emit("output", pkg, name, "\n")
			}
			n++
			if n == 1+hash%3 {
				switch pk.S {
				case "exit":
					stop, bad = true, true
					return true
				case "panic":
					stop, bad = true, true
					emit("output", pkg, name, "--- FAIL: "+name+" (0.00s)\n")
					emit("output", pkg, name, "panic: boom "+v.tag+"\n")
					emit("fail", pkg, name, "")
					return true
				}
			}
			failed = t.S == "fail"
			for _, s := range t.B {
				if test(s, name+"/", depth+1) {
					failed = true
				}
			}
			if stop || dead() {
				return failed
			}
			res := t.S
			if failed {
				res = "fail"
			}
			emit("output", pkg, name, "--- "+strings.ToUpper(res)+": "+name+" (0.00s)\n")
			emit(res, pkg, name, "")
			if failed {
				bad = true
			}
			if traceDir != "" {
				q, _ := json.Marshal(v.tag + ":" + name)
				sys.Put(path.Join(traceDir, name)+".json", []byte(`{"Begin":"x","Children":[{"FuncInfo":{"Name":`+string(q)+`}}]}`), 0644)
			}
			return failed
		}
		for _, f := range pk.B {
			for _, t := range f.B {
				test(t, "", 0)
			}
		}
		if pk.S == "fail" {
			bad = true
		}
		if pk.F&1 != 0 && pat == nil && !stop && !dead() {
			emit("run", pkg, "ExampleX", "")
			emit("output", pkg, "ExampleX", "=== RUN   ExampleX\n")
			if pk.F&2 != 0 {
				bad = true
				emit("fail", pkg, "ExampleX", "")
			} else {
				emit("pass", pkg, "ExampleX", "")
			}
		}
		if n == 0 {
			emit("output", pkg, "", "testing: warning: no tests to run\n")
		}
		if bad {
			fail = true
			emit("output", pkg, "", "FAIL\n")
			emit("output", pkg, "", "FAIL\t"+pkg+"\t0.01s\n")
			emit("fail", pkg, "", "")
		} else {
			emit("output", pkg, "", "PASS\n")
			emit("output", pkg, "", "ok  \t"+pkg+"\t0.01s\n")
			emit("pass", pkg, "", "")
		}
	}
	var todo []*Op
	for _, d := range dirs {
		found := false
		for _, pk := range p.Tree {
			if path.Clean(pk.N) == d || pk.N == "" && d == "." {
				todo = append(todo, pk)
				found = true
			}
		}
		if !found {
			viol("args", "go was called for %s, which is no package", d)
		}
	}
	if par := int(p.Opt["parallel"]); par > 0 && v.json {
		// packages are tested at the same time
		busy := 0
		for len(todo) > 0 || busy > 0 {
			if len(todo) > 0 && busy <= par {
				pk := todo[0]
				todo = todo[1:]
				busy++
				sys.Spawn(func() { one(pk); busy-- })
				continue
			}
			sys.Sleep(time.Millisecond)
			if sys.Gone() {
				return 1
			}
		}
	} else {
		for _, pk := range todo {
			one(pk)
		}
	}
	if v.killed {
		return -9
	}
	if p.Opt["noise"]&2 != 0 && v.json {
		// cut off
		s := "note 2 " + v.tag
		text(s)
		write(s)
	}
	if p.Opt["stderr"] > 1 {
		s := "go: done " + v.tag
		text(s)
		c.Errf("%s", s) // no newline
	}
	if fail {
		return 1
	}
	return 0
}

// splitRun13 splits a pattern at slashes that are not in brackets.
func splitRun13(s string) (r []string) {
	cs, cp := 0, 0
	for i := 0; i < len(s); {
		switch s[i] {
		case '[':
			cs++
		case ']':
			if cs--; cs < 0 {
				cs = 0
			}
		case '(':
			if cs == 0 {
				cp++
			}
		case ')':
			if cs == 0 {
				cp--
			}
		case '\\':
			i++
		case '/':
			if cs == 0 && cp == 0 {
				r = append(r, s[:i])
				s = s[i+1:]
				i = 0
				continue
			}
		}
		i++
	}
	return append(r, s)
}

// known reports whether a violation is one of the findings that are listed
// for the explorer: what is behind it is in known_findings.jsonl.
func known13(id string, when bool) bool {
	if when {
		stat("known finding: " + id)
	}
	return when
}

// lines the explorer cannot read: no JSON, or more than 64 KB
func unreadable13(p *Plan, json bool) bool {
	if !json {
		return p.Opt["long"] > 0
	}
	for _, pk := range p.Tree {
		if pk.S == "build" && p.Opt["go"] == 0 {
			return true
		}
	}
	return p.Opt["noise"]&3 != 0
}

// wide13: the names of tests go to -run unquoted and without anchors.
func wide13(want map[string]bool, x string) bool {
	_, x, _ = strings.Cut(x, "\x00")
	xs := strings.Split(x, "/")
	for k := range want {
		_, n, _ := strings.Cut(k, "\x00")
		if strings.ContainsAny(n, special13) {
			return true
		}
		ns := strings.Split(n, "/")
		if len(ns) > len(xs) {
			ns = ns[:len(xs)]
		}
		in := true
		for i := range ns {
			in = in && strings.Contains(xs[i], ns[i])
		}
		if in {
			return true
		}
	}
	return false
}

const special13 = "+()*?^$\\."

func (s *ses13) judge(p *Plan, invs []*inv13) {
	if s.item == nil || s.err != "" {
		return
	}
	events++
	desc := fmt.Sprintf("run of %s (%s %s)", strings.Join(s.path, "/"), s.item.Kind, s.mode)
	json := s.item.Kind != "case"
	stderr := p.Opt["stderr"] > 0
	for _, pk := range p.Tree {
		stderr = stderr || pk.S == "build"
	}
	// the command line goes to standard error, then it turns out that go
	// cannot be run
	for _, w := range invs {
		stderr = stderr || !w.started || w.killed
	}
	stderr = stderr || p.Opt["missing"] > 0 || len(invs) == 0
	if !s.ended {
		if known13("unreadable", unreadable13(p, json)) {
			return
		}
		viol("end", "%s: no end was reported", desc)
	}
	// the invocation it belongs to
	var v *inv13
	for _, e := range s.events {
		for _, w := range invs {
			if strings.Contains(e.Msg, w.tag) && v != w {
				if v != nil {
					viol("mixed", "%s: messages of two runs: %.100q", desc, e.Msg)
				}
				v = w
			}
		}
	}
	status := map[string]string{}
	msgs := map[string]string{}
	var all, got []string
	old := s.mode == "/run" || s.mode == "/debug"
	first := map[string]bool{}
	for i, e := range s.events {
		switch e.Event {
		case "test_start":
			if i != 0 {
				viol("order", "%s: the start is event %d", desc, i)
			}
		case "test_end":
			if i != len(s.events)-1 {
				n := s.events[i+1]
				if known13("stderr", stderr) || known13("run-debug", s.mode != "") {
					return
				}
				viol("order", "%s: after the end came %s %v %.60q", desc, n.Event, n.Path, n.Msg)
			}
		case "item_status":
			k := strings.Join(e.Path, "\x01")
			if e.Status != "" {
				status[k] = e.Status
				if e.Status == "success" {
					first[k] = true
				}
			}
			msgs[k] += e.Msg
			if e.Msg != "" {
				all = append(all, strings.Split(strings.TrimSuffix(e.Msg, "\n"), "\n")...)
			}
			if k == strings.Join(s.path, "\x01") {
				got = append(got, e.Msg)
			}
		case "output":
			all = append(all, strings.Split(e.Msg, "\n")...)
			got = append(got, e.Msg)
		case "error_msg":
			all = append(all, strings.Split(e.Msg, "\n")...)
			stat("error_msg")
		}
	}
	if s.events[0].Event != "test_start" && !old {
		viol("order", "%s: the first event is %s", desc, s.events[0].Event)
	}
	ran := 0
	for _, w := range invs {
		if w.started {
			ran++
		}
	}
	rootKey := strings.Join(s.path, "\x01")
	if v == nil {
		// never started, or silent
		if ran == 0 {
			stat("not-started")
			if !old && status[rootKey] != "fail" {
				viol("not-started", "%s: go could not be run, the status is %q", desc, status[rootKey])
			}
			for k := range first {
				if known13("passed", true) {
					break
				}
				viol("success", "%s: go could not be run, %s is reported as passed", desc, strings.ReplaceAll(k, "\x01", "/"))
			}
		}
		return
	}
	if !v.ended {
		if known13("unreadable", unreadable13(p, json)) || known13("run-debug", s.mode != "") {
			return
		}
		viol("early", "%s: the end was reported while go test was running", desc)
	}
	// which tests were to run
	want := map[string]bool{}
	for _, pk := range p.Tree {
		for _, f := range pk.B {
			file, ok := rel13(p, path.Join(pk.N, f.N))
			if !ok {
				continue
			}
			if excluded13(p, path.Join(pk.N, f.N)) {
				continue
			}
			for _, t := range f.B {
				sel := false
				switch s.item.Kind {
				case "dir":
					sel = s.item.RelPath == "" || strings.HasPrefix(file, s.item.RelPath+"/")
				case "file":
					sel = file == s.item.RelPath
				default:
					sel = file == s.item.RelPath && t.N == s.item.BaseCaseName
				}
				if !sel {
					continue
				}
				for _, n := range paths13([]*Op{t}, "") {
					u := s.item.NameUnderPkg
					if s.item.Kind != "case" || n == u || strings.HasPrefix(n, u+"/") || strings.HasPrefix(u, n+"/") {
						want[pkgPath13(pk.N)+"\x00"+n] = true
					}
				}
			}
		}
	}
	for k := range v.ran {
		if !want[k] && !strings.HasSuffix(k, "ExampleX") {
			if known13("selection", wide13(want, k)) {
				return
			}
			viol("selection", "%s: also ran %s: go %q", desc, strings.Replace(k, "\x00", " ", 1), v.args)
		}
	}
	whole := !v.killed
	for _, pk := range p.Tree {
		if pk.S != "ok" && pk.S != "fail" {
			whole = false
		}
	}
	if whole {
		for k := range want {
			if !v.ran[k] {
				if known13("selection", wide13(want, "")) {
					return
				}
				viol("selection", "%s: did not run %s: go %q", desc, strings.Replace(k, "\x00", " ", 1), v.args)
			}
		}
	}
	if v.code != 0 {
		stat("failed")
	} else {
		stat("passed")
	}
	if old {
		last := ""
		if len(got) > 0 {
			last = got[len(got)-1]
		}
		if v.code != 0 && !strings.HasPrefix(last, "err: ") && !known13("run-debug", true) {
			viol("root", "%s: the command failed, the output ends with %.60q", desc, last)
		}
	} else if v.code != 0 && status[rootKey] != "fail" {
		viol("root", "%s: go test failed, the status is %q", desc, status[rootKey])
	}
	if !old && v.code == 0 && status[rootKey] != "success" && !(status[rootKey] == "skip") {
		viol("root", "%s: go test passed, the status is %q", desc, status[rootKey])
	}
	if !v.json {
		if s.item.Kind != "case" {
			viol("args", "%s: go test without -json", desc)
		}
		if v.killed {
			return
		}
		at := 0
		broken := false // the compiler's messages are on standard error
		for _, pk := range p.Tree {
			broken = broken || pk.S == "build"
		}
		// lines of two writers may be cut where they meet
		alone := p.Opt["stderr"] == 0 && !broken && (v.cmd == "go" || p.Opt["long"] == 0 && p.Opt["chunk"]%3 == 0)
		if alone {
			for _, g := range got {
				if at < len(v.raw) && strings.TrimSuffix(g, "\r") == v.raw[at] {
					at++
				}
			}
			if at < len(v.raw) && !known13("run-debug", s.mode != "") {
				viol("output", "%s: the line %.60q (%d bytes) of the output is missing", desc, v.raw[at], len(v.raw[at]))
			}
			for _, l := range v.texts {
				if !contains13(all, l) {
					viol("text", "%s: the line %q was not delivered", desc, l)
				}
			}
		}
		if s.trace && v.code == 0 {
			n := 0
			for _, e := range s.events {
				if e.Event == "update_trace" && strings.Join(e.Path, "\x01") == rootKey {
					for _, r := range e.TraceRecords {
						if strings.HasSuffix(r.Func, ":"+s.item.NameUnderPkg) {
							n++
						}
					}
				}
			}
			if n != 1 && !known13("selection", wide13(want, "")) {
				viol("trace", "%s: %d traces of it were reported: go %q", desc, n, v.args)
			}
		}
		return
	}
	// the results
	for _, pk := range p.Tree {
		pkg := pkgPath13(pk.N)
		if _, ok := rel13(p, pk.N); !ok {
			continue
		}
		dir := path13(p, pk.N)
		dk := strings.Join(dir, "\x01")
		if v.results[pkg+"\x00"] == "fail" && status[dk] != "fail" {
			viol("package", "%s: go test reported that %s failed, its status is %q", desc, pkg, status[dk])
		}
		for _, f := range pk.B {
			fk := dk + "\x01" + f.N
			bad := ""
			for _, n := range paths13(f.B, "") {
				k := fk + "\x01" + strings.ReplaceAll(n, "/", "\x01")
				id := pkg + "\x00" + n
				res := v.results[id]
				got := status[k]
				stat("result:" + res)
				switch {
				case sibling13(f.B, n) && res != got:
					known13("passed", true)
				case res == "pass" && got != "success", res == "fail" && got != "fail", res == "skip" && got != "skip":
					viol("result:"+res, "%s: go test reported %s for %s %s, its status is %q", desc, res, pkg, n, got)
				case res == "" && !v.ran[id] && group13(v, id):
					// it never began, the explorer takes it for the group of the tests whose names begin with it
				case v.code != 0 && res == "" && got == "success":
					known13("passed", true)
				case res == "" && got == "success" && want[id], res != "pass" && first[k]:
					viol("success", "%s: %s %s is reported as passed, go test reported %q", desc, pkg, n, res)
				}
				if want[id] && res != "pass" && res != "skip" {
					bad = n
				}
				if !want[id] {
					continue
				}
				own := v.out[id]
				tree := ""
				_ = tree
				if m := msgs[k]; k != rootKey && m != own && !v.killed {
					if !has13(m, own) || strings.Contains(n, "/") {
						viol("output", "%s: the output of %s %s is %.80q (%d bytes), go test reported %.80q (%d bytes)", desc, pkg, n, m, len(m), own, len(own))
					}
				}
			}
			if bad != "" && status[fk] == "success" && !known13("passed", v.code != 0) {
				viol("file", "%s: %s/%s is reported as passed, %s did not pass", desc, pkg, f.N, bad)
			}
		}
	}
	// everything else that was printed
	if !v.killed {
		got := map[string]bool{}
		for _, l := range all {
			got[l] = true
		}
		for _, l := range v.texts {
			if !got[l] && !known13("stderr", stderr) && !known13("unreadable", unreadable13(p, json)) {
				viol("text", "%s: the line %q was not delivered", desc, l)
			}
		}
	}
	sort.Strings(all)
}

// sibling13: the name of a sub test of the same test begins with the name of
// this one and a slash.
func sibling13(l []*Op, n string) bool {
	for _, t := range l {
		if t.N == n {
			for _, u := range l {
				if strings.HasPrefix(u.N, n+"/") {
					return true
				}
			}
		}
		if strings.HasPrefix(n, t.N+"/") && sibling13(t.B, n[len(t.N)+1:]) {
			return true
		}
	}
	return false
}

// group13: a test whose name begins with id and a slash ran.
func group13(v *inv13, id string) bool {
	for k := range v.ran {
		if strings.HasPrefix(k, id+"/") {
			return true
		}
	}
	return false
}

func contains13(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// has13: the lines of want are in got, in their order.
func has13(got, want string) bool {
	g := strings.SplitAfter(got, "\n")
	for _, w := range strings.SplitAfter(want, "\n") {
		if w == "" {
			continue
		}
		for len(g) > 0 && g[0] != w {
			g = g[1:]
		}
		if len(g) == 0 {
			return false
		}
		g = g[1:]
	}
	return true
}
