package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"io"
	"io/fs"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	xgomain "github.com/xhd2015/xgo/cmd/xgo"
	"github.com/xhd2015/xgo/cmd/xgo/asset"
	simos "verif.local/io/os"
	"verif.local/io/sys"
)

// S14: test, build and run of a user's project.

func init() {
	profiles["S14"] = &profile{gen: gen14, run: run14, init: init14}
}

const (
	proj14    = "/work/proj"
	stdin14   = ", reading the input"
	cache14   = "/home/u/go/pkg/mod"
	rtmod14   = "github.com/xhd2015/xgo/runtime"
	lib14     = "example.com/lib"
	overDir14 = "/work/ov"
)

// the runtime library of the tool, and the packages it imports
var (
	runtime14 = map[string]string{}
	std14     = map[string]bool{}
)

func init14() {
	err := fs.WalkDir(asset.RuntimeGenFS, asset.RuntimeGen, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := asset.RuntimeGenFS.ReadFile(p)
		if err != nil {
			return err
		}
		n := strings.TrimPrefix(p, asset.RuntimeGen+"/")
		if n == "go.mod.txt" {
			n = "go.mod"
		}
		runtime14[n] = string(b)
		return nil
	})
	if err != nil {
		panic(err)
	}
	for _, s := range runtime14 {
		for _, x := range parsed(s).imports {
			std14[x] = true
		}
	}
	for _, x := range []string{"fmt", "os", "os/exec", "io", "io/ioutil", "net", "net/http", "time", "errors", "strings", "sync", "testing", "context", "runtime", "sort"} {
		std14[x] = true
	}
	for x := range std14 {
		if strings.Contains(x, ".") || x == "C" || x == "unsafe" {
			delete(std14, x)
		}
	}
}

// what the standard library is like
var stdText14 = map[string]string{
	"time":     "package time\n\ntype Time struct{ n int64 }\n\ntype Duration int64\n\nfunc Now() Time { return Time{} }\n\nfunc Since(t Time) Duration { return 0 }\n\nfunc Sleep(d Duration)\n\nfunc (t Time) Format(l string) string { return l }\n",
	"os":       "package os\n\nimport \"io\"\n\nfunc Getenv(k string) string { return k }\n\nfunc ReadFile(name string) ([]byte, error) { return nil, nil }\n\nfunc Remove(name string) error { return nil }\n\ntype File struct{ R io.Reader }\n\nfunc (f *File) Close() error { return nil }\n",
	"io":       "package io\n\ntype Reader interface{ Read(p []byte) (int, error) }\n\nfunc ReadAll(r Reader) ([]byte, error) { return nil, nil }\n",
	"net/http": "package http\n\nimport \"io\"\n\ntype Client struct{}\n\ntype Request struct{ Body io.Reader }\n\ntype Response struct{}\n\nfunc (c *Client) Do(r *Request) (*Response, error) { return nil, nil }\n\nfunc Get(u string) (*Response, error) { return nil, nil }\n",
	"runtime":  "package runtime\n\nfunc GC() {}\n",
	"fmt":      "package fmt\n\nfunc Sprint(a ...interface{}) string { return \"\" }\n\nfunc Println(a ...interface{}) (int, error) { return 0, nil }\n",
}

// --- the project ---

// text14 is version v of a file of the project. Every declaration has a
// literal of its own.
func text14(name string, v int, rt bool) string {
	l := func(k string) string { return fmt.Sprintf("%q", fmt.Sprintf("L.%s.%s.%d", name, k, v)) }
	b := &strings.Builder{}
	w := func(s string) {
		for strings.Contains(s, "§") {
			i := strings.Index(s, "§")
			j := i + len("§")
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			s = s[:i] + l(s[i+len("§"):j]) + s[j:]
		}
		b.WriteString(s)
	}
	switch name {
	case "main.go":
		w("package main\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\t\"example.com/m/a\"\n\t\"example.com/m/b\"\n)\n\nvar started = time.Now()\n\nfunc main() {\n\tfmt.Println(§main, a.Greet(§arg), b.Join(nil), started)\n}\n")
	case "cmd/tool/main.go":
		w("package main\n\nimport \"example.com/m/a\"\n\nfunc main() { println(a.Greet(§main), help()) }\n")
	case "cmd/tool/help.go":
		w("package main\n\nimport \"os\"\n\nvar env = os.Getenv(§env)\n\nfunc help() string { return §help + env }\n")
	case "a/a.go":
		w("package a\n\nimport (\n\t\"example.com/lib\"\n\t\"example.com/m/internal/c\"\n\t\"strings\"\n)\n\n// Count is mocked\nvar Count = 3\n\nvar names = []string{§names}\n\nconst Limit = §limit\n\ntype Store struct {\n\tm map[string]string\n}\n\ntype Doer interface {\n\tDo(s string) string\n}\n\nfunc (s *Store) Get(k string) string {\n\treturn s.m[k] + §get\n}\n\nfunc (s Store) Len() int { return len(s.m) + len(§len) }\n\nfunc Greet(who string) string {\n\tf := func(x string) string { return x + §clo }\n\treturn f(who) + lib.Version(§ver) + c.Tag(names[0])\n}\n\nfunc unexported(n int) (r string, err error) {\n\tCount += n\n\treturn strings.Repeat(§rep, n), nil\n}\n")
		if v%3 == 1 {
			w("\nfunc Extra() string { return §extra }\n")
		}
		if v%3 == 2 {
			w("\nvar Extra2 = struct{ A, B string }{§ea, §eb}\n\nfunc init() { Extra2.A += §init }\n")
		}
	case "a/gen.go":
		w("//go:build go1.18\n// +build go1.18\n\npackage a\n\ntype Num interface{ ~int | ~int64 }\n\nfunc Map[T Num, R any](l []T, f func(T) R) (out []R) {\n\t_ = §map\n\tfor _, x := range l {\n\t\tout = append(out, f(x))\n\t}\n\treturn\n}\n\ntype Box[T any] struct{ v T }\n\nfunc (b *Box[T]) Put(x T) string { b.v = x; return §put }\n")
	case "a/a_test.go":
		if !rt {
			w("package a\n\nimport \"testing\"\n\nfunc TestGreet(t *testing.T) {\n\tif Greet(§x) == \"\" {\n\t\tt.Fatal(§fatal)\n\t}\n}\n")
			break
		}
		w("package a\n\nimport (\n\t\"testing\"\n\n\t\"" + rtmod14 + "/mock\"\n")
		imports := map[string]string{}
		for i, x := range refs14 {
			if use14<<(v%3*7)>>i&1 == 1 && !(noVar14 && strings.Contains(x.code, "&lib.")) {
				for _, n := range strings.Split(x.imports, ";") {
					imports[n] = "1"
				}
			}
		}
		if v%2 == 1 {
			imports["rt/trap"] = "1"
		}
		for x := range imports {
			if strings.Contains(x, "lib") {
				imports["lib"] = "1"
			}
		}
		for _, x := range sorted(imports) {
			n := ""
			if f := strings.Fields(x); len(f) > 1 {
				n, x = f[0]+" ", f[1]
			}
			if x == "lib" {
				x = lib14
			}
			if strings.HasPrefix(x, "rt/") {
				x = rtmod14 + x[2:]
			}
			w("\t" + n + strconv.Quote(x) + "\n")
		}
		w(")\n\nfunc TestGreet(t *testing.T) {\n\tmock.Patch(Greet, func(who string) string { return §greet })\n\tmock.Patch(&Count, func() int { return 7 })\n\tif Greet(§x) == \"\" {\n\t\tt.Fatal(§fatal)\n\t}\n}\n")
		if imports["lib"] != "" {
			w("\ntype svc struct {\n\tc *lib.Client\n\tlib.Conn\n}\n\nfunc newSvc() *svc { return nil }\n\nvar shared = lib.New()\n\nvar typed *lib.Client\n")
		}
		for i, x := range refs14 {
			if use14<<(v%3*7)>>i&1 == 1 && !(noVar14 && strings.Contains(x.code, "&lib.")) {
				w(fmt.Sprintf("\nfunc TestOther%d(t *testing.T) {\n\t%s\n}\n", i, strings.ReplaceAll(x.code, ", F)", ", func(a ...interface{}) string { return §other })")))
			}
		}
		if v%2 == 1 {
			w("\nfunc TestTrap(t *testing.T) {\n\ttrap.AddInterceptor(&trap.Interceptor{})\n\t_ = §trap\n}\n")
		}
	case "b/b.go":
		w("package b\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\t\"example.com/m/a\"\n)\n\nvar Sep, last = §sep, §last\n\nfunc Join(l []string) string {\n\ts := §join\n\tfor _, x := range l {\n\t\ts += x + Sep + last\n\t}\n\treturn s + fmt.Sprint(a.Count, os.Getenv(§env))\n}\n\ntype T int\n\nfunc (T) String() string { return §str }\n")
	case "b/b_linux.go":
		w("package b\n\nfunc Platform() string { return §linux }\n")
	case "b/b_windows.go":
		w("package b\n\nfunc Platform() string { return §windows }\n")
	case "b/foo.go":
		w("//go:build foo\n\npackage b\n\nfunc Foo() string { return §foo }\n")
	case "b/tool.go":
		w("//go:build ignore\n\npackage main\n\nfunc main() { println(§tool) }\n")
	case "b/b_test.go":
		w("package b_test\n\nimport (\n\t\"testing\"\n\n\t\"example.com/m/b\"\n)\n\nfunc helper() string { return §helper }\n\nfunc TestJoin(t *testing.T) {\n\tif b.Join([]string{helper()}) == \"\" {\n\t\tt.Error(§err)\n\t}\n}\n")
	case "internal/c/c.go":
		if old14 {
			w("package c\n\nimport \"example.com/old\"\n\nvar prefix = §prefix + old.Old\n\nfunc Tag(s string) string { return prefix + s + §tag + old.Do() }\n")
			break
		}
		if many14 > 0 {
			w("package c\n\nimport (\n")
			for i := 0; i < many14; i++ {
				w(fmt.Sprintf("\td%d \"example.com/d%d\"\n", i, i))
			}
			w(")\n\nvar prefix = §prefix\n\nfunc Tag(s string) string {\n")
			for i := 0; i < many14; i++ {
				w(fmt.Sprintf("\ts += d%d.D()\n", i))
			}
			w("\treturn prefix + s + §tag\n}\n")
			break
		}
		w("package c\n\nvar prefix = §prefix\n\nfunc Tag(s string) string { return prefix + s + §tag }\n")
	case "a/out_test.go":
		w("package a_test\n\nimport (\n\t\"testing\"\n\n\t\"example.com/m/a\"\n)\n\nfunc name() string { return §name }\n\nfunc TestOut(t *testing.T) {\n\tif a.Greet(name()) == §cmp {\n\t\tt.Error(§err)\n\t}\n}\n")
	case "t/only_test.go":
		w("package t\n\nimport \"testing\"\n\nfunc TestOnly(t *testing.T) { t.Log(§only) }\n")
	case "f/f.go":
		w("//go:build foo\n\npackage f\n\nimport \"example.com/m/b\"\n\nvar Name = §name\n\nfunc F() string { return b.Join(nil) + Name + §f }\n")
	default: // added files
		w("package " + path.Base(path.Dir(name)) + "\n\nfunc Added" + strings.TrimSuffix(path.Base(name), ".go") + "() string { return §added }\n")
	}
	s := b.String()
	switch v / 10 {
	case 1:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 2:
		s += "\nfunc broken( {\n"
	case 3: // too large for being instrumented
		s += "\n/*" + strings.Repeat("0123456789abcdef\n", 65536) + "*/\n"
	default: // the package clause
		i := strings.Index(s, "package ")
		j := i + strings.Index(s[i:], "\n")
		clause, rest := s[i:j], s[j:]
		switch v / 10 {
		case 4:
			clause = "// this package and package other\n/* package x\n*/\n" + clause
		case 5:
			clause += " // the end; of it"
		case 6: // line ends are mixed
			k := len(rest) * 2 / 3
			rest = rest[:k] + strings.ReplaceAll(rest[k:], "\n", "\r\n")
		case 7:
			rest = "; " + strings.TrimLeft(rest, "\n")
		case 8:
			clause = strings.Replace(clause, " ", " /*\n*/ ", 1) + " /* x */"
		}
		s = s[:i] + clause + rest
	case 0:
	}
	return s
}

var files14 = []string{"main.go", "a/a.go", "a/gen.go", "a/a_test.go", "a/out_test.go", "b/b.go", "b/b_linux.go", "b/b_windows.go", "b/foo.go", "b/tool.go", "b/b_test.go", "internal/c/c.go", "t/only_test.go", "f/f.go", "cmd/tool/main.go", "cmd/tool/help.go"}

// the project uses a replaced module
var old14 bool

// the number of further modules that are vendored
var many14 int

var libText14 = numbered("package lib\n\nimport \"example.com/lib/deep\"\n\nvar Name = \"L.lib.name.%d\"\n\ntype I interface{ M() string }\n\nfunc Version(s string) string { return s + Name + deep.D() + \"L.lib.version.%d\" }\n\nfunc inner() string { return \"L.lib.inner.%d\" }\n" +
	// more than are trapped without being named
	strings.Repeat("\nfunc (c Code) M§() int { return int(c) }\n", 17) + "\ntype Code int\n" +
	"\ntype Conn struct{ n int }\n\nfunc (c Conn) Close() error { return nil }\n\ntype Client struct {\n\tIn    *Conn\n\tNamed Conn\n\tnext  *Client\n}\n\nfunc (c *Client) Send(s string) string { return s }\n\nfunc (c *Client) Recv() string { return c.Send(\"x\") }\n\nfunc (c *Client) close() {}\n\nfunc New() *Client { return nil }\n\nfunc Make() Conn { return Conn{} }\n\ntype Wrap struct{ *Client }\n\nvar Default = New()\n\nvar Direct = Client{}\n\ntype Gen[T any] struct{ v T }\n\nfunc (g Gen[T]) Hi(x T) T { return x }\n\nfunc Id[T any](x T) T { return x }\n\nvar typed *Client\n")

// numbered replaces each mark by a number.
func numbered(s string) string {
	for i := 0; strings.Contains(s, "§"); i++ {
		s = strings.Replace(s, "§", fmt.Sprint(i), 1)
	}
	return s
}

// what tests can name in calls of mock.Patch
type ref14 struct{ imports, code, file, fn string }

var refs14 = []ref14{
	{"lib", "mock.Patch(lib.Version, F)", "lib", "Version"},
	{"lib", "mock.Mock(lib.New, F)", "lib", "New"},
	{"lib", "mock.Patch((*lib.Client).Send, F)", "lib", "Send"},
	{"lib", "mock.Patch(lib.Conn.Close, F)", "lib", "Close"},
	{"lib", "c := lib.New()\n\tmock.Patch(c.Send, F)", "lib", "Send"},
	{"lib", "c := lib.New()\n\tmock.Patch(c.Recv, F)", "lib", "Recv"},
	{"lib", "mock.Patch((*lib.Client).Recv, F)", "lib", "Recv"},
	{"lib", "w := &svc{}\n\tmock.Mock(w.c.In.Close, F)\n\tmock.Mock(w.c.Recv, F)", "lib", "Close  Recv"},
	{"lib", "c := &lib.Client{}\n\tmock.Patch(c.Send, F)", "lib", "Send"},
	{"lib", "c := lib.Client{}\n\tmock.Patch(c.Send, F)", "lib", "Send"},
	{"lib", "c := lib.New()\n\tfor {\n\t\tc := c.Next()\n\t\tmock.Patch(c.Send, F)\n\t}", "lib", ""},
	{"lib", "c, err := lib.Open()\n\tmock.Patch(c.Send, F)\n\t_ = err", "lib", ""},
	{"lib", "c := c\n\tmock.Patch(c.Send, F)", "lib", ""},
	{"lib", "c := lib.New()\n\t{\n\t\tc, d := c.Conn(c), c\n\t\tmock.Patch(c.Close, F)\n\t\tmock.Patch(d.Send, F)\n\t}", "lib", ""},
	{"lib", "c := func() *lib.Client { return nil }()\n\tmock.Patch(c.Send, F)\n\tmock.Patch(lib.Nothing, F)", "lib", ""},
	{"lib", "c := []*lib.Client{nil}\n\tmock.Patch(c[0].Send, F)\n\tm := map[string]lib.Conn{}\n\tmock.Patch(m[§key].Close, F)", "lib", ""},
	{"lib", "var i interface{} = lib.New()\n\tmock.Patch(i.(*lib.Client).Send, F)", "lib", ""},
	{"lib", "mock.Patch(lib.I.M, F)\n\tmock.Patch((lib.New().Send), F)", "lib", ""},
	{"lib", "mock.Patch(newSvc().c.Send, F)\n\tmock.Patch(lib.New().In.Close, F)", "lib", ""},
	{"lib", "c := new(lib.Client)\n\tmock.Patch(c.Send, F)\n\td := *c\n\tmock.Patch(d.Send, F)", "lib", ""},
	{"lib", "c := &lib.Client{}\n\tmock.Patch(c.Named.Close, F)", "lib", "Close"},
	{"lib", "c := lib.New()\n\tmock.Patch(c.In.Close, F)", "lib", "Close"},
	{"lib", "w := lib.Wrap{}\n\tmock.Patch(w.Send, F)", "lib", "Send"},
	{"lib", "w := &lib.Wrap{}\n\tmock.Patch(w.Client.Send, F)", "lib", "Send"},
	{"lib", "mock.Patch(lib.Default.Send, F)", "lib", "Send"},
	{"lib", "mock.Patch(lib.Direct.Named.Close, F)", "lib", "Close"},
	{"lib", "s := svc{}\n\tmock.Patch(s.c.Send, F)", "lib", "Send"},
	{"lib", "s := &svc{}\n\tmock.Patch(s.Conn.Close, F)", "lib", "Close"},
	{"lib", "s := newSvc()\n\tmock.Patch(s.Close, F)", "lib", "Close"},
	{"lib", "mock.Patch(shared.Send, F)", "lib", "Send"},
	{"lib", "mock.Patch(typed.Send, F)", "lib", "Send"},
	{"lib", "mock.Patch(lib.Id[string], F)", "lib", "Id"},
	{"lib", "g := lib.Gen[string]{}\n\tmock.Patch(g.Hi, F)", "lib", "Hi"},
	{"l lib", "mock.Patch(l.Make, F)", "lib", "Make"},
	{"l lib", "c := l.New()\n\tif c != nil {\n\t\tmock.Patch(c.Send, F)\n\t}", "lib", "Send"},
	{"l lib", "c := &l.Client{}\n\tfunc() {\n\t\tmock.Patch(c.Send, F)\n\t}()", "lib", "Send"},
	{"l lib", "c := l.New()\n\tt.Run(§run, func(t *testing.T) {\n\t\tmock.Patch(c.Send, F)\n\t})", "lib", "Send"},
	{"lib;rt/trap", "trap.AddFuncInterceptor(lib.New, F)", "lib", "New"},
	{"lib;rt/trap", "c := lib.New()\n\ttrap.AddFuncInterceptor(c.Send, F)", "lib", "Send"},
	{"lib;rt/trap", "trap.MarkIntercept(lib.Make, F)", "lib", "Make"},
	{"lib;rt/trace", "trace.Record(lib.Conn.Close, F)", "lib", "Close"},
	{"l lib;tr rt/trace", "tr.RecordCall(l.Make, F)\n\tif cleanup := tr.RecordResult(l.New, F); cleanup != nil {\n\t\tcleanup()\n\t}", "lib", "Make  New"},
	{"lib;rt/functab", "_ = functab.InfoFunc(lib.Version)", "lib", "Version"},
	{"lib", "defer mock.Patch(lib.New, F)()", "lib", "New"},
	{"lib", "undo := mock.Patch(lib.Make, F)\n\tundo()", "lib", "Make"},
	{"lib", "fs := []func(){mock.Patch(lib.Make, F), nil}\n\tfs[0]()", "lib", "Make"},
	{"lib", "go func(s string) {\n\t\tselect {\n\t\tdefault:\n\t\t\tmock.Patch(lib.Version, F)\n\t\t}\n\t}(§go)", "lib", "Version"},
	{"lib", "mock.Patch(&lib.Name, F)", "lib", ""},
	{"lib", "mock.Patch(&lib.Default, F)\n\tlib.Default.Send(§send)\n\t_ = lib.Name", "lib", ""},
	{"lib", "mock.Patch(&shared, F)\n\tshared.Send(§send)", "lib", ""},
	{"example.com/m/b", "mock.Patch(&b.Sep, F)\n\t_ = b.Sep", "lib", ""},
	{"os", "mock.Patch(os.ReadFile, F)", "os", "ReadFile"},
	{"os", "for i := 0; i < 2; i++ {\n\t\tmock.Patch(os.Remove, F)\n\t}", "os", "Remove"},
	{"net/http", "mock.Patch((*http.Client).Do, F)", "net/http", "Do"},
	{"net/http", "c := &http.Client{}\n\tmock.Patch(c.Do, F)", "net/http", "Do"},
	{"net/http", "switch {\n\tcase true:\n\t\tmock.Patch(http.Get, F)\n\t}", "net/http", "Get"},
}

// those of the current plan
var use14 uint64

// go refuses to replace files of the module cache
var noVar14 bool

func gen14(r *rng, p *Plan) {
	p.Opt["go"] = int64(23 + r.n(5))
	p.Opt["rt"] = int64([]int{0, 0, 0, 1, 1, 2, 2, 3, 4, 5}[r.n(10)])
	p.Opt["git"] = int64(r.n(3))
	p.Opt["cpus"] = int64(1 + r.n(6))
	vendor := p.Opt["rt"] == 1 || p.Opt["rt"] == 2 && r.p(30)
	if vendor {
		p.Opt["vendor"] = 1
	}
	if r.p(40) {
		p.Opt["old"] = int64(1 + r.n(3))
	}
	if r.p(12) {
		p.Opt["go13"] = 1
	}
	if r.p(60) {
		for n := 1 + r.n(4); n > 0; n-- {
			p.Opt["refs"] |= 1 << r.n(len(refs14))
		}
	}
	if vendor && r.p(10) {
		p.Opt["many"] = int64(30 + r.n(90))
	}
	n := 2 + r.n(4)
	edits := func() {
		switch r.n(9) {
		case 0, 1, 2:
			f := files14[r.n(len(files14))]
			v := 1 + r.n(8)
			if r.p(25) {
				v += 10 * []int{1, 2, 4, 5, 6, 7, 8}[r.n(7)]
			} else if r.p(4) {
				v += 30
			}
			p.Main = append(p.Main, &Op{K: "edit", N: f, I: v})
		case 3:
			p.Main = append(p.Main, &Op{K: "edit", N: r.pick("a/", "b/", "internal/c/") + r.pick("x1.go", "x2.go"), I: r.n(9)})
		case 4:
			p.Main = append(p.Main, &Op{K: "remove", N: r.pick("a/x1.go", "a/x2.go", "b/x1.go", "a/gen.go", "b/b_linux.go", "a/a_test.go", "a/out_test.go", "b/b_test.go")})
		case 5:
			p.Main = append(p.Main, &Op{K: "older", I: r.n(4)})
		case 6:
			p.Main = append(p.Main, &Op{K: "lib", I: r.n(2)})
		case 7:
			p.Main = append(p.Main, &Op{K: "overlay", I: r.n(128)})
		case 8:
			p.Main = append(p.Main, &Op{K: "gone", N: r.pick("gen/modules", "gen/overlay", "gen", "gen/go.mod", "gen/overlay.json")})
		}
	}
	if r.p(20) {
		p.Main = append(p.Main, &Op{K: "overlay", I: r.n(128)})
	}
	for i := 0; i < n; i++ {
		o := &Op{K: "run", L: i, I: 0}
		if r.p(25) {
			o.I = 1 + r.n(2)
		}
		var x, g []string
		cmd := r.pick("test", "test", "test", "test", "build", "run")
		// options of the tool
		for r.p(45) {
			switch r.n(10) {
			case 0, 1:
				x = append(x, r.pick("--strace", "--strace=on", "--strace=off", "--stack-trace", "--strace=true", "--stack-trace=on", "--strace=false"))
			case 2:
				x = append(x, strings.Fields(r.pick("--strace --strace-dir /work/tr", "--strace --strace-dir /work/tr2", "--strace --strace-dir=/work/tr", "--strace --stack-trace-dir /work/tr2", "--strace-dir=tr"))...)
			case 3:
				x = append(x, r.pick("--xgo-race-safe", "--xgo-race-safe", "--xgo-race-safe=true", "--xgo-race-safe=on", "--xgo-race-safe=1", "--xgo-race-safe=false", "--xgo-race-safe=off", "--xgo-race-safe=0"))
			case 4:
				x = append(x, "--trap-stdlib")
			case 5:
				x = append(x, r.pick("--trap-all", "--trap-all=false"))
			case 6:
				x = append(x, "--trap", r.pick(lib14, lib14+"/deep", lib14+"/...", "net/http"))
			case 7:
				x = append(x, "--mock-rule-include-as-main-module="+lib14)
				if r.p(50) {
					x = append(x, r.pick(`--mock-rule={"pkg":"example.com/lib","action":"include"}`, `--mock-rule={"main_module":true,"kind":"func","action":"exclude"}`))
				}
			case 8:
				x = append(x, "--no-line-directive")
			case 9:
				x = append(x, "-a")
			}
		}
		// and those of go
		for r.p(35) {
			switch r.n(9) {
			case 7:
				if cmd == "test" {
					g = append(g, strings.Fields(r.pick("-short", "-failfast", "-benchmem", "-timeout 10s", "-timeout=10s", "-parallel 4", "-bench .", "-json", "-vet=off", "-coverpkg ./...", "-covermode=atomic", "-cover", "--cover", "--coverprofile /work/cover.out", "-cpu 1,2", "-shuffle on", "-c -o out.test", "-c", "-o out.test", "-run=X", "--run X", "--count=1", "-skip X"))...)
				}
			case 8:
				g = append(g, strings.Fields(r.pick("-trimpath", "-ldflags=-s", "-gcflags=all=-l", "-gcflags all=-m", "-p 4", "-work", "-x", "-asmflags=x", "-buildvcs=false", "-msan", "-modcacherw", "-linkshared", "-n"))...)
			case 0:
				g = append(g, "-v")
			case 1:
				if cmd == "test" {
					g = append(g, r.pick("-count=1", "-cover", "-coverprofile=/work/cover.out"))
				}
			case 2:
				g = append(g, "-race")
			case 3:
				if vendor {
					g = append(g, r.pick("-mod=vendor", "-mod=mod", "-mod=readonly"))
				} else {
					g = append(g, "-mod=mod")
				}
			case 4:
				if cmd == "test" {
					g = append(g, "-run", "Test")
				}
			case 5:
				g = append(g, strings.Fields(r.pick("-tags foo", "-tags foo,bar", "-tags=bar,foo", "-tags bar", "--tags foo"))...)
			case 6:
				if !vendor {
					g = append(g, "-modfile", "/work/alt.mod")
				}
			}
		}
		if r.p(30) {
			g = append(g, "-overlay", r.pick("/work/ov.json", "/work/ov.json", "../ov.json"))
		}
		sub := r.p(15)
		switch {
		case cmd == "run":
			g = append(g, strings.Fields(r.pick(".", "./", "main.go", "./cmd/tool", "example.com/m/cmd/tool", "cmd/tool/main.go cmd/tool/help.go"))...)
			if r.p(40) {
				g = append(g, r.pick("arg1", "-flag", "-v"), r.pick("arg2", "-x", "."))
			}
			sub = false
		case cmd == "build":
			if r.p(70) {
				g = append(g, "-o", r.pick("/work/out/bin", "out.bin"))
			}
			if r.p(10) {
				x = append(x, "--no-build-output")
			}
			g = append(g, r.pick(".", "./...", "./a", "example.com/m", "./a ./b", "./f ./over9", "./cmd/tool", "./cmd/..."))
		default:
			g = append(g, r.pick("./...", "./...", "./a", "./b", "example.com/m/a", "example.com/m/...", "./cmd/tool", "./cmd/... ./a", "./a ./b ./internal/c", "./t", ".", "./f", "./over9", "./f ./over9 ./b"))
			if r.p(30) { // packages first
				pk := strings.Fields(g[len(g)-1])
				g = append(pk, g[:len(g)-1]...)
			}
			if r.p(15) {
				g = append(g, "-args", "p1", "-x")
			}
		}
		if sub {
			for j := range g {
				if strings.HasPrefix(g[j], "./") || g[j] == "." {
					g[j] = r.pick(".", "./...", "../b", "../...")
				}
				if g[j] == "../ov.json" {
					g[j] = "../../ov.json"
				}
			}
			o.H = r.pick("a", "b")
		}
		switch r.n(12) {
		case 0: // from elsewhere
			o.T = 1
		case 1:
			o.T = 2
		}
		if r.p(20) {
			o.E = r.pick("-mod=mod", "-mod=readonly", "-tags=foo", "-modfile=/work/alt.mod", "-overlay=/work/ov.json", "-v", "-count=1", "-trimpath")
			if vendor {
				o.E = r.pick("-mod=mod", "-mod=readonly", "-mod=vendor", "-tags=foo", "-overlay=/work/ov.json")
			}
		}
		o.S = cmd + " " + strings.Join(g, " ")
		mode := ""
		if vendor && p.Opt["go13"] == 0 {
			mode = "vendor"
		}
		for _, a := range append([]string{o.E}, g...) {
			if strings.HasPrefix(a, "-mod=") {
				mode = a[5:]
			}
		}
		if mode != "vendor" && p.Opt["go"] >= 25 {
			// go refuses to replace files of the module cache
			var y []string
			for _, a := range x {
				if !strings.HasPrefix(a, "--mock-rule-include") {
					y = append(y, a)
				}
			}
			x = y
		}
		o.N = strings.Join(x, " ")
		if r.p(15) {
			o.F = 1 // from the environment
		}
		p.Main = append(p.Main, o)
		if r.p(55) {
			m := 1 + r.n(2)
			for j := 0; j < m; j++ {
				f := r.fault(i, []string{"crash", "crash", "crash", "crashafter", "torn", "err", "short", "late", "fail"},
					[]string{"", "mut", "mut", "mut", "write", "close", "create", "mkdir", "rename", "remove", "exec"}, 2500)
				if f.S == "" && f.K != "crash" && f.K != "crashafter" {
					f.S = "mut"
				}
				if f.S == "exec" || f.S == "rename" {
					f.A %= 16
				} else if f.S != "" && r.p(60) {
					f.A %= 180
				}
				p.Faults = append(p.Faults, f)
			}
		}
		for r.p(40) {
			edits()
		}
	}
}

var literals14 = map[string][]string{}

// literals are the literals of a file that tell its version.
func literals(content string) []string {
	if l, ok := literals14[content]; ok {
		return l
	}
	var l []string
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", -1, len(content)), []byte(content), nil, 0)
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.STRING && strings.HasPrefix(lit, `"L.`) {
			l = append(l, lit)
		}
	}
	if len(literals14) > 4000 {
		literals14 = map[string][]string{}
	}
	literals14[content] = l
	return l
}

var session14 = regexp.MustCompile(`/tmp/(test|build|run|exec)[0-9]+`)

func run14(p *Plan) {
	minor := int(p.Opt["go"])
	version := fmt.Sprintf("go1.%d.3", minor)
	root := "/ti/" + version
	rt := int(p.Opt["rt"])
	sys.CPUs = int(p.Opt["cpus"])
	put := func(f, s string) { sys.Put(f, []byte(s), 0644) }
	// an instrumented toolchain
	put("/ti/xgo-revision.txt", xgomain.CoreRevision())
	put("/ti/full-sync-record.txt", "x")
	sys.Put(root+"/bin/go", binary("go", version), 0755)
	put(root+"/VERSION", version+"\n")
	for x := range std14 {
		s := stdText14[x]
		if s == "" {
			s = "package " + path.Base(x) + "\n"
		}
		put(root+"/src/"+x+"/"+path.Base(x)+".go", s)
	}
	sys.MkdirAll("/home/u", 0755)
	sys.MkdirAll("/tmp", 0755)
	sys.MkdirAll("/work/out", 0755)
	sys.MkdirAll("/work/elsewhere", 0755)
	sys.MkdirAll("/usr/bin", 0755)
	// the modules
	vendor := p.Opt["vendor"] == 1
	rtVersion := "1.2.2"
	if rt == 4 {
		rtVersion = "1.1.5"
	} else if rt == 5 {
		rtVersion = "1.0.52"
	}
	uses := rt != 2
	lib := func(dir string, v int) {
		put(dir+"/lib.go", fmt.Sprintf(libText14, v, v, v))
		put(dir+"/deep/deep.go", fmt.Sprintf("package deep\n\nfunc D() string { return \"L.deep.%d\" }\n", v))
		if !strings.HasPrefix(dir, proj14) {
			put(dir+"/go.mod", "module example.com/lib\n\ngo 1.18\n")
		}
	}
	libs := [2]string{"v1.2.0", "v1.3.0"}
	old14 = p.Opt["old"] > 0
	use14 = uint64(p.Opt["refs"])
	sums14 = map[string]string{}
	noVar14 = p.Opt["go"] >= 25
	many14 = int(p.Opt["many"])
	for i := 0; i < many14; i++ {
		put(fmt.Sprintf("%s/vendor/example.com/d%d/d.go", proj14, i), fmt.Sprintf("package d%d\n\nfunc D() string { return \"L.d%d\" }\n", i, i))
		put(fmt.Sprintf("%s/example.com/d%d@v1.0.0/d.go", cache14, i), fmt.Sprintf("package d%d\n\nfunc D() string { return \"L.cached.d%d\" }\n", i, i))
	}
	oldTo := ""
	oldDir := ""
	switch p.Opt["old"] {
	case 1:
		oldTo, oldDir = "example.com/fork v1.1.0", cache14+"/example.com/fork@v1.1.0"
	case 2:
		oldTo, oldDir = "/work/fork", "/work/fork"
	case 3:
		oldTo, oldDir = "../fork", "/work/fork"
	}
	if old14 {
		put(oldDir+"/old.go", "package old\n\nvar Old = \"L.old.old\"\n\nfunc Do() string { return \"L.old.do\" }\n")
		put(oldDir+"/go.mod", "module example.com/fork\n")
		if vendor {
			put(proj14+"/vendor/example.com/old/old.go", "package old\n\nvar Old = \"L.old.vend\"\n\nfunc Do() string { return \"L.old.dov\" }\n")
		}
	}
	lib(cache14+"/"+lib14+"@v1.2.0", 120)
	lib(cache14+"/"+lib14+"@v1.3.0", 130)
	rtDir := map[int]string{0: cache14 + "/" + rtmod14 + "@v" + rtVersion, 1: proj14 + "/vendor/" + rtmod14, 3: "/work/xruntime"}[rt]
	if rt == 4 || rt == 5 {
		rtDir = cache14 + "/" + rtmod14 + "@v" + rtVersion
	}
	if uses {
		for n, s := range runtime14 {
			if rt == 1 && n == "go.mod" {
				put(cache14+"/"+rtmod14+"@v"+rtVersion+"/"+n, s)
				continue
			}
			if n == "core/version.go" && rtVersion != "1.2.2" {
				s = regexp.MustCompile(`const VERSION = .*`).ReplaceAllString(s, `const VERSION = "`+rtVersion+`"`)
				s = regexp.MustCompile(`const NUMBER = .*`).ReplaceAllString(s, `const NUMBER = 400`)
			}
			put(rtDir+"/"+n, s)
			if rt == 1 {
				put(cache14+"/"+rtmod14+"@v"+rtVersion+"/"+n, s)
			}
		}
	}
	language := "1.18"
	if p.Opt["go13"] == 1 {
		language = "1.13"
	}
	goMod := func(libv string) string {
		s := "module example.com/m\n\ngo " + language + "\n\nrequire example.com/lib " + libv + "\n"
		if uses {
			s += "require " + rtmod14 + " v" + rtVersion + "\n"
		}
		if rt == 3 {
			s += "replace " + rtmod14 + " => ../xruntime\n"
		}
		for i := 0; i < many14; i++ {
			s += fmt.Sprintf("require example.com/d%d v1.0.0\n", i)
		}
		if old14 {
			s += "\nrequire (\n\texample.com/old v1.0.0\n)\n\nreplace example.com/old => " + oldTo + "\n"
		}
		return s
	}
	setLib := func(i int) {
		put(proj14+"/go.mod", goMod(libs[i]))
		put("/work/alt.mod", goMod(libs[1-i]))
		if !vendor {
			return
		}
		lib(proj14+"/vendor/"+lib14, 125+10*i)
		s := "# " + lib14 + " " + libs[i] + "\n## explicit; go 1.18\n" + lib14 + "\n" + lib14 + "/deep\n"
		if uses {
			s += "# " + rtmod14 + " v" + rtVersion + "\n## explicit; go 1.14\n"
			dirs := map[string]bool{}
			for n := range runtime14 {
				if strings.HasSuffix(n, ".go") {
					dirs[path.Dir(n)] = true
				}
			}
			var l []string
			for d := range dirs {
				l = append(l, d)
			}
			sort.Strings(l)
			for _, d := range l {
				s += rtmod14 + "/" + d + "\n"
			}
		}
		if old14 {
			s += "# example.com/old v1.0.0 => " + oldTo + "\n## explicit; go 1.18\nexample.com/old\n"
		}
		for i := 0; i < many14; i++ {
			s += fmt.Sprintf("# example.com/d%d v1.0.0\n## explicit; go 1.18\nexample.com/d%d\n", i, i)
		}
		if old14 {
			s += "# example.com/old => " + oldTo + "\n"
		}
		put(proj14+"/vendor/modules.txt", s)
	}
	setLib(0)
	sums := "example.com/lib v1.2.0 h1:x\nexample.com/lib v1.3.0 h1:y\nexample.com/fork v1.1.0 h1:z\n" + rtmod14 + " v" + rtVersion + " h1:w\n"
	put(proj14+"/go.sum", sums)
	put("/work/alt.sum", sums)
	for _, f := range files14 {
		put(proj14+"/"+f, text14(f, 0, uses))
	}
	put(proj14+"/README", "L.readme\n")
	top := ""
	switch p.Opt["git"] {
	case 1:
		top = proj14
		put(top+"/.gitignore", "*.o") // no newline at the end
	case 2:
		top = "/work"
	}
	over := 0
	setOverlay := func(i int, dir string) {
		over = i
		m := []string{}
		// relative names are taken from where go runs
		rel := func(f string) string {
			r, err := filepath.Rel(dir, f)
			if err != nil {
				panic(err)
			}
			return r
		}
		add := func(from, to string) {
			if i&1 != 0 {
				to = rel(to)
			}
			if i&2 != 0 {
				from = rel(from)
			}
			m = append(m, fmt.Sprintf("%q:%q", from, to))
		}
		put(overDir14+"/a.go", strings.ReplaceAll(text14("a/a.go", i%9, uses), "L.a/a.go", "L.over.a"))
		put(overDir14+"/x9.go", strings.ReplaceAll(text14("b/x9.go", i%9, uses), "L.b", "L.over.b"))
		add(proj14+"/a/a.go", overDir14+"/a.go")
		if i&4 != 0 {
			add(proj14+"/b/x9.go", overDir14+"/x9.go")
		}
		if i&8 != 0 {
			m = append(m, fmt.Sprintf("%q:%q", proj14+"/b/b_linux.go", ""))
		}
		if i&16 != 0 {
			put(overDir14+"/main.go", strings.ReplaceAll(text14("main.go", i%9, uses), "L.main", "L.over.main"))
			add(proj14+"/main.go", overDir14+"/main.go")
		}
		if i&64 != 0 {
			put(overDir14+"/o9.go", strings.ReplaceAll(text14("over9/o9.go", i%9, uses), "L.over9", "L.over.over9"))
			add(proj14+"/over9/o9.go", overDir14+"/o9.go")
		}
		put("/work/ov.json", `{"Replace":{`+strings.Join(m, ",")+"}}")
	}
	setOverlay(0, proj14)

	g := &goTool{root: root, version: version, minor: minor, cache: cache14}
	var last *goBuild
	exit := 0
	g.built = func(c *sys.Call, b *goBuild) int {
		last = b
		in := ""
		if b.cmd == "run" && c.Stdin != nil { // the program reads it
			t, _ := io.ReadAll(c.Stdin)
			in = string(t)
		}
		c.Out("go says %s%s\n", digest(listing(b.files)), in)
		c.Errf("go warns\n")
		return exit
	}
	sys.Commands["go"] = g.command
	sys.Commands["git"] = func(c *sys.Call) int {
		if top == "" {
			c.Errf("fatal: not a git repository\n")
			return 128
		}
		c.Out("%s\n", top)
		return 0
	}
	out := ""
	watch := func(q *sys.Proc, kind, name string) {
		switch kind {
		case "create", "write", "remove", "rename", "symlink", "mkdir", "truncate", "chmod":
		default:
			return
		}
		if q.IsDriver() {
			return
		}
		if !strings.HasPrefix(name, "/") {
			name = path.Join(q.Cwd, name)
		}
		for _, d := range []string{proj14 + "/.xgo", "/tmp", "/home/u/.xgo"} {
			if name == d || strings.HasPrefix(name, d+"/") {
				return
			}
		}
		if kind == "mkdir" {
			if _, err := sys.Stat_(name); err == nil {
				return
			}
			if name == "/ti/pkgdata" {
				return
			}
		}
		if name == out || strings.HasPrefix(name, top+"/.gitignore") && top != "" || name == "/ti/xgo-revision.txt" {
			return
		}
		viol("original", "%s %s: not a file of the tool", kind, name)
	}
	args := func(o *Op) (all []string, dir, cwd string) {
		f := strings.Fields(o.S)
		all = append(all, f[0])
		all = append(all, "--with-goroot", root)
		dir = path.Join(proj14, o.H)
		cwd = dir
		switch o.T {
		case 1:
			cwd = "/work/elsewhere"
			all = append(all, "--project-dir", dir)
		case 2:
			cwd = "/work"
			all = append(all, "--project-dir="+strings.TrimPrefix(dir, "/work/"))
		}
		if o.F == 0 {
			all = append(all, strings.Fields(o.N)...)
		}
		return append(all, f[1:]...), dir, cwd
	}
	base := []string{"HOME=/home/u", "PATH=" + root + "/bin:/usr/bin", "GOPATH=/home/u/go", "GOMODCACHE=" + cache14}
	environ := func(o *Op) []string {
		e := base[:len(base):len(base)]
		if o.E != "" {
			e = append(e, "GOFLAGS="+o.E)
		}
		if o.F == 1 {
			e = append(e, "XGO_FLAGS="+strings.ReplaceAll(o.N, " ", "  "))
		}
		return e
	}
	run := func(o *Op) (*sys.Proc, *goBuild) {
		env := environ(o)
		a, dir, cwd := args(o)
		out = outOf(o, cwd)
		_ = dir
		last, exit = nil, o.I
		sys.RestoreGlobals()
		sys.OnOp = watch
		pr := sys.Start("xgo", cwd, env, func() int {
			simos.Args = append([]string{"/usr/bin/xgo"}, a...)
			simos.Stdin = sys.PipeFile("/dev/stdin", strings.NewReader(stdin14), nil)
			xgomain.Main()
			return 0
		})
		pr.Wait()
		sys.OnOp = nil
		if pr.Panic != "" && len(sys.Faults) == 0 {
			viol("panic", "xgo %s: panic: %s", strings.Join(a, " "), pr.Panic)
		}
		if out != "" {
			sys.RemoveAll(out)
		}
		return pr, last
	}
	// plain is what go by itself sees
	plain := func(o *Op) (*goBuild, string) {
		_, dir, _ := args(o)
		env := environ(o)
		var e strings.Builder
		last, exit = nil, 0
		var fl []string
		for _, x := range strings.Fields(o.S) {
			if strings.HasPrefix(x, "out") && fl[len(fl)-1] == "-o" {
				x = "/work/out/x"
			}
			fl = append(fl, x)
		}
		pr := sys.Start("go", dir, env, func() int {
			return g.command(&sys.Call{Path: root + "/bin/go", Args: append([]string{"go"}, fl...), Dir: dir, Env: env, Stderr: &e})
		})
		pr.Wait()
		sys.RemoveAll("/work/out")
		sys.MkdirAll("/work/out", 0755)
		return last, e.String()
	}
	norm := func(b *goBuild) map[string]string {
		m := map[string]string{}
		if b == nil {
			return m
		}
		for k, v := range b.files {
			m["file "+k] = v
		}
		m["args"] = session14.ReplaceAllString(strings.Join(b.args, " "), "/tmp/$1")
		for i, e := range b.env {
			m[fmt.Sprintf("env %d", i)] = session14.ReplaceAllString(e, "/tmp/$1")
		}
		m["extra"] = b.extra
		return m
	}
	// scratch runs o as if for the first time
	nfresh := uint64(0)
	scratch := func(o *Op) (*sys.Proc, *goBuild) {
		keep := []string{proj14 + "/.xgo", "/tmp/xgo", proj14 + "/" + o.H + "/.xgo"}
		for i, d := range keep {
			sys.Rename(d, fmt.Sprintf("/aside%d", i))
		}
		nfresh++
		salt := sys.Salt
		sys.Salt ^= nfresh * 0x5851f42d4c957f2d
		pr, b := run(o)
		sys.Salt = salt
		for i, d := range keep {
			sys.RemoveAll(d)
			sys.Rename(fmt.Sprintf("/aside%d", i), d)
		}
		return pr, b
	}
	setFaults(p)
	index := map[int]int{}
	_ = index
	byRun := map[int][]*sys.Fault{}
	for _, f := range sys.Faults {
		byRun[f.Proc] = append(byRun[f.Proc], f)
	}
	sys.Faults = nil
	nproc := func() int { return sys.NumProcs() }

	contents := func() map[string]string {
		m := map[string]string{}
		for _, d := range []string{"/work", "/home/u/go", "/ti"} {
			for k, v := range sys.Tree(d) {
				n := d + "/" + k
				if strings.Contains(n, "/.xgo/") || strings.HasPrefix(n, "/ti/pkgdata") {
					continue
				}
				m[n] = v
			}
		}
		return m
	}
	check := func(when string, o *Op, pr *sys.Proc, b *goBuild, calm bool) {
		a, dir, cwd := args(o)
		cmd := "xgo " + strings.Join(a, " ") + " in " + dir + when
		if o.F == 1 {
			cmd = "XGO_FLAGS=" + o.N + " " + cmd
		}
		if o.E != "" {
			cmd = "GOFLAGS=" + o.E + " " + cmd
		}
		if b == nil {
			if !calm {
				return
			}
		}
		want, msg := plain(o)
		if want == nil {
			// go itself cannot build it
			stat("unbuildable")
			if pr.Code == 0 {
				viol("exit", "%s: succeeded, and go fails: %s", cmd, msg)
			}
			return
		}
		if b == nil {
			print(pr.Out.String())
			viol("build", "%s: nothing was built, and go alone builds it: %s", cmd, tail(pr.Out.String()))
		}
		if pr.Code != o.I && (calm || pr.Code == 0) {
			viol("exit", "%s: exit status %d, and go ended with %d: %s", cmd, pr.Code, o.I, tail(pr.Out.String()))
		}
		in := ""
		if b.cmd == "run" {
			in = stdin14
		}
		if s := "go says " + digest(listing(b.files)) + in + "\n"; pr.Stdout.String() != s && calm {
			viol("output", "%s: printed %q, and go printed %q", cmd, pr.Stdout.String(), s)
		}
		if f := outOf(o, cwd); f != "" && !strings.Contains(o.N, "--no-build-output") && b.out != f {
			viol("arguments", "%s: -o is %q, and %q was given", cmd, b.out, f)
		}
		if s := b.handed(want); s != "" {
			viol("arguments", "%s: %s", cmd, s)
		}
		for _, k := range sorted(want.files) {
			got, ok := b.files[k]
			if !ok {
				viol("content", "%s: %s is not part of what is built", cmd, k)
			}
			w := literals(want.files[k])
			if h := literals(got); strings.Join(w, " ") != strings.Join(h, " ") {
				viol("content", "%s: %s has %v, and in what is built %v", cmd, k, w, h)
			}
		}
		for _, k := range sorted(want.files) {
			if m := moved(b.files[k], want.files[k], path.Base(k)); m != "" {
				viol("lines", "%s: a literal of %s, %s", cmd, k, m)
			}
		}
		if !calm {
			return // the tool may go on without what only helps
		}
		if strings.HasPrefix(o.S, "test") && (strings.Contains(o.S+" ", " -cover") || strings.Contains(o.S+" ", " --cover")) {
			for _, k := range sorted(want.files) {
				if strings.HasPrefix(k, "example.com/m/") && strings.Contains(b.files[k], "__xgo_post_") {
					stat("cover")
					if s := uncovered(b.files[k], want.files[k]); s != "" {
						viol("cover", "%s: %s: %s", cmd, k, s)
					}
				}
			}
		}
		trace, safe, trdir := false, false, ""
		for _, x := range strings.Fields(o.N) {
			switch k, v, _ := strings.Cut(x, "="); k {
			case "--strace", "--stack-trace":
				trace = v != "off" && v != "false"
			case "--xgo-race-safe":
				safe = v != "off" && v != "false" && v != "0"
			case "--strace-dir", "--stack-trace-dir":
				trdir = v
			default:
				if strings.HasPrefix(x, "/") || x == "tr" {
					trdir = x
				}
			}
		}
		if s, ok := b.files[rtmod14+"/internal/flags/flags.go"]; ok {
			test := trace && o.S[:4] == "test"
			if !test {
				trdir = ""
			}
			stat("flags")
			for k, v := range map[string]string{"COLLECT_TEST_TRACE": fmt.Sprint(test), "COLLECT_TEST_TRACE_DIR": strconv.Quote(trdir), "XGO_RACE_SAFE": fmt.Sprint(safe)} {
				if !strings.Contains(s, "\nconst "+k+" = "+v+"\n") {
					viol("flags", "%s: %s is not %s in the runtime that is built", cmd, k, v)
				}
			}
		}
		if trace {
			stat("trace")
			for _, r := range want.roots {
				has := true
				for k := range want.files {
					if path.Dir(k) == r {
						has = false
					}
				}
				for k, s := range b.files {
					if path.Dir(k) == r {
						for _, x := range parsed(s).imports {
							has = has || x == rtmod14+"/trace"
						}
					}
				}
				if !has {
					viol("trace", "%s: the tests of %s are not traced: %s", cmd, r, tail(pr.Out.String()))
				}
			}
		}
		// what is used of the standard library's hooks must be there
		for _, k := range sorted(b.files) {
			if path.Dir(k) == "runtime" || path.Dir(k) == "time" {
				continue
			}
			for _, x := range hooks14(b.files[k]).uses {
				has := false
				for d, s := range b.files {
					if path.Dir(d) == path.Dir(x) && strings.Contains(s, "Xgo") {
						for _, y := range hooks14(s).decls {
							has = has || y == path.Base(x)
						}
					}
				}
				if !has && path.Dir(x) == "runtime" {
					viol("hooks", "%s: %s needs %s, which does not exist in what is built", cmd, k, x)
				}
			}
		}
		if k := rtmod14 + "/internal/runtime/runtime_link.go"; b.files[k] != "" {
			stat("linked")
			if len(hooks14(b.files[k]).uses) < 8 {
				viol("hooks", "%s: %s is not linked to the hooks", cmd, k)
			}
		}
		if s := b.files[rtmod14+"/core/version.go"]; s != "" {
			for _, x := range []string{fmt.Sprintf("XGO_VERSION = %q", xgomain.VERSION), fmt.Sprintf("XGO_REVISION = %q", xgomain.REVISION), fmt.Sprintf("XGO_NUMBER = %d", xgomain.NUMBER)} {
				if !strings.Contains(s, "\nconst "+x+"\n") {
					viol("version", "%s: the runtime is not told that %s", cmd, x)
				}
			}
		}
		// the runtime is not loaded without need before go1.25
		trapped := rt != 2 || minor >= 25 || trace
		for _, k := range sorted(want.files) {
			if !trapped || !strings.HasPrefix(k, "example.com/m/") || len(want.files[k]) > 1<<19 || strings.Contains(o.N, "--mock-rule={") {
				continue
			}
			was := map[string]bool{}
			for _, x := range untrapped(want.files[k]) {
				was[x] = x != "init"
			}
			for _, x := range untrapped(b.files[k]) {
				if was[x] {
					viol("trap", "%s: %s of %s cannot be mocked or traced in what is built (extra %.900s)", cmd, x, k, b.extra)
				}
			}
		}
		// functions of others: what tests name, and what the options name
		if s := undeclared(b.files, want.files); s != "" {
			viol("compile", "%s: %s", cmd, s)
		}
		if s := stale(b); s != "" {
			viol("trap", "%s: %s", cmd, s)
		}
		others := map[string]string{} // file, functions
		if s := want.files["example.com/m/a/a_test.go"]; strings.Contains(s, "TestOther") && len(s) < 1<<19 && trapped {
			for i, x := range refs14 {
				if strings.Contains(s, fmt.Sprintf("TestOther%d(", i)) {
					k := x.file + "/" + path.Base(x.file) + ".go"
					if x.file == "lib" {
						k = lib14 + "/lib.go"
					}
					others[k] += " " + x.fn + " "
				}
			}
		}
		fs := strings.Fields(o.N)
		all := ""
		if s := want.files["example.com/m/a/a_test.go"]; len(s) < 1<<19 && strings.Contains(s, "trap.AddInterceptor") {
			all = "true"
		}
		for _, x := range fs {
			switch x {
			case "--trap-all", "--trap-all=true":
				all = "true"
			case "--trap-all=false":
				all = ""
			}
		}
		if all != "" && trapped {
			stat("all")
			others[lib14+"/lib.go"] += " Version " // only so many of a file
			others[lib14+"/deep/deep.go"] += " D "
		}
		for i, x := range fs {
			switch {
			case !trapped:
			case x == "--trap" && fs[i+1] == lib14, x == "--trap" && fs[i+1] == lib14+"/...":
				others[lib14+"/lib.go"] = "*"
				if strings.HasSuffix(fs[i+1], "...") {
					others[lib14+"/deep/deep.go"] = "*"
				}
			case x == "--trap" && strings.HasPrefix(fs[i+1], lib14):
				others[lib14+"/deep/deep.go"] = "*"
			case x == "--trap" && fs[i+1] == "net/http":
				others["net/http/http.go"] += " Get Do "
			case x == "--mock-rule-include-as-main-module="+lib14:
				others[lib14+"/lib.go"] = "*"
				others[lib14+"/deep/deep.go"] = "*"
			}
		}
		if strings.Contains(o.N, "--mock-rule={") {
			others = nil
		}
		for _, k := range sorted(others) {
			if b.files[k] == "" {
				continue // not used
			}
			stat("others")
			for _, x := range untrapped(b.files[k]) {
				if x == "init" || strings.Contains(x, "_xgo_get") || listed(b.extra, k, x) {
					continue
				}
				if others[k] == "*" || strings.Contains(others[k], " "+x+" ") {
					viol("trap", "%s: %s of %s cannot be mocked in what is built (extra %.1500s)", cmd, x, k, b.extra)
				}
			}
		}
		_, f := scratch(o)
		if f == nil {
			viol("again", "%s: built, and for the first time it does not", cmd)
		}
		if d := sys.Diff(norm(f), norm(b)); d != "" {
			viol("same", "%s: not the same as when run for the first time: %s", cmd, d)
		}
	}
	for _, o := range p.Main {
		switch o.K {
		case "edit":
			if o.I == 31 && !strings.HasPrefix(o.N, "a/a") {
				continue
			}
			put(proj14+"/"+o.N, text14(o.N, o.I, uses))
		case "remove":
			sys.Remove(proj14 + "/" + o.N)
		case "older":
			// extracted by an older version of the tool
			f := proj14 + "/.xgo/gen/modules/" + rtmod14
			b, err := sys.ReadFile(f + "/core/version.go")
			if err != nil {
				continue
			}
			stat("older")
			put(f+"/core/version.go", regexp.MustCompile(`const NUMBER = .*`).ReplaceAllString(string(b), `const NUMBER = 500`))
			if o.I&1 != 0 {
				put(f+"/mock/old.go", "package mock\n\nfunc Old() {}\n")
			}
			if o.I&2 != 0 {
				put(f+"/functab/functab.go", "package functab\n")
			}
		case "lib":
			setLib(o.I)
		case "overlay":
			setOverlay(o.I, proj14)
		case "gone":
			sys.RemoveAll(proj14 + "/.xgo/" + o.N)
		case "run":
			setOverlay(over, path.Join(proj14, o.H))
			before := contents()
			for _, f := range byRun[o.L] {
				f.Proc = nproc()
			}
			l, _ := sys.ReadDir(proj14 + "/.xgo/gen/tmp")
			tmp := len(l)
			sys.Faults = byRun[o.L]
			pr, b := run(o)
			calm := len(byRun[o.L]) == 0
			sys.Faults = nil
			events++
			if d := sys.Diff(unignored(before, top), unignored(contents(), top)); d != "" {
				viol("original", "the user's files were changed: %s", d)
			}
			switch {
			case pr.Killed:
				stat("killed")
			case pr.Code != 0:
				stat("failed")
			default:
				stat("succeeded")
			}
			if !pr.Killed {
				if l, _ := sys.ReadDir(proj14 + "/.xgo/gen/tmp"); len(l) > tmp && calm {
					viol("leftover", "xgo %s left %d files more in .xgo/gen/tmp", o.S, len(l)-tmp)
				}
				check("", o, pr, b, calm)
			}
			if pr.Killed {
				pr, b := run(o)
				check(", after it was killed", o, pr, b, true)
			}
		}
	}
}

// outOf is the file that -o names.
func outOf(o *Op, cwd string) (out string) {
	f := strings.Fields(o.S)
	for i, x := range f {
		if x == "-args" {
			break
		}
		if x == "-o" {
			out = path.Join(cwd, f[i+1])
			if strings.HasPrefix(f[i+1], "/") {
				out = f[i+1]
			}
		}
	}
	return
}

type hooks struct {
	uses, decls []string
}

var hooksCache14 = map[string]*hooks{}

// hooks14 lists the hooks of the tool in the standard library that a file uses
// (as package/Name), and what it declares.
func hooks14(content string) *hooks {
	if !strings.Contains(content, "Xgo") {
		return &hooks{}
	}
	if h := hooksCache14[content]; h != nil {
		return h
	}
	h := &hooks{}
	if len(hooksCache14) > 2000 {
		hooksCache14 = map[string]*hooks{}
	}
	hooksCache14[content] = h
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", content, 0)
	if err != nil {
		return h
	}
	names := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if p == "runtime" || p == "time" {
			names[p] = p
			if i.Name != nil {
				names[i.Name.Name] = p
			}
		}
	}
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := e.X.(*ast.Ident); ok && names[x.Name] != "" && strings.HasPrefix(e.Sel.Name, "Xgo") {
				s := names[x.Name] + "/" + e.Sel.Name
				if !seen[s] {
					seen[s] = true
					h.uses = append(h.uses, s)
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				h.decls = append(h.decls, d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					h.decls = append(h.decls, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						h.decls = append(h.decls, n.Name)
					}
				}
			}
		}
	}
	return h
}

// untrapped lists the functions of a file that cannot be mocked or traced.
func untrapped(content string) (r []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", content, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || strings.HasPrefix(fn.Name.Name, "__xgo_") {
			continue
		}
		text := content[fset.PositionFor(fn.Body.Pos(), false).Offset:]
		if !strings.HasPrefix(text[1:], "__xgo_post_") {
			r = append(r, fn.Name.Name)
		}
	}
	return
}

// sums14 is what was built with a package and its sum
var sums14 map[string]string

// stale tells of a package that go would take from its cache although it is
// to be compiled in another way than when it was put there.
func stale(b *goBuild) string {
	var x struct {
		Packages map[string]json.RawMessage
	}
	sums := map[string]string{}
	json.NewDecoder(strings.NewReader(b.extra)).Decode(&x)
	json.Unmarshal([]byte(b.sums), &sums)
	var l []string
	for p := range x.Packages {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		s := x.Packages[p]
		if sums[p] == "" {
			return p + " has no sum"
		}
		k := p + " " + sums[p]
		if o, ok := sums14[k]; ok && o != string(s) {
			return fmt.Sprintf("%s has the same sum with %.300s as with %.300s", p, s, o)
		}
		sums14[k] = string(s)
	}
	return ""
}

// listed tells if the compiler is told to make the function mockable.
func listed(extra, file, name string) bool {
	var x struct {
		Packages map[string]struct {
			Files map[string]struct{ Funcs map[string]any }
		}
	}
	if json.NewDecoder(strings.NewReader(extra)).Decode(&x) != nil {
		return false
	}
	for n := range x.Packages[path.Dir(file)].Files[path.Base(file)].Funcs {
		if n == name || strings.HasSuffix(n, "."+name) {
			return true
		}
	}
	return false
}

// unignored leaves out what the tool adds to .gitignore.
func unignored(m map[string]string, top string) map[string]string {
	k := top + "/.gitignore"
	if top == "" {
		return m
	}
	for n := range m {
		if strings.HasPrefix(n, k+".tmp-") {
			delete(m, n) // when it was killed
		}
	}
	s := strings.TrimPrefix(m[k], "file ")
	s = strings.ReplaceAll(s, "**/.xgo/gen\n", "")
	s = strings.TrimRight(s, "\n")
	if s == "" {
		delete(m, k)
	} else {
		m[k] = s
	}
	return m
}
