package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif.local/io/sys"
)

// A go command for the simulated file system: list, mod edit, version, env and
// build, test, run, which read what the compiler would read.

type goTool struct {
	root    string // GOROOT
	version string // go1.25.3
	minor   int
	cache   string // GOMODCACHE
	// called when a build has read everything
	built func(c *sys.Call, b *goBuild) int
}

// goBuild is what a build saw.
type goBuild struct {
	cmd     string
	args    []string
	env     []string
	files   map[string]string // import path/file: content
	extra   string
	sums    string // of extra, by package
	err     string
	roots   []string
	goflags string
	flags   []string // of the command, as -name or -name=value
	rest    []string // packages or files
	prog    []string // arguments of the program or the tests
	out     string   // file named by -o
}

// flags of build, test and run that have a value
var valued = map[string]bool{}

func init() {
	for _, n := range strings.Fields("mod modfile overlay o run coverpkg coverprofile covermode count tags timeout parallel p bench benchtime cpu ldflags gcflags asmflags shuffle exec skip toolexec") {
		valued[n] = true
	}
}

// split sorts out the arguments as the go command does.
func (b *goBuild) split() {
	a := b.args
	for i := 1; i < len(a); i++ {
		x := strings.TrimPrefix(strings.TrimPrefix(a[i], "-"), "-")
		switch {
		case x == a[i]:
			b.rest = append(b.rest, x)
			if b.cmd == "run" {
				if !strings.HasSuffix(x, ".go") || i+1 == len(a) || !strings.HasSuffix(a[i+1], ".go") {
					b.prog = append(b.prog, a[i+1:]...)
					return
				}
			}
		case x == "args":
			b.prog = append(b.prog, a[i+1:]...)
			return
		case valued[x] && i+1 < len(a):
			i++
			b.flags = append(b.flags, x+"="+a[i])
		default:
			b.flags = append(b.flags, x)
		}
	}
}

// handed compares what the user gave with what the go command got.
func (b *goBuild) handed(want *goBuild) string {
	own := map[string]bool{"overlay": true, "mod": true, "modfile": true, "o": true, "toolexec": true}
	pick := func(l []string) (r []string) {
		for i, x := range l {
			// the last one counts
			n := strings.SplitN(x, "=", 2)[0]
			for _, y := range l[i+1:] {
				if strings.SplitN(y, "=", 2)[0] == n && n != "gcflags" && n != "ldflags" && n != "asmflags" {
					n = "o"
				}
			}
			if n == "o" {
				continue
			}
			if !own[strings.SplitN(x, "=", 2)[0]] && x != "a" && "-"+x != want.goflags && x != "ldflags=-linkmode=external" {
				r = append(r, x)
			}
		}
		sort.Strings(r)
		return
	}
	for _, k := range [][3]string{
		{"flags", strings.Join(pick(want.flags), " "), strings.Join(pick(b.flags), " ")},
		{"packages", strings.Join(want.rest, " "), strings.Join(b.rest, " ")},
		{"arguments", strings.Join(want.prog, " "), strings.Join(b.prog, " ")},
	} {
		if k[1] != k[2] {
			return fmt.Sprintf("the %s of go are %q, and %q were given", k[0], k[2], k[1])
		}
	}
	return ""
}

// listPkg is the output of go list.
type listPkg struct {
	Dir, ImportPath, Name                    string   `json:",omitempty"`
	Root                                     string   `json:",omitempty"`
	Goroot, Standard, DepOnly, Incomplete    bool     `json:",omitempty"`
	Error                                    *listErr `json:",omitempty"`
	GoFiles, TestGoFiles, XTestGoFiles       []string `json:",omitempty"`
	Imports, Deps, TestImports, XTestImports []string `json:",omitempty"`
	IgnoredGoFiles                           []string `json:",omitempty"`
}

type listErr struct{ Err string }

// parsedFile: what go list reads of a file.
type parsedFile struct {
	name    string
	imports []string
	tags    constraint.Expr
	bad     bool // does not parse as a whole
	head    bool // not even its imports do
}

var parsedFiles = map[string]*parsedFile{}

func parsed(content string) *parsedFile {
	if p := parsedFiles[content]; p != nil {
		return p
	}
	p := &parsedFile{}
	for _, l := range strings.Split(content, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			p.tags, _ = constraint.Parse(l)
		}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", content, parser.ImportsOnly)
	if err != nil {
		p.head = true
	}
	if f != nil {
		p.name = f.Name.Name
		for _, s := range f.Imports {
			v, _ := strconv.Unquote(s.Path.Value)
			p.imports = append(p.imports, v)
		}
	}
	if _, err := parser.ParseFile(fset, "x.go", content, 0); err != nil {
		p.bad = true
	}
	var _ *ast.File
	if len(parsedFiles) > 4000 {
		parsedFiles = map[string]*parsedFile{}
	}
	parsedFiles[content] = p
	return p
}

func (v *view) matches(e constraint.Expr) bool {
	if e == nil {
		return true
	}
	return e.Eval(func(tag string) bool {
		if strings.HasPrefix(tag, "go1.") {
			n, err := strconv.Atoi(tag[4:])
			return err == nil && n <= v.g.minor
		}
		for _, t := range strings.FieldsFunc(v.tags, func(r rune) bool { return r == ',' || r == ' ' }) {
			if t == tag {
				return true
			}
		}
		return tag == "linux" || tag == "amd64" || tag == "gc" || tag == "unix"
	})
}

// goMod is a go.mod file.
type goMod struct {
	old     bool // before go1.14, when vendor directories were not used by default
	path    string
	require map[string]string
	replace map[string]string
}

func readMod(content string) *goMod {
	m := &goMod{require: map[string]string{}, replace: map[string]string{}}
	block := ""
	for _, l := range strings.Split(content, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if f[0] == ")" {
			block = ""
			continue
		}
		if len(f) == 2 && f[1] == "(" {
			block = f[0]
			continue
		}
		if block != "" {
			f = append([]string{block}, f...)
		}
		switch {
		case f[0] == "module" && len(f) > 1:
			m.path = f[1]
		case f[0] == "go" && len(f) > 1:
			m.old = f[1] == "1.13"
		case f[0] == "require" && len(f) > 2:
			m.require[f[1]] = f[2]
		case f[0] == "replace" && len(f) > 3:
			for i, x := range f {
				if x == "=>" {
					m.replace[f[1]] = strings.Join(f[i+1:], "@")
				}
			}
		}
	}
	return m
}

// editMod is go mod edit.
func editMod(content string, flags []string) string {
	lines := strings.Split(strings.TrimRight(content, "\n"), "\n")
	drop := func(kind, p string) {
		var out []string
		for _, l := range lines {
			f := strings.Fields(l)
			if len(f) > 1 && (f[0] == kind && f[1] == p || f[0] == p && kind == "require" && len(f) == 2) {
				continue
			}
			out = append(out, l)
		}
		lines = out
	}
	for _, f := range flags {
		switch {
		case strings.HasPrefix(f, "-require="):
			p, v, _ := strings.Cut(f[9:], "@")
			drop("require", p)
			lines = append(lines, "require "+p+" "+v)
		case strings.HasPrefix(f, "-replace="):
			p, to, _ := strings.Cut(f[9:], "=")
			drop("replace", p)
			lines = append(lines, "replace "+p+" => "+to)
		case strings.HasPrefix(f, "-go="):
			var out []string
			for _, l := range lines {
				if !strings.HasPrefix(l, "go ") {
					out = append(out, l)
				}
			}
			lines = append(out, "go "+f[4:])
		}
	}
	return strings.Join(lines, "\n") + "\n"
}

// view is one look at the packages: as go list has it, or through an overlay.
type view struct {
	g       *goTool
	main    string // directory of the main module
	mod     *goMod
	vendor  string // directory, in vendor mode
	tags    string
	over    map[string]string
	pkgs    map[string]*listPkg
	content map[string]string
	io      error
	sums    map[string]bool
	noSum   string
}

func (g *goTool) view(c *sys.Call, mode, modfile string, over map[string]string) (*view, string) {
	v := &view{g: g, over: over, pkgs: map[string]*listPkg{}, content: map[string]string{}}
	d := c.File(".")
	for ; ; d = path.Dir(d) {
		if _, err := sys.Stat_(d + "/go.mod"); err == nil {
			v.main = d
			break
		}
		if d == "/" {
			return nil, "go: go.mod file not found in current directory or any parent directory"
		}
	}
	f := v.main + "/go.mod"
	if modfile != "" {
		f = c.File(modfile)
	}
	b, err := v.read(f)
	if err != nil {
		return nil, "go: " + err.Error()
	}
	v.mod = readMod(string(b))
	v.sums = map[string]bool{}
	b, _ = v.read(strings.TrimSuffix(f, ".mod") + ".sum")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 3 {
			v.sums[f[0]+"@"+f[1]] = true
		}
	}
	if v.mod.path == "" {
		return nil, "go: no module declaration in " + f
	}
	if mode == "vendor" || mode == "" && !v.mod.old {
		if _, err := sys.Stat_(v.main + "/vendor"); err == nil {
			v.vendor = v.main + "/vendor"
		} else if mode == "vendor" {
			return nil, "go: inconsistent vendoring"
		}
	}
	return v, ""
}

func (v *view) read(f string) ([]byte, error) {
	if t, ok := v.over[f]; ok {
		if t == "" {
			return nil, &os.PathError{Op: "open", Path: f, Err: os.ErrNotExist}
		}
		f = t
	}
	b, err := sys.ReadFile(f)
	return b, err
}

// dir is the directory of a package.
func (v *view) dir(p string) (dir string, std bool) {
	within := func(mod string) (string, bool) {
		if p == mod {
			return "", true
		}
		return strings.TrimPrefix(p, mod), strings.HasPrefix(p, mod+"/")
	}
	if rest, ok := within(v.mod.path); ok {
		if isDir(v.main+rest) || v.overDir(v.main+rest) {
			return v.main + rest, false
		}
		return "", false
	}
	if d := v.g.root + "/src/" + p; isDir(d) && !strings.Contains(strings.SplitN(p, "/", 2)[0], ".") {
		return d, true
	}
	if v.vendor != "" {
		if d := v.vendor + "/" + p; isDir(d) {
			return d, false
		}
		return "", false
	}
	best, bestDir, sum := "", "", ""
	for m, ver := range v.mod.require {
		rest, ok := within(m)
		if !ok || len(m) < len(best) {
			continue
		}
		best = m
		at := m + "@" + ver
		to, replaced := v.mod.replace[m]
		if replaced && !strings.HasPrefix(to, "/") && !strings.HasPrefix(to, ".") {
			at, replaced = to, false
		}
		bestDir = v.g.cache + "/" + at + rest
		sum = at
		if replaced {
			sum = ""
			if !strings.HasPrefix(to, "/") {
				to = path.Join(v.main, to)
			}
			bestDir = to + rest
			// a replacement needs a go.mod
			if _, err := v.read(to + "/go.mod"); err != nil {
				bestDir = ""
			}
		}
	}
	if bestDir != "" && (isDir(bestDir) || v.overDir(bestDir)) {
		if sum != "" && !v.sums[sum] {
			v.noSum = "missing go.sum entry for module providing package " + p
		}
		return bestDir, false
	}
	return "", false
}

// overDir reports whether the overlay has files of a directory.
func (v *view) overDir(d string) bool {
	for f := range v.over {
		if path.Dir(f) == d {
			return true
		}
	}
	return false
}

func isDir(d string) bool {
	i, err := sys.Stat_(d)
	return err == nil && i.IsDir()
}

// load reads a package.
func (v *view) load(p string) *listPkg {
	if k := v.pkgs[p]; k != nil {
		return k
	}
	k := &listPkg{ImportPath: p}
	v.pkgs[p] = k
	v.noSum = ""
	d, std := v.dir(p)
	if v.noSum != "" {
		k.Incomplete = true
		k.Error = &listErr{v.noSum}
		return k
	}
	if d == "" {
		k.Incomplete = true
		k.Error = &listErr{"no required module provides package " + p}
		return k
	}
	k.Dir, k.Standard, k.Goroot = d, std, std
	k.Root = v.main
	if std {
		k.Root = v.g.root
	}
	var names []string
	l, err := sys.ReadDir(d)
	if err != nil && !v.overDir(d) {
		v.io = err
	}
	for _, e := range l {
		if !e.IsDir() {
			names = append(names, e.Name())
		}
	}
	for f, t := range v.over {
		if path.Dir(f) == d && t != "" {
			names = append(names, path.Base(f))
		}
	}
	for i := 0; i < len(names); i++ {
		if t, ok := v.over[d+"/"+names[i]]; ok && t == "" {
			names = append(names[:i:i], names[i+1:]...)
			i--
		}
	}
	sort.Strings(names)
	v.files(k, d, names)
	if len(k.GoFiles)+len(k.TestGoFiles)+len(k.XTestGoFiles) == 0 {
		k.Incomplete = true
		k.Error = &listErr{"no Go files in " + d}
	}
	return k
}

func (v *view) files(k *listPkg, d string, names []string) {
	imps := [3]map[string]bool{{}, {}, {}}
	last := ""
	for _, n := range names {
		if n == last || !strings.HasSuffix(n, ".go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		last = n
		if strings.HasSuffix(n, "_windows.go") || strings.HasSuffix(n, "_darwin.go") {
			continue
		}
		b, err := v.read(d + "/" + n)
		if err != nil {
			v.io = err
			continue
		}
		v.content[d+"/"+n] = string(b)
		f := parsed(string(b))
		if !v.matches(f.tags) {
			k.IgnoredGoFiles = append(k.IgnoredGoFiles, n)
			continue
		}
		i := 0
		switch {
		case !strings.HasSuffix(n, "_test.go"):
			k.GoFiles = append(k.GoFiles, n)
			k.Name = f.name
		case strings.HasSuffix(f.name, "_test"):
			k.XTestGoFiles = append(k.XTestGoFiles, n)
			i = 2
		default:
			k.TestGoFiles = append(k.TestGoFiles, n)
			i = 1
		}
		if f.head && i == 0 {
			k.Incomplete = true
			k.Error = &listErr{"syntax error in " + n}
		}
		for _, x := range f.imports {
			if x != "C" && x != "unsafe" {
				imps[i][x] = true
			}
		}
	}
	for i, to := range []*[]string{&k.Imports, &k.TestImports, &k.XTestImports} {
		for x := range imps[i] {
			*to = append(*to, x)
		}
		sort.Strings(*to)
	}
}

// match lists the packages of a pattern.
func (v *view) match(c *sys.Call, args []string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	var tree func(d, p string, f func(string))
	tree = func(d, p string, f func(string)) {
		l, err := sys.ReadDir(d)
		if err != nil && !v.overDir(d) {
			return
		}
		var subs []string
		for _, e := range l {
			if n := e.Name(); e.IsDir() {
				subs = append(subs, n)
			}
		}
		for o, t := range v.over {
			if x := path.Dir(o); t != "" && path.Dir(x) == d && !isDir(x) {
				subs = append(subs, path.Base(x))
			}
		}
		// a package of which nothing is selected does not match
		k := v.load(p)
		has := len(k.GoFiles)+len(k.TestGoFiles)+len(k.XTestGoFiles) > 0
		if has {
			f(p)
		}
		sort.Strings(subs)
		for i, n := range subs {
			if n == "vendor" || n == "testdata" || n[0] == '.' || n[0] == '_' || i > 0 && n == subs[i-1] {
				continue
			}
			if _, err := sys.Stat_(d + "/" + n + "/go.mod"); err == nil {
				continue
			}
			tree(d+"/"+n, p+"/"+n, f)
		}
	}
	if len(args) == 0 {
		args = []string{"."}
	}
	var files []string
	for _, a := range args {
		switch {
		case strings.HasSuffix(a, ".go"):
			files = append(files, c.File(a))
		case a == "." || strings.HasPrefix(a, "./") || strings.HasPrefix(a, "../") || strings.HasPrefix(a, "/"):
			rec := strings.HasSuffix(a, "/...")
			d := path.Clean(c.File(strings.TrimSuffix(a, "/...")))
			rest := strings.TrimPrefix(d, v.main)
			if d != v.main && !strings.HasPrefix(d, v.main+"/") {
				add(a) // outside
				continue
			}
			if rec {
				tree(d, v.mod.path+rest, add)
			} else {
				add(v.mod.path + rest)
			}
		case strings.HasSuffix(a, "/..."):
			p := strings.TrimSuffix(a, "/...")
			if d, _ := v.dir(p); d != "" {
				tree(d, p, add)
			}
		default:
			add(a)
		}
	}
	if len(files) > 0 {
		k := &listPkg{ImportPath: "command-line-arguments", Dir: path.Dir(files[0]), Root: v.main}
		var names []string
		for _, f := range files {
			names = append(names, path.Base(f))
		}
		sort.Strings(names)
		v.files(k, k.Dir, names)
		v.pkgs[k.ImportPath] = k
		add(k.ImportPath)
	}
	return out
}

// deps: dependencies first.
func (v *view) deps(roots []string, tests bool) []string {
	var out []string
	state := map[string]int{}
	var visit func(p string)
	visit = func(p string) {
		if state[p] != 0 {
			return
		}
		state[p] = 1
		for _, x := range v.load(p).Imports {
			visit(x)
		}
		out = append(out, p)
	}
	for _, p := range roots {
		visit(p)
	}
	if tests {
		for _, p := range roots {
			k := v.load(p)
			for _, x := range append(append([]string{}, k.TestImports...), k.XTestImports...) {
				visit(x)
			}
		}
	}
	return out
}

func (g *goTool) command(c *sys.Call) int {
	a := c.Args[1:]
	if len(a) == 0 {
		return 2
	}
	if c.Fail != nil && c.Fail.Arg%3 == 0 {
		c.Errf("go: failed\n")
		return 1 + c.Fail.Arg%2
	}
	if c.Fail != nil && c.Fail.Arg%3 == 1 {
		return -9
	}
	code := g.run(c, a)
	if c.Fail != nil {
		return 1
	}
	return code
}

func (g *goTool) run(c *sys.Call, a []string) int {
	if r := c.Getenv("GOROOT"); r != "" && r != g.root {
		c.Errf("go: GOROOT=%s of another installation\n", r)
		return 2
	}
	fail := func(msg string) int {
		c.Errf("%s\n", msg)
		return 1
	}
	switch a[0] {
	case "version":
		c.Out("go version %s linux/amd64\n", g.version)
		return 0
	case "env":
		for _, k := range a[1:] {
			switch k {
			case "GOROOT":
				c.Out("%s\n", g.root)
			case "GOVERSION":
				c.Out("%s\n", g.version)
			case "GOMODCACHE":
				c.Out("%s\n", g.cache)
			default:
				c.Out("%s\n", c.Getenv(k))
			}
		}
		return 0
	case "mod":
		if len(a) < 3 || a[1] != "edit" {
			return fail("go mod: unknown")
		}
		f := c.File(a[len(a)-1])
		b, err := sys.ReadFile(f)
		if err != nil {
			return fail("go: " + err.Error())
		}
		if readMod(string(b)).path == "" {
			return fail("go: " + f + ": no module")
		}
		if err := sys.WriteFile(f, []byte(editMod(string(b), a[2:len(a)-1])), 0644); err != nil {
			return fail("go: " + err.Error())
		}
		return 0
	}
	// flags
	mode, modfile, overlay, out, tags := "", "", "", "", ""
	tolerant, deps, mods := false, false, false
	var rest []string
	flag := func(i *int, name string) (string, bool) {
		s := strings.TrimPrefix(strings.TrimPrefix(a[*i], "-"), "-")
		if s == name && *i+1 < len(a) {
			*i++
			return a[*i], true
		}
		if strings.HasPrefix(s, name+"=") {
			return s[len(name)+1:], true
		}
		return "", false
	}
	given := a
	a = append(append(a[:1:1], strings.Fields(c.Getenv("GOFLAGS"))...), a[1:]...)
	for i := 1; i < len(a); i++ {
		if a[i] == "-args" {
			break
		}
		if v, ok := flag(&i, "mod"); ok {
			mode = v
		} else if v, ok := flag(&i, "modfile"); ok {
			modfile = v
		} else if v, ok := flag(&i, "overlay"); ok {
			overlay = v
		} else if v, ok := flag(&i, "o"); ok {
			out = v
		} else if v, ok := flag(&i, "tags"); ok {
			tags = v
		} else if valued[strings.TrimLeft(a[i], "-")] {
			i++
		} else if a[i] == "-e" {
			tolerant = true
		} else if a[i] == "-deps" {
			deps = true
		} else if a[i] == "-m" {
			mods = true
		} else if strings.HasPrefix(a[i], "-") {
			if a[0] == "list" && len(rest) > 0 {
				return fail("malformed import path \"" + a[i] + "\": leading dash")
			}
		} else {
			rest = append(rest, a[i])
			if a[0] == "run" && !(strings.HasSuffix(a[i], ".go") && i+1 < len(a) && strings.HasSuffix(a[i+1], ".go")) {
				break
			}
		}
	}
	over := map[string]string{}
	if overlay != "" {
		b, err := sys.ReadFile(c.File(overlay))
		if err != nil {
			return fail("go: reading overlay file: " + err.Error())
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &o); err != nil {
			return fail("go: parsing overlay JSON: " + err.Error())
		}
		for from, to := range o.Replace {
			// the go command resolves relative names from where it runs
			from = path.Clean(c.File(from))
			if to != "" {
				to = path.Clean(c.File(to))
			}
			if g.minor >= 25 && strings.HasPrefix(from, g.cache+"/") {
				return fail("go: overlay contains a replacement for " + from + ". Files beneath GOMODCACHE (" + g.cache + ") must not be replaced.")
			}
			over[from] = to
		}
	}
	v, msg := g.view(c, mode, modfile, over)
	if msg != "" {
		return fail(msg)
	}
	v.tags = tags
	if mods {
		for _, m := range rest {
			ver, ok := v.mod.require[m]
			e := map[string]interface{}{"Path": m, "Version": ver}
			if !ok && m != v.mod.path {
				e["Error"] = listErr{"module " + m + ": not a known dependency"}
				if !tolerant {
					return fail("go: module " + m + ": not a known dependency")
				}
			}
			b, _ := json.MarshalIndent(e, "", "\t")
			c.Out("%s\n", b)
		}
		return 0
	}
	if a[0] == "list" {
		roots := v.match(c, rest)
		isRoot := map[string]bool{}
		for _, p := range roots {
			isRoot[p] = true
		}
		all := roots
		if deps {
			all = v.deps(roots, false)
		}
		s := ""
		for _, p := range all {
			k := *v.load(p)
			k.DepOnly = !isRoot[p]
			if k.Error != nil && !tolerant {
				return fail(k.Error.Err)
			}
			for _, x := range v.deps([]string{p}, false) {
				if x != p {
					if v.load(x).Incomplete {
						k.Incomplete = true
					}
					k.Deps = append(k.Deps, x)
				}
			}
			b, _ := json.MarshalIndent(&k, "", "\t")
			s += string(b) + "\n"
		}
		if v.io != nil {
			return fail("go: " + v.io.Error())
		}
		c.Out("%s", s)
		return 0
	}
	if a[0] != "build" && a[0] != "test" && a[0] != "run" {
		return fail("go " + a[0] + ": unknown command")
	}
	bd := &goBuild{cmd: a[0], args: given, files: map[string]string{}, goflags: c.Getenv("GOFLAGS")}
	for _, e := range c.Env {
		if strings.HasPrefix(e, "GO") || strings.HasPrefix(e, "XGO") || strings.HasPrefix(e, "BYPASS") {
			bd.env = append(bd.env, e)
		}
		if n := "XGO_COMPILER_SYNTAX_REWRITE_PACKAGES_FILE="; strings.HasPrefix(e, n) {
			b, err := sys.ReadFile(c.File(e[len(n):]))
			if err != nil {
				return fail("compile: " + err.Error())
			}
			bd.extra = string(b)
		}
		if n := "XGO_COMPILER_SYNTAX_REWRITE_PACKAGES_SUM_FILE="; strings.HasPrefix(e, n) {
			if b, err := sys.ReadFile(c.File(e[len(n):])); err == nil {
				bd.sums = string(b) // errors are ignored by the real one
			}
		}
		if n := "XGO_COMPILER_OPTIONS_FILE="; strings.HasPrefix(e, n) && e != n {
			b, err := sys.ReadFile(c.File(e[len(n):]))
			if err != nil {
				return fail("compile: " + err.Error())
			}
			bd.extra += string(b)
		}
	}
	roots := v.match(c, rest)
	if len(roots) == 0 {
		return fail("no packages to build")
	}
	bd.roots = roots
	if out != "" {
		bd.out = c.File(out)
	}
	bd.split()
	isRoot := map[string]bool{}
	for _, p := range roots {
		isRoot[p] = true
	}
	all := v.deps(roots, a[0] == "test")
	if d, _ := v.dir("runtime"); d != "" {
		all = append(all, "runtime")
	}
	for _, p := range all {
		k := v.load(p)
		if k.Error != nil && !(k.Standard) {
			bd.err = p + ": " + k.Error.Err
			if _, std := v.dir(p); !std && strings.Contains(strings.SplitN(p, "/", 2)[0], ".") {
				c.Errf("%s\n", bd.err)
				return 1
			}
			continue
		}
		names := append([]string{}, k.GoFiles...)
		if a[0] == "test" && isRoot[p] {
			names = append(append(names, k.TestGoFiles...), k.XTestGoFiles...)
		}
		for _, n := range names {
			s := v.content[k.Dir+"/"+n]
			if parsed(s).bad {
				c.Errf("%s/%s: syntax error\n", k.Dir, n)
				return 1
			}
			bd.files[p+"/"+n] = s
		}
	}
	if v.io != nil {
		return fail("go: " + v.io.Error())
	}
	if out != "" {
		if err := sys.WriteFile(c.File(out), binary("program", digest(listing(bd.files))), 0755); err != nil {
			return fail("go build: " + err.Error())
		}
	}
	if g.built != nil {
		return g.built(c, bd)
	}
	return 0
}
