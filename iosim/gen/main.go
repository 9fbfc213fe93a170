// Command gen copies the tool's packages from the repository's working tree to
// a scratch module, with everything that reaches outside replaced: imports of
// os, os/exec, time, sync, net... by the simulated ones, goroutines and channel
// operations by calls of the simulator, and preemption points between
// statements.
//
// usage: gen REPO OVERLAY OUT SHIMDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath", "os/exec": "exec",
	"net": "net", "net/http": "http", "time": "time", "sync": "sync", "archive/zip": "zip",
	"context": "context", "io": "io", "go/parser": "parser", "os/signal": "signal", "crypto/rand": "crand",
}

var modroot = "github.com/xhd2015/xgo"

// packages whose statements are separated by preemption points
var yields = map[string]bool{
	"support/filecopy": true, "support/netutil": true, "support/session": true, "support/httputil": true,
	"support/downloadgo": true, "support/gitgoroot": true, "support/fileutil": true, "support/cmd": true,
	"instrument/load": true, "cmd/xgo/test-explorer": true,
}

type pkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, EmbedFiles           []string
	Standard                      bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "iosim/gen:", err)
		os.Exit(1)
	}
}

func list(dir string, args ...string) []*pkg {
	c := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,EmbedFiles,Standard,Module"}, args...)...)
	c.Dir = dir
	c.Stderr = os.Stderr
	out, err := c.Output()
	die(err)
	d := json.NewDecoder(bytes.NewReader(out))
	var ps []*pkg
	for {
		p := &pkg{}
		err := d.Decode(p)
		if err == io.EOF {
			break
		}
		die(err)
		ps = append(ps, p)
	}
	return ps
}

func main() {
	repo, ov, out, shimdir := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	pats := []string{"./support/...", "./instrument/...", "./cmd/xgo"}
	ps := list(repo, append([]string{"-overlay", ov}, pats...)...)
	exports := map[string]string{}
	for _, p := range ps {
		exports[p.ImportPath] = p.Export
	}
	var std []string
	for s := range shims {
		if exports[s] == "" {
			std = append(std, s)
		}
	}
	if len(std) > 0 {
		sort.Strings(std)
		for _, p := range list(repo, std...) {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range ps {
		if p.Module == nil || p.Module.Path != modroot {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modroot), "/")
		dst := filepath.Join(out, "app", rel)
		if strings.Contains(rel, "internal/vendir") || strings.Contains(rel, "testdata") {
			for _, f := range p.GoFiles {
				copyFile(filepath.Join(p.Dir, f), filepath.Join(dst, f), ov)
			}
			continue
		}
		for _, f := range p.EmbedFiles {
			copyFile(filepath.Join(p.Dir, f), filepath.Join(dst, f), "")
		}
		transform(fset, imp, p, rel, dst)
	}
	for path, name := range shims {
		shim(imp, path, filepath.Join(shimdir, name))
	}
}

func copyFile(src, dst, ov string) {
	b, err := os.ReadFile(src)
	if err != nil && ov != "" {
		var o struct{ Replace map[string]string }
		ob, err1 := os.ReadFile(ov)
		die(err1)
		die(json.Unmarshal(ob, &o))
		b, err = os.ReadFile(o.Replace[src])
	}
	die(err)
	die(os.MkdirAll(filepath.Dir(dst), 0755))
	die(os.WriteFile(dst, b, 0644))
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type tr struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	used  bool
	yield bool
	n     int
	skip  map[ast.Node]bool
}

func (t *tr) off(p token.Pos) int { return t.fset.Position(p).Offset }

func (t *tr) repl(from, to token.Pos, s string) {
	t.edits = append(t.edits, edit{t.off(from), t.off(to), s, len(t.edits)})
}
func (t *tr) ins(at token.Pos, s string) { t.repl(at, at, s) }

func (t *tr) text(n ast.Node) string { return string(t.src[t.off(n.Pos()):t.off(n.End())]) }

func transform(fset *token.FileSet, imp types.Importer, p *pkg, rel, dst string) {
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		die(err)
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
		die(err)
		files = append(files, af)
		srcs[af] = b
		names[af] = f
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, _ := conf.Check(p.ImportPath, fset, files, info)
	die(os.MkdirAll(dst, 0755))
	for _, af := range files {
		t := &tr{fset: fset, info: info, src: srcs[af], yield: yields[rel], skip: map[ast.Node]bool{}}
		t.file(af)
		if rel == "cmd/xgo" && af.Name.Name == "main" {
			t.repl(af.Name.Pos(), af.Name.End(), "xgomain")
		}
		die(os.WriteFile(filepath.Join(dst, names[af]), t.apply(), 0644))
	}
	if tp != nil {
		var vs []string
		for _, n := range tp.Scope().Names() {
			v, ok := tp.Scope().Lookup(n).(*types.Var)
			if ok && n != "_" {
				if nt, ok := v.Type().(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "embed" {
					continue
				}
				vs = append(vs, "&"+n)
			}
		}
		name := p.Name
		if rel == "cmd/xgo" && name == "main" {
			name = "xgomain"
		}
		s := "package " + name + "\n\n"
		if len(vs) > 0 {
			s += "import \"verif.local/io/sys\"\n\nfunc init() { sys.Global(" + strings.Join(vs, ", ") + ") }\n"
		}
		if name == "xgomain" {
			s += "\nfunc HandleBuild(cmd string, args []string) error { return handleBuild(cmd, args) }\n"
			s += "\nfunc Main() { main() }\n"
			if tp.Scope().Lookup("getCoreRevision") != nil {
				s += "\nfunc CoreRevision() string { return getCoreRevision() }\n"
			}
		}
		die(os.WriteFile(filepath.Join(dst, "zz_verif.go"), []byte(s), 0644))
	}
}

func (t *tr) apply() []byte {
	sort.SliceStable(t.edits, func(i, j int) bool {
		a, b := t.edits[i], t.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		// insertions that close something come before those that open
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range t.edits {
		if e.from < at {
			continue // inside something replaced as a whole
		}
		out.Write(t.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(t.src[at:])
	return out.Bytes()
}

func (t *tr) file(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if name, ok := shims[path]; ok {
			lit := strconv.Quote("verif.local/io/" + name)
			if s.Name == nil {
				lit = filepath.Base(path) + " " + lit
			}
			t.repl(s.Path.Pos(), s.Path.End(), lit)
		}
	}
	for _, d := range f.Decls {
		ast.Inspect(d, t.visit)
	}
	if t.used {
		t.ins(f.Name.End(), "; import verifsys \"verif.local/io/sys\"")
	}
}

func (t *tr) sys(name string) string {
	t.used = true
	return "verifsys." + name
}

func (t *tr) fresh() string {
	t.n++
	return "verif" + strconv.Itoa(t.n)
}

func (t *tr) kind(e ast.Expr) string {
	tv, ok := t.info.Types[e]
	if !ok || tv.Type == nil {
		return ""
	}
	switch tv.Type.Underlying().(type) {
	case *types.Chan:
		return "chan"
	case *types.Map:
		return "map"
	}
	return ""
}

// pure: evaluating it twice is the same as once.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (t *tr) visit(n ast.Node) bool {
	if n == nil || t.skip[n] {
		return n != nil
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := recvOf(n.Rhs[0]); u != nil {
				t.skip[u] = true
				t.repl(u.Pos(), u.OpPos+2, t.sys("Recv2")+"(")
				ast.Inspect(u.X, t.visit)
				t.ins(u.X.End(), ")")
				for _, l := range n.Lhs {
					ast.Inspect(l, t.visit)
				}
				return false
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := recvOf(n.Values[0]); u != nil {
				t.skip[u] = true
				t.repl(u.Pos(), u.OpPos+2, t.sys("Recv2")+"(")
				ast.Inspect(u.X, t.visit)
				t.ins(u.X.End(), ")")
				return false
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			t.repl(n.Pos(), n.OpPos+2, t.sys("Recv")+"(")
			ast.Inspect(n.X, t.visit)
			t.ins(n.X.End(), ")")
			return false
		}
	case *ast.SendStmt:
		t.ins(n.Pos(), t.sys("Send")+"(")
		ast.Inspect(n.Chan, t.visit)
		t.repl(n.Arrow, n.Arrow+2, ")(")
		ast.Inspect(n.Value, t.visit)
		t.ins(n.Value.End(), ")")
		return false
	case *ast.CallExpr:
		if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "GOMAXPROCS" {
			t.repl(n.Pos(), n.End(), t.sys("GOMAXPROCS")+"("+t.text(n.Fun)+")")
			return false
		}
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
			if _, ok := t.info.Uses[id].(*types.Builtin); ok {
				t.repl(id.Pos(), id.End(), t.sys("Close"))
			}
		}
	case *ast.GoStmt:
		c := n.Call
		if id, ok := c.Fun.(*ast.Ident); ok {
			if _, ok := t.info.Uses[id].(*types.Builtin); ok {
				break
			}
		}
		if len(c.Args) == 0 {
			t.repl(n.Go, c.Fun.Pos(), t.sys("Go")+"(func() { ")
			if _, lit := c.Fun.(*ast.FuncLit); lit {
				// evaluated when it runs: no difference for a literal
				ast.Inspect(c.Fun, t.visit)
				t.repl(c.Lparen, c.Rparen+1, "() })")
				return false
			}
			t.edits = t.edits[:len(t.edits)-1]
		}
		name := "GoCall"
		if c.Ellipsis.IsValid() {
			name = "GoCallSlice"
		}
		t.repl(n.Go, c.Fun.Pos(), t.sys(name)+"(")
		ast.Inspect(c.Fun, t.visit)
		if len(c.Args) == 0 {
			t.repl(c.Lparen, c.Lparen+1, "")
		} else {
			t.repl(c.Lparen, c.Lparen+1, ", ")
		}
		for _, a := range c.Args {
			ast.Inspect(a, t.visit)
		}
		if c.Ellipsis.IsValid() {
			t.repl(c.Ellipsis, c.Ellipsis+3, "")
		}
		return false
	case *ast.RangeStmt:
		switch t.kind(n.X) {
		case "chan":
			c, ok := t.fresh(), t.fresh()
			tok := n.Tok.String()
			h := "for " + c + " := " + t.text(n.X) + "; ; { "
			if n.Key == nil {
				h += "_, " + ok + " := " + t.sys("Recv2") + "(" + c + ")"
			} else if tok == ":=" {
				h += t.text(n.Key) + ", " + ok + " := " + t.sys("Recv2") + "(" + c + ")"
			} else {
				h += "var " + ok + " bool; " + t.text(n.Key) + ", " + ok + " = " + t.sys("Recv2") + "(" + c + ")"
			}
			h += "; if !" + ok + " { break }; {"
			t.repl(n.For, n.Body.Lbrace+1, h)
			t.block(n.Body.List)
			for _, s := range n.Body.List {
				ast.Inspect(s, t.visit)
			}
			t.ins(n.Body.Rbrace, "}")
			return false
		case "map":
			if n.Key == nil || !pure(n.X) {
				break
			}
			k, v, ok := t.fresh(), t.fresh(), t.fresh()
			x := t.text(n.X)
			h := "for _, " + k + " := range " + t.sys("Keys") + "(" + x + ") { " + v + ", " + ok + " := " + x + "[" + k + "]; if !" + ok + " { continue }; _ = " + v + "; "
			blank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || ok && id.Name == "_"
			}
			if !blank(n.Key) {
				h += t.text(n.Key) + " " + n.Tok.String() + " " + k + "; "
			}
			if n.Value != nil && !blank(n.Value) {
				h += t.text(n.Value) + " " + n.Tok.String() + " " + v + "; "
			}
			t.repl(n.For, n.Body.Lbrace+1, h+"{")
			t.block(n.Body.List)
			for _, s := range n.Body.List {
				ast.Inspect(s, t.visit)
			}
			t.ins(n.Body.Rbrace, "}")
			return false
		}
		t.block(n.Body.List)
	case *ast.SelectStmt:
		t.selectStmt(n)
		return false
	case *ast.FuncDecl:
		if n.Body != nil && n.Name.Name != "init" {
			t.block(n.Body.List)
		}
	case *ast.FuncLit:
		t.block(n.Body.List)
	case *ast.ForStmt:
		t.block(n.Body.List)
	case *ast.IfStmt:
		t.block(n.Body.List)
		if b, ok := n.Else.(*ast.BlockStmt); ok {
			t.block(b.List)
		}
	case *ast.CaseClause:
		t.block(n.Body)
	}
	return true
}

// block puts a preemption point before each statement.
func (t *tr) block(l []ast.Stmt) {
	if !t.yield {
		return
	}
	for _, s := range l {
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.LabeledStmt:
			continue
		case *ast.DeclStmt:
			continue
		default:
			t.ins(s.Pos(), t.sys("Y")+"(); ")
		}
	}
}

func (t *tr) selectStmt(n *ast.SelectStmt) {
	var vars, exprs []string
	def := false
	type clause struct {
		c    *ast.CommClause
		head string
	}
	var cs []clause
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			cs = append(cs, clause{c, "case -1:"})
			continue
		}
		v := t.fresh()
		vars = append(vars, v)
		h := "case " + strconv.Itoa(i) + ": "
		i++
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, t.sys("SC")+"("+t.text(m.Chan)+")("+t.text(m.Value)+")")
		case *ast.ExprStmt:
			exprs = append(exprs, t.sys("RC")+"("+t.text(recvOf(m.X).X)+")")
		case *ast.AssignStmt:
			u := recvOf(m.Rhs[0])
			exprs = append(exprs, t.sys("RC")+"("+t.text(u.X)+")")
			blankAll := true
			for _, l := range m.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					blankAll = false
				}
			}
			tok := m.Tok.String()
			if blankAll {
				tok = "="
			}
			h += t.text(m.Lhs[0])
			if len(m.Lhs) == 2 {
				h += ", " + t.text(m.Lhs[1]) + " " + tok + " " + v + ".V, " + v + ".OK; "
			} else {
				h += " " + tok + " " + v + ".V; "
			}
		}
		cs = append(cs, clause{c, h})
	}
	h := "switch "
	if len(vars) > 0 {
		h += strings.Join(vars, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	h += t.sys("Sel") + "(" + strconv.FormatBool(def)
	for _, v := range vars {
		h += ", " + v
	}
	h += ") {"
	t.repl(n.Select, n.Body.Lbrace+1, h)
	for _, c := range cs {
		t.repl(c.c.Case, c.c.Colon+1, c.head)
		t.block(c.c.Body)
		for _, s := range c.c.Body {
			ast.Inspect(s, t.visit)
		}
	}
	if !def {
		t.ins(n.Body.Rbrace, "default: panic(\"process is dead\")\n")
	}
}

// shim completes a stand-in package with what it does not define itself.
func shim(imp types.Importer, path, dir string) {
	have := map[string]bool{}
	fs := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	die(err)
	name := ""
	for _, e := range ents {
		if e.Name() == "zz_auto.go" || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
		die(err)
		name = f.Name.Name
		for n := range f.Scope.Objects {
			have[n] = true
		}
	}
	p, err := imp.Import(path)
	die(err)
	var b strings.Builder
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	src := fmt.Sprintf("package %s\n\n", name)
	if b.Len() > 0 {
		src += fmt.Sprintf("import std %q\n\n", path) + b.String()
	}
	die(os.WriteFile(filepath.Join(dir, "zz_auto.go"), []byte(src), 0644))
}
