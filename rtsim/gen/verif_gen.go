// Placed (virtually, by go build -overlay) into package main of /repo/cmd/xgo,
// so that the simulated program is produced by the real instrumentation
// pipeline of the working tree. Inactive unless VERIF_GEN_W is set.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/instrument/overlay"
	instrument_patch "github.com/xhd2015/xgo/instrument/patch"
	"github.com/xhd2015/xgo/support/goinfo"
)

func init() {
	w := os.Getenv("VERIF_GEN_W")
	if w == "" {
		return
	}
	if err := verifGen(w, os.Getenv("VERIF_GEN_REPO"), os.Getenv("VERIF_GEN_GOROOT")); err != nil {
		fmt.Fprintf(os.Stderr, "verif gen: %v\n", err)
		os.Exit(3)
	}
	os.Exit(0)
}

func verifGen(w, repo, goroot string) error {
	ver, err := os.ReadFile(filepath.Join(goroot, "VERSION"))
	if err != nil {
		return err
	}
	goVersion, err := goinfo.ParseGoVersionNumber(strings.TrimPrefix(strings.TrimSpace(strings.SplitN(string(ver), "\n", 2)[0]), "go"))
	if err != nil {
		return err
	}
	app := filepath.Join(w, "app")
	ov := overlay.MakeOverlay()
	_, err = instrumentUserCode(goroot, app, app, goVersion, repo, "", "", "", "", "verif.local/app", nil, "", false, ov, false, nil, nil, "", false, "", os.Getenv("VERIF_GEN_RACESAFE") != "", false, false)
	if err != nil {
		return err
	}
	var names []string
	for f := range ov {
		names = append(names, string(f))
	}
	sort.Strings(names)
	trapFile := filepath.Join(goroot, "src", "runtime", "xgo_trap.go")
	seenTrap := false
	for _, f := range names {
		_, content, err := ov.Read(overlay.AbsFile(f))
		if err != nil {
			return err
		}
		switch {
		case f == trapFile:
			seenTrap = true
			if err := genSimrt(w, repo, goroot, goVersion, content); err != nil {
				return err
			}
		case strings.HasPrefix(f, w+"/"):
			if err := os.WriteFile(f, []byte(content), 0644); err != nil {
				return err
			}
			fmt.Println("instrumented", strings.TrimPrefix(f, w+"/"))
		default:
			fmt.Println("ignored", f)
		}
	}
	if !seenTrap {
		return fmt.Errorf("the pipeline did not produce runtime/xgo_trap.go")
	}
	// link stubs of every instrumented file to the simulated runtime
	for _, dir := range []string{app, filepath.Join(w, "runtime", "trace")} {
		if err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
				return err
			}
			return linkStubs(path)
		}); err != nil {
			return err
		}
	}
	if os.Getenv("VERIF_GEN_PROGS") != "" {
		for _, d := range []string{filepath.Join(app, "p"), filepath.Join(w, "orig", "p")} {
			if err := simPrograms(d); err != nil {
				return err
			}
		}
	}
	return simRuntime(w)
}

// linkStubs does what the patched compiler does at link time: the generated
// package variables get the runtime's functions.
func linkStubs(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if !bytes.Contains(b, []byte("__xgo_")) {
		return nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
	if err != nil {
		if os.Getenv("VERIF_GEN_PROGS") != "" {
			return nil // the build reports it
		}
		return fmt.Errorf("instrumented file does not parse: %v", err)
	}
	type ed struct {
		from, to int
		text     string
	}
	var eds []ed
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Names) != 1 || len(vs.Values) != 1 {
				continue
			}
			if _, ok := vs.Values[0].(*ast.FuncLit); !ok {
				continue
			}
			n := vs.Names[0].Name
			var to string
			switch {
			case strings.HasPrefix(n, "__xgo_register_"):
				to = "XgoRegister"
			case strings.HasPrefix(n, "__xgo_trap_varptr_"):
				to = "XgoTrapVarPtr"
			case strings.HasPrefix(n, "__xgo_trap_var_"):
				to = "XgoTrapVar"
			case strings.HasPrefix(n, "__xgo_trap_"):
				to = "XgoTrap"
			default:
				continue
			}
			eds = append(eds, ed{fset.Position(vs.Values[0].Pos()).Offset, fset.Position(vs.Values[0].End()).Offset, "__verif_simrt." + to})
		}
	}
	if len(eds) == 0 {
		return nil
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	s := string(b)
	// offsets may be affected by //line directives only in Position, not in Offset
	for _, e := range eds {
		s = s[:e.from] + e.text + s[e.to:]
	}
	at := fset.Position(f.Name.End()).Offset
	s = s[:at] + `;import __verif_simrt "verif.local/simrt"` + s[at:]
	return os.WriteFile(path, []byte(s), 0644)
}

// genSimrt turns the instantiated xgo_trap.go into package simrt and records
// where the patched proc.go calls the goroutine callbacks.
func genSimrt(w, repo, goroot string, goVersion *goinfo.GoVersion, content string) error {
	content = strings.Replace(content, "package runtime", "package simrt", 1)
	// the name lookup needs runtime internals: simrt provides it
	i := strings.Index(content, "func __xgo_get_pc_name_impl(")
	if i < 0 {
		return fmt.Errorf("xgo_trap.go has no __xgo_get_pc_name_impl")
	}
	content = content[:i]
	content, err := norace(content)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(w, "simrt", "xgo_trap.go"), []byte(content), 0644); err != nil {
		return err
	}
	proc, err := os.ReadFile(filepath.Join(goroot, "src", "runtime", "proc.go"))
	if err != nil {
		return err
	}
	p, err := os.ReadFile(filepath.Join(repo, "patches", fmt.Sprintf("go%d.%d", goVersion.Major, goVersion.Minor), "src", "runtime", "proc.go.xgo.patch"))
	if err != nil {
		return err
	}
	patched, err := instrument_patch.ApplyXgoPatchContent(string(proc), string(p))
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "proc.go", patched, 0)
	if err != nil {
		return fmt.Errorf("patched proc.go does not parse: %v", err)
	}
	// order of interesting calls per function
	calls := map[string][]string{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if name != "newproc" && name != "newproc1" && name != "goexit1" && name != "main" {
			continue
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			if is, ok := n.(*ast.IfStmt); ok {
				if id, ok := is.Cond.(*ast.Ident); ok && id.Name == "false" {
					if is.Else != nil {
						ast.Inspect(is.Else, visit)
					}
					return false
				}
			}
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					s := id.Name
					for _, a := range c.Args {
						if x, ok := a.(*ast.Ident); ok && strings.HasPrefix(s, "__xgo_") {
							s += " " + x.Name
						}
						if x, ok := a.(*ast.SelectorExpr); ok && s == "close" {
							s += " " + x.Sel.Name
						}
						if x, ok := a.(*ast.Ident); ok && s == "close" {
							s += " " + x.Name
						}
					}
					calls[name] = append(calls[name], s)
				}
			}
			return true
		}
		ast.Inspect(fd.Body, visit)
	}
	idx := func(fn, call string) int {
		for i, c := range calls[fn] {
			if c == call || strings.HasPrefix(c, call+" ") {
				return i
			}
		}
		return -1
	}
	create := idx("newproc", "__xgo_callback_on_create_g")
	np1 := idx("newproc", "newproc1")
	rq := idx("newproc", "runqput")
	// racegostart either inside newproc (after the callback) or in newproc1
	raceAfter := false
	if rg := idx("newproc", "racegostart"); rg >= 0 && create >= 0 && rg > create {
		raceAfter = true
	}
	if create >= 0 && !(np1 < create && create < rq) {
		return fmt.Errorf("newproc: unexpected callback position (newproc1=%d create=%d runqput=%d)", np1, create, rq)
	}
	exit := idx("goexit1", "__xgo_callback_on_exit_g")
	mc := idx("goexit1", "mcall")
	if exit > mc {
		exit = -1
	}
	initF := idx("main", "__xgo_callback_on_init_finished")
	cl := -1
	for i, c := range calls["main"] {
		if strings.HasPrefix(c, "close main") {
			cl = i
			break
		}
	}
	ini := idx("main", "doInit1")
	if ini < 0 {
		ini = idx("main", "doInit")
	}
	inOrder := initF >= 0 && (cl < 0 || initF < cl) && ini < initF
	// does the init-finished callback come after all package inits?
	last := -1
	for i, c := range calls["main"] {
		if c == "doInit" || c == "doInit1" {
			last = i
		}
	}
	_ = last
	out := fmt.Sprintf(`package simrt

// extracted from the patched runtime/proc.go
const hookCreate = %v
const raceStartAfterCreate = %v
const hookExit = %v
const hookInitFinished = %v
`, create >= 0, raceAfter, exit >= 0, inOrder)
	args := ""
	if create >= 0 {
		args = calls["newproc"][create]
	}
	switch args {
	case "", "__xgo_callback_on_create_g __xgo_curg __xgo_newg":
		out += "func createArgs(curg, newg *g) (*g, *g) { return curg, newg }\n"
	case "__xgo_callback_on_create_g __xgo_newg __xgo_curg":
		out += "func createArgs(curg, newg *g) (*g, *g) { return newg, curg }\n"
	default:
		return fmt.Errorf("unexpected arguments: %s", args)
	}
	if err := os.WriteFile(filepath.Join(w, "simrt", "placement.go"), []byte(out), 0644); err != nil {
		return err
	}
	// fields of _panic
	b, err := os.ReadFile(filepath.Join(goroot, "src", "runtime", "runtime2.go"))
	if err != nil {
		return err
	}
	m := regexp.MustCompile(`(?s)type _panic struct \{\n.*?\n\}\n`).Find(b)
	if m == nil {
		return fmt.Errorf("no _panic in runtime2.go")
	}
	return os.WriteFile(filepath.Join(w, "simrt", "panic_type.go"), append([]byte("package simrt\n\nimport \"unsafe\"\n\nvar _ unsafe.Pointer\n\n"), m...), 0644)
}

// norace marks every function of the simulated runtime as the real runtime is:
// not instrumented by the race detector.
func norace(src string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "xgo_trap.go", src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	var at []int
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			at = append(at, fset.Position(fd.Type.Func).Offset)
		}
	}
	for i := len(at) - 1; i >= 0; i-- {
		src = src[:at[i]] + "//go:norace\n" + src[at[i]:]
	}
	return src, nil
}

// simRuntime puts the seams into the copy of the xgo runtime module.
func simRuntime(w string) error {
	rt := filepath.Join(w, "runtime")
	yieldDirs := map[string]bool{
		"internal/trap": true, "internal/stack": true, "internal/runtime": true, "tls": true, "functab": true,
	}
	return filepath.Walk(rt, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(rt, path)
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, err := seam(path, b, yieldDirs[filepath.Dir(rel)], rel)
		if err != nil {
			return err
		}
		return os.WriteFile(path, out, 0644)
	})
}

type edit1 struct {
	at, to int
	text   string
}

func seam(path string, src []byte, yields bool, rel string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, c := range f.Comments {
		if c.Pos() < f.Package && strings.HasPrefix(c.List[0].Text, "//go:build ignore") {
			return src, nil
		}
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var eds []edit1
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	used := false
	keep := map[string]string{}
	if rel == "internal/runtime/runtime_link.go" {
		// the link file refers to the patched standard library
		for _, im := range f.Imports {
			if strings.Trim(im.Path.Value, `"`) == "runtime" {
				eds = append(eds, edit1{off(im.Pos()), off(im.End()), `runtime "verif.local/simrt"`})
			}
		}
	}
	repl := map[string]string{
		"sync.Mutex": "simk.Mutex", "sync.RWMutex": "simk.RWMutex", "sync.Once": "simk.Once",
		"time.Now": "simk.Now", "time.XgoRealNow": "simk.Now",
		"os.WriteFile": "simk.WriteFile", "os.MkdirAll": "simk.MkdirAll", "os.Stderr": "simk.Stderr", "ioutil.WriteFile": "simk.WriteFile",

	}
	keepExpr := map[string]string{"sync": "sync.Mutex{}", "time": "time.Second", "os": "os.Args", "ioutil": "ioutil.Discard"}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		p, ok := imports[x.Name]
		if !ok || (p != "sync" && p != "time" && p != "os" && p != "io/ioutil") {
			return true
		}
		base := p[strings.LastIndex(p, "/")+1:]
		if to, ok := repl[base+"."+se.Sel.Name]; ok {
			eds = append(eds, edit1{off(se.Pos()), off(se.End()), "__verif_" + to})
			used = true
			keep[x.Name] = strings.Replace(keepExpr[base], base+".", x.Name+".", 1)
		}
		return true
	})
	if yields {
		ast.Inspect(f, func(n ast.Node) bool {
			var list []ast.Stmt
			switch b := n.(type) {
			case *ast.FuncDecl:
				return true
			case *ast.BlockStmt:
				list = b.List
			case *ast.CaseClause:
				list = b.Body
			case *ast.CommClause:
				list = b.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
					continue
				case *ast.BranchStmt:
					continue
				}
				eds = append(eds, edit1{off(s.Pos()), off(s.Pos()), "__verif_simk.Y();"})
				used = true
			}
			return true
		})
	}
	if !used && len(eds) == 0 {
		return src, nil
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
	s := string(src)
	for _, e := range eds {
		s = s[:e.at] + e.text + s[e.to:]
	}
	if used {
		at := off(f.Name.End())
		s = s[:at] + `;import __verif_simk "verif.local/simk"` + s[at:]
	}
	var ks []string
	for _, k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += "\nvar _ = " + k + "\n"
	}
	if _, err := format.Source([]byte(s)); err != nil {
		return nil, fmt.Errorf("%s: seams do not parse: %v", path, err)
	}
	return []byte(s), nil
}
