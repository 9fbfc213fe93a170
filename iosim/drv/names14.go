package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// fileNames is what a file declares and what it needs from elsewhere.
type fileNames struct {
	bad     bool
	pkg     string
	imports map[string]string // name: path
	needs   map[string]bool   // of the package, or an import
	sels    map[string]bool   // path/name
	decls   map[string]bool
	double  string
}

var namesCache14 = map[string]*fileNames{}

var version14 = regexp.MustCompile(`^v[0-9]+$`)

func names14(content string) *fileNames {
	if f := namesCache14[content]; f != nil {
		return f
	}
	if len(namesCache14) > 3000 {
		namesCache14 = map[string]*fileNames{}
	}
	r := &fileNames{imports: map[string]string{}, needs: map[string]bool{}, sels: map[string]bool{}, decls: map[string]bool{}}
	namesCache14[content] = r
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", content, 0)
	if err != nil {
		r.bad = true
		return r
	}
	r.pkg = f.Name.Name
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := path.Base(p)
		if version14.MatchString(n) {
			n = path.Base(path.Dir(p))
		}
		if i.Name != nil {
			n = i.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		if r.imports[n] != "" {
			r.double = n
		}
		r.imports[n] = p
	}
	unresolved := map[*ast.Ident]bool{}
	for _, x := range f.Unresolved {
		unresolved[x] = true
		if types.Universe.Lookup(x.Name) == nil {
			r.needs[x.Name] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := e.X.(*ast.Ident); ok && unresolved[x] && r.imports[x.Name] != "" {
				r.sels[r.imports[x.Name]+"/"+e.Sel.Name] = true
			}
		}
		return true
	})
	decl := func(n string) {
		if n == "_" || n == "init" {
			return
		}
		if r.decls[n] {
			r.double = n
		}
		r.decls[n] = true
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				decl(d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						decl(n.Name)
					}
				case *ast.TypeSpec:
					decl(s.Name.Name)
				}
			}
		}
	}
	return r
}

// undeclared tells of a name in what is built that would not compile and
// that is not in the files as the user wrote them.
func undeclared(built, plain map[string]string) string {
	type pkg struct {
		decls map[string]string
		names []string // of the files
	}
	pkgs := map[string]*pkg{} // directory and package
	dirs := map[string]bool{}
	var files []string
	for k := range built {
		if strings.HasSuffix(k, ".go") && path.Dir(k) != "." {
			files = append(files, k)
		}
	}
	sort.Strings(files)
	for _, k := range files {
		f := names14(built[k])
		if f.bad {
			if s, ok := plain[k]; ok && !names14(s).bad {
				return k + " is no longer valid"
			}
			continue
		}
		dirs[path.Dir(k)] = true
		p := pkgs[path.Dir(k)+" "+f.pkg]
		if p == nil {
			p = &pkg{decls: map[string]string{}}
			pkgs[path.Dir(k)+" "+f.pkg] = p
		}
		old := names14(plain[k])
		if f.double != "" && old.double == "" {
			return f.double + " is declared twice in " + k
		}
		for n := range f.decls {
			if o := p.decls[n]; o != "" && (!old.decls[n] || !names14(plain[o]).decls[n]) {
				return n + " is declared in " + o + " and " + k
			}
			p.decls[n] = k
		}
	}
	for _, k := range files {
		f := names14(built[k])
		old := names14(plain[k])
		if f.bad || built[k] == plain[k] || !strings.Contains(strings.Split(k, "/")[0], ".") {
			continue
		}
		p := pkgs[path.Dir(k)+" "+f.pkg]
		for _, n := range keys14(f.needs) {
			if !old.needs[n] && f.imports[n] == "" && p.decls[n] == "" {
				return n + " of " + k + " is not declared"
			}
		}
		for _, n := range keys14(f.imports2()) {
			if !f.needs[n] && (old.imports[n] == "" || old.needs[n]) {
				return "the import " + n + " of " + k + " is not used"
			}
		}
		for _, s := range keys14(f.sels) {
			d := path.Dir(s)
			if old.sels[s] || !dirs[d] || !strings.Contains(d, ".") {
				continue
			}
			has := false
			for q, p := range pkgs {
				has = has || strings.HasPrefix(q, d+" ") && !strings.HasSuffix(q, "_test") && p.decls[path.Base(s)] != "" && !strings.HasSuffix(p.decls[path.Base(s)], "_test.go")
			}
			if !has {
				return k + " uses " + s + ", which is not declared"
			}
		}
	}
	return ""
}

func (f *fileNames) imports2() map[string]bool {
	r := map[string]bool{}
	for n := range f.imports {
		r[n] = true
	}
	return r
}

func keys14(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
