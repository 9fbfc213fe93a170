package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// simPrograms puts the generated programs of a directory, instrumented or not,
// on the simulated scheduler.
func simPrograms(dir string) error {
	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			// the build reports it
			fmt.Println("does not parse:", err)
			return nil
		}
		t := &progTr{fset: fset, src: src}
		for _, s := range f.Imports {
			if s.Path.Value == `"sync"` {
				lit := `"verif.local/pt/psync"`
				if s.Name == nil {
					lit = "sync " + lit
				}
				t.repl(s.Path.Pos(), s.Path.End(), lit)
			}
		}
		for _, d := range f.Decls {
			ast.Inspect(d, t.visit)
		}
		if t.used {
			t.ins(f.Name.End(), `;import __verif_psys "verif.local/pt/psys"`)
		}
		return os.WriteFile(path, t.apply(), 0644)
	})
}

type progEdit struct {
	from, to int
	text     string
	seq      int
}

type progTr struct {
	fset  *token.FileSet
	src   []byte
	edits []progEdit
	used  bool
	n     int
}

func (t *progTr) off(p token.Pos) int { return t.fset.PositionFor(p, false).Offset }

func (t *progTr) repl(from, to token.Pos, s string) {
	t.edits = append(t.edits, progEdit{t.off(from), t.off(to), s, len(t.edits)})
}

func (t *progTr) ins(at token.Pos, s string) { t.repl(at, at, s) }

func (t *progTr) sys(name string) string {
	t.used = true
	return "__verif_psys." + name
}

func (t *progTr) apply() []byte {
	sort.SliceStable(t.edits, func(i, j int) bool {
		a, b := t.edits[i], t.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range t.edits {
		if e.from < at {
			continue
		}
		out.Write(t.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(t.src[at:])
	return out.Bytes()
}

func progRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (t *progTr) recv(u *ast.UnaryExpr, name string) {
	t.repl(u.Pos(), u.OpPos+2, t.sys(name)+"(")
	ast.Inspect(u.X, t.visit)
	t.ins(u.X.End(), ")")
}

func (t *progTr) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := progRecv(n.Rhs[0]); u != nil {
				t.recv(u, "Recv2")
				return false
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			t.recv(n, "Recv")
			return false
		}
	case *ast.SendStmt:
		t.ins(n.Pos(), t.sys("Send")+"(")
		ast.Inspect(n.Chan, t.visit)
		t.repl(n.Arrow, n.Arrow+2, ")(")
		ast.Inspect(n.Value, t.visit)
		t.ins(n.Value.End(), ")")
		return false
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
			t.repl(id.Pos(), id.End(), t.sys("Close"))
		}
	case *ast.GoStmt:
		c := n.Call
		if _, lit := c.Fun.(*ast.FuncLit); lit && len(c.Args) == 0 {
			t.repl(n.Go, c.Fun.Pos(), t.sys("Go")+"(")
			ast.Inspect(c.Fun, t.visit)
			t.repl(c.Lparen, c.Rparen+1, ")")
			return false
		}
		name := "GoCall"
		if c.Ellipsis.IsValid() {
			name = "GoCallSlice"
		}
		t.repl(n.Go, c.Fun.Pos(), t.sys(name)+"(")
		ast.Inspect(c.Fun, t.visit)
		if len(c.Args) == 0 {
			t.repl(c.Lparen, c.Lparen+1, "")
		} else {
			t.repl(c.Lparen, c.Lparen+1, ", ")
		}
		for _, a := range c.Args {
			ast.Inspect(a, t.visit)
		}
		if c.Ellipsis.IsValid() {
			t.repl(c.Ellipsis, c.Ellipsis+3, "")
		}
		return false
	case *ast.SelectStmt:
		t.selectStmt(n)
		return false
	case *ast.BlockStmt:
		t.block(n.List)
	case *ast.CaseClause:
		t.block(n.Body)
	}
	return true
}

// block puts a preemption point before each statement.
func (t *progTr) block(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		t.ins(s.Pos(), t.sys("Y")+"();")
	}
}

func (t *progTr) text(n ast.Node) string { return string(t.src[t.off(n.Pos()):t.off(n.End())]) }

func (t *progTr) selectStmt(n *ast.SelectStmt) {
	var vars, exprs []string
	def := false
	type clause struct {
		c    *ast.CommClause
		head string
	}
	var cs []clause
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			cs = append(cs, clause{c, "case -1:"})
			continue
		}
		t.n++
		v := "verif" + strconv.Itoa(t.n)
		vars = append(vars, v)
		h := "case " + strconv.Itoa(i) + ": "
		i++
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, t.sys("SC")+"("+t.text(m.Chan)+")("+t.text(m.Value)+")")
		case *ast.ExprStmt:
			exprs = append(exprs, t.sys("RC")+"("+t.text(progRecv(m.X).X)+")")
		case *ast.AssignStmt:
			exprs = append(exprs, t.sys("RC")+"("+t.text(progRecv(m.Rhs[0]).X)+")")
			h += t.text(m.Lhs[0])
			tok := m.Tok.String()
			if len(m.Lhs) == 2 {
				h += ", " + t.text(m.Lhs[1]) + " " + tok + " " + v + ".V, " + v + ".OK; "
			} else {
				h += " " + tok + " " + v + ".V; "
			}
		}
		cs = append(cs, clause{c, h})
	}
	h := "switch "
	if len(vars) > 0 {
		h += strings.Join(vars, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	h += t.sys("Sel") + "(" + strconv.FormatBool(def)
	for _, v := range vars {
		h += ", " + v
	}
	h += ") {"
	t.repl(n.Select, n.Body.Lbrace+1, h)
	for _, c := range cs {
		t.repl(c.c.Case, c.c.Colon+1, c.head)
		t.block(c.c.Body)
		for _, s := range c.c.Body {
			ast.Inspect(s, t.visit)
		}
	}
}
