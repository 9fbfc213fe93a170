package main

import (
	"fmt"
	"strings"
)

// odd is a piece of code that uses less common parts of the language around
// package variables and function signatures. @ stands for a number that is
// unique in the program, «x¦y» for one of the alternatives.
type odd struct {
	name string
	b, a string            // declarations in the two packages
	body string            // of the entry, func(x, y int) (int, string), in a
	more map[string]string // further files: PREFIX is the program's import path
	vars string            // variables the entry's outcome may depend on; ! is for one that is read only
}

// alternatives picks one of each «x¦y».
func alternatives(s string, choose func(n int) int) string {
	for {
		i, j := strings.Index(s, "«"), strings.Index(s, "»")
		if i < 0 {
			return s
		}
		parts := strings.Split(s[i+len("«"):j], "¦")
		s = s[:i] + parts[choose(len(parts))] + s[j+len("»"):]
	}
}

// odds adds n of the pieces to the program.
func (p *prog) odds(n int) {
	var perm []int
	for i := range oddities {
		perm = append(perm, i)
	}
	for i := 0; i < n && i < len(perm); i++ {
		j := i + p.n(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
		p.addOdd(i, oddities[perm[i]], p.n)
	}
}

func (p *prog) addOdd(id int, o odd, choose func(int) int) {
	num := fmt.Sprintf("%d_", id)
	sub := func(s string) string { return strings.ReplaceAll(alternatives(s, choose), "@", num) }
	for pi, s := range []string{o.b, o.a} {
		if pi == 0 && s == "" {
			continue
		}
		s = strings.ReplaceAll(sub(s), "PREFIX", p.prefix)
		imports := "import \"verif.local/pt\"\n"
		uses := "\nvar _ = pt.Cut\n"
		if pi == 1 {
			imports += "import \"" + p.prefix + "/b\"\n"
			uses += "\nvar _ b.In\n"
		}
		i := 0
		for strings.HasPrefix(strings.TrimLeft(s[i:], "\n"), "import ") {
			l := len(s[i:]) - len(strings.TrimLeft(s[i:], "\n"))
			i += l + strings.Index(s[i+l:], "\n") + 1
		}
		text := "package " + p.pkgs[pi].name + "\n\n" + imports + s[:i] + uses + s[i:]
		if pi == 1 {
			text += "\nfunc O" + num + "(x, y int) (int, string) {\n" + sub(o.body) + "}\n"
		}
		p.pkgs[pi].odd = append(p.pkgs[pi].odd, oddFile{fmt.Sprintf("odd%d.go", id), text})
	}
	for n, s := range o.more {
		s = strings.ReplaceAll(sub(s), "PREFIX", p.prefix)
		p.more = append(p.more, oddFile{strings.ReplaceAll(n, "@", num), strings.TrimLeft(s, "\n")})
	}
	p.entry = append(p.entry, &fun{name: "O" + num})
	for _, v := range strings.Fields(sub(o.vars)) {
		ro := strings.HasSuffix(v, "!")
		v = strings.TrimSuffix(v, "!")
		pi := 1
		if strings.HasPrefix(v, "b.") {
			pi, v = 0, v[2:]
		}
		p.pkgs[pi].oddVars = append(p.pkgs[pi].oddVars, oddVar{v, ro})
	}
}

type oddFile struct{ name, text string }

type oddVar struct {
	name string
	ro   bool
}
