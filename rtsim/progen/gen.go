package main

import (
	"fmt"
	"go/format"
	"regexp"
	"strings"
)

// class of a function.
const (
	cPure = iota // reads only
	cLoc         // may log; for goroutines
	cEff         // anything
)

type fun struct {
	name    string
	pkg     int
	recv    ty
	method  bool
	ptr     bool
	params  []ty
	vari    bool // last parameter is variadic
	results []ty
	class   int
	level   int
}

type ent struct {
	name string
	kind byte // v variable, c constant, f function, t type, i import
	t    ty
	pkg  int // of the package it belongs to; -1: local
	ro   bool
	own  bool // read uninstrumented
	lock bool // used under a lock only
	fn   *fun
	ct   string // local type: its literal's field type
}

type scope struct {
	up      *scope
	barrier bool // what lies beyond is not to be written
	m       map[string]*ent
}

func (s *scope) find(n string) *ent {
	for ; s != nil; s = s.up {
		if e := s.m[n]; e != nil {
			return e
		}
	}
	return nil
}

type pkg struct {
	name  string
	files []string
	extra func() string
	vars  []*ent
	cons  []*ent
	funs  []*fun
	top   *scope

	odd     []oddFile
	oddVars []oddVar
}

type prog struct {
	*rng
	pkgs   []*pkg
	prefix string
	chunks int
	entry  []*fun
	uid    int
	more   []oddFile
}

// body generates the text of one function.
type body struct {
	p       *prog
	pkg     int
	bname   string // what the file calls package b
	sc      *scope
	class   int
	level   int
	results []ty
	named   []string
	namedE  []*ent
	loops   int
	labels  []string
	closure int
	budget  int
	noChunk bool
	noRet   bool
	keepB   bool
	inits   bool // of package variables
}

func newProg(seed uint64, prefix string) *prog {
	p := &prog{rng: &rng{s: seed*0x9e3779b97f4a7c15 + 77}, prefix: prefix}
	p.makePkg(0)
	p.makePkg(1)
	p.odds(6)
	return p
}

func (p *prog) vname(k, i int) string {
	if k == 0 {
		return fmt.Sprintf("V%d", i)
	}
	return fmt.Sprintf("v%d", i)
}

func (p *prog) makePkg(pi int) {
	k := &pkg{name: []string{"b", "a"}[pi], top: &scope{m: map[string]*ent{}}}
	p.pkgs = append(p.pkgs, k)
	var f0, f1 strings.Builder
	// the types' file
	k.files = append(k.files, typesFile(k.name))
	for _, n := range []string{"MkIn", "MkT", "MkG", "Two"} {
		k.top.m[n] = &ent{name: n, kind: 'f', pkg: pi}
	}
	fx := func(name string, class int, params, results []ty) {
		f := &fun{name: name, pkg: pi, class: class, params: params, results: results}
		k.funs = append(k.funs, f)
		k.top.m[name] = &ent{name: name, kind: 'f', pkg: pi, fn: f}
	}
	fx("MkIn", cPure, []ty{{k: kInt}}, []ty{{kIn, pi}})
	fx("MkT", cPure, []ty{{k: kInt}}, []ty{{kT, pi}})
	fx("MkG", cPure, []ty{{k: kInt}}, []ty{{kGen, pi}})
	fx("Two", cPure, []ty{{k: kInt}}, []ty{{k: kInt}, {k: kStr}})
	pm := func(k2 kind, t ty) {
		k.funs = append(k.funs, &fun{name: "P", pkg: pi, method: true, ptr: true, recv: ty{k2, pi}, params: []ty{t}, class: cEff})
	}
	pm(kIn, ty{k: kInt})
	pm(kT, ty{k: kInt})
	pm(kNA, ty{k: kInt})
	pm(kGen, ty{k: kInt})
	bname := "b"
	if pi == 1 {
		bname = pick(p.rng, "b", "b", "b", "lib", "v1x")
	}
	fileScope := func(bn string) *scope {
		s := &scope{m: map[string]*ent{}}
		if pi == 1 {
			s.m[bn] = &ent{name: bn, kind: 'i', pkg: 0}
		}
		// package scope is the outermost one that matters: imports cannot clash with it
		s.up = k.top
		return s
	}
	head := func(bn string) string {
		h := "package " + k.name + "\n\nimport (\n\t\"sync\"\n\t\"verif.local/pt\"\n"
		if pi == 1 {
			al := ""
			if bn != "b" {
				al = bn + " "
			}
			h += "\t" + al + "\"" + p.prefix + "/b\"\n"
		}
		h += ")\n\nvar _ sync.Mutex\nvar _ = pt.Cut\n"
		if pi == 1 {
			h += "var _ " + bn + ".In\n"
		}
		return h
	}
	f0.WriteString(head(bname))
	p.constants(pi, &f0)
	p.variables(pi, &f0, fileScope(bname), bname)
	f0.WriteString("\nvar mu sync.Mutex\nvar total int\nvar tot Locked\n")
	k.top.m["mu"] = &ent{name: "mu", kind: 'v', pkg: pi, lock: true, ro: true, t: ty{k: nkinds}}
	k.top.m["total"] = &ent{name: "total", kind: 'v', pkg: pi, lock: true, ro: true, t: ty{k: nkinds}}
	k.top.m["tot"] = &ent{name: "tot", kind: 'v', pkg: pi, lock: true, ro: true, t: ty{k: nkinds}}
	bname2 := bname
	if pi == 1 {
		bname2 = pick(p.rng, "b", "b", "lib")
	}
	f1.WriteString(head(bname2))
	write := func(f *fun) {
		w, bn := &f0, bname
		if p.p(60) {
			w, bn = &f1, bname2
		}
		for try := 0; ; try++ {
			b := &body{p: p, pkg: pi, bname: bn, sc: fileScope(bn), class: f.class, level: f.level, keepB: try > 3}
			if s, ok := b.try(func() string { return b.fun(f) }); ok {
				w.WriteString("\n" + s)
				return
			}
		}
	}
	add := func(f *fun) {
		write(f)
		k.funs = append(k.funs, f)
		if !f.method {
			k.top.m[f.name].fn = f
		}
	}
	mk := func(class, level, i int) *fun {
		f := &fun{pkg: pi, class: class, level: level}
		f.name = fmt.Sprintf("%s%d_%d", []string{"Pu", "Lo", "Ef"}[class], level, i)
		if p.p(30) {
			f.method = true
			f.recv = ty{pick(p.rng, kT, kT, kIn, kNum, kNS, kNA), pi}
			f.ptr = class == cEff && p.p(60)
		} else {
			k.top.m[f.name] = &ent{name: f.name, kind: 'f', pkg: pi}
		}
		np := p.n(4)
		for i := 0; i < np; i++ {
			f.params = append(f.params, p.anyTy(pi))
		}
		if np > 0 && p.p(15) {
			f.vari = true
			f.params[np-1] = ty{k: pick(p.rng, kSl, kSlIn), pkg: pi}
			f.params[np-1] = norm(f.params[np-1])
		}
		nr := 1
		if class == cEff {
			nr = p.n(4)
		}
		for i := 0; i < nr; i++ {
			f.results = append(f.results, p.anyTy(pi))
		}
		return f
	}
	for lv := 1; lv <= 2; lv++ {
		for i := 0; i < 2; i++ {
			add(mk(cPure, lv, i))
		}
	}
	for i := 0; i < 2; i++ {
		add(mk(cLoc, 3, i))
	}
	for lv := 4; lv <= 6; lv++ {
		for i := 0; i < 2; i++ {
			add(mk(cEff, lv, i))
		}
	}
	for i := 0; i < 3; i++ {
		f := &fun{pkg: pi, class: cEff, level: 7, name: fmt.Sprintf("E%d", i), params: []ty{{k: kInt}, {k: kInt}}, results: []ty{{k: kInt}, {k: kStr}}}
		k.top.m[f.name] = &ent{name: f.name, kind: 'f', pkg: pi}
		add(f)
		if pi == 1 {
			p.entry = append(p.entry, f)
		}
	}
	if p.p(60) {
		b := &body{p: p, pkg: pi, bname: bname2, sc: fileScope(bname2), class: cLoc, level: 3, budget: 6, noChunk: true, noRet: true}
		b.push()
		f1.WriteString("\nfunc init() {\n" + b.stmts(1, 3) + "}\n")
	}
	k.files = append(k.files, f0.String(), f1.String())
	for i, f := range k.files {
		if out, err := format.Source([]byte(f)); err == nil {
			k.files[i] = string(out)
		}
	}
	k.extra = func() string { return p.extra(pi) }
}

func (p *prog) extra(pi int) string {
	k := p.pkgs[pi]
	var s strings.Builder
	fmt.Fprintf(&s, "package %s\n\nimport \"verif.local/pt\"\n\n", k.name)
	fmt.Fprintf(&s, "var PtVars = []pt.Var{\n")
	for _, v := range k.vars {
		fmt.Fprintf(&s, "\t{%q, &%s, %v},\n", k.name+"."+v.name, v.name, v.ro && !v.own)
	}
	for _, v := range k.oddVars {
		fmt.Fprintf(&s, "\t{%q, &%s, %v},\n", k.name+"."+v.name, v.name, v.ro)
	}
	fmt.Fprintf(&s, "\t{%q, &total, false},\n\t{%q, &tot.N, false},\n}\n", k.name+".total", k.name+".tot")
	if pi == 1 {
		fmt.Fprintf(&s, "\nvar PtEntries = []func(int, int) (int, string){")
		for _, f := range p.entry {
			s.WriteString(f.name + ", ")
		}
		fmt.Fprintf(&s, "}\n\nconst PtChunks = %d\n", p.chunks)
	}
	return s.String()
}

func (p *prog) anyTy(pi int) ty {
	t := ty{k: kind(p.n(int(nkinds)))}
	if p.p(35) {
		t.k = pick(p.rng, kInt, kInt, kStr, kBool)
	}
	if pi == 1 && p.p(60) {
		t.pkg = 1
	}
	return norm(t)
}

// --- constants and variables ---

func (p *prog) constants(pi int, w *strings.Builder) {
	k := p.pkgs[pi]
	n := 3 + p.n(4)
	w.WriteString("\n")
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", []string{"C", "c"}[pi], i)
		t := ty{k: pick(p.rng, kInt, kInt, kStr, kF64, kRune, kNum, kBool)}
		if pi == 1 {
			t.pkg = 1
		}
		t = norm(t)
		var v string
		typed := p.p(40) || t.k == kNum
		var prev []string
		for _, c := range k.cons {
			if c.t == t && t.k == kInt {
				prev = append(prev, c.name)
			}
		}
		switch t.k {
		case kInt:
			v = pick(p.rng, fmt.Sprint(1+p.n(9)), "1 << 3", "0x1f", "3*2 + 1", "len(\"abcd\")", "-7", "2 * (3 + 4)", "10 / 4", "7 % 4", "^3")
			if len(prev) > 0 && p.p(40) {
				v = pick(p.rng, prev...) + pick(p.rng, " + 2", " * 3", " - 1", " << 1", " | 9")
			}
		case kStr:
			v = pick(p.rng, `"c"`, `"x" + "y"`, "`raw`", `""`)
		case kF64:
			v = pick(p.rng, "1.5", "2.0", "1e3", "1.5 * 2", "7 / 2.0")
		case kRune:
			v = pick(p.rng, "'a'", "'z' - 1", "'b' + 1")
		case kNum:
			v = pick(p.rng, "5", "3 << 2")
		case kBool:
			v = pick(p.rng, "true", "1 > 2", "!false")
		}
		if t.k == kBool && v == "1 > 2" {
			typed = false
		}
		k.cons = append(k.cons, &ent{name: name, kind: 'c', t: t, pkg: pi})
		k.top.m[name] = k.cons[len(k.cons)-1]
		if typed {
			fmt.Fprintf(w, "const %s %s = %s\n", name, t.str(pi), v)
		} else {
			fmt.Fprintf(w, "const %s = %s\n", name, v)
		}
	}
	// iota
	var names []string
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("%s%d", []string{"K", "k"}[pi], i)
		names = append(names, name)
		c := &ent{name: name, kind: 'c', t: ty{k: kInt}, pkg: pi}
		k.cons = append(k.cons, c)
		k.top.m[name] = c
	}
	fmt.Fprintf(w, "const (\n\t%s = iota%s\n\t%s\n\t%s\n)\n", names[0], pick(p.rng, "", " + 1", " * 10", "<<2 + 1"), names[1], names[2])
}

func (p *prog) variables(pi int, w *strings.Builder, fs *scope, bname string) {
	k := p.pkgs[pi]
	n := 14 + p.n(8)
	i := 0
	grouped := false
	mkb := func() *body {
		b := &body{p: p, pkg: pi, bname: bname, sc: fs, class: cPure, level: 1, keepB: true, inits: true}
		return b
	}
	reg := func(name string, t ty) *ent {
		e := &ent{name: name, kind: 'v', t: t, pkg: pi, ro: p.p(35)}
		k.vars = append(k.vars, e)
		k.top.m[name] = e
		return e
	}
	w.WriteString("\n")
	start := w.Len()
	for i < n {
		if !grouped && p.p(15) {
			w.WriteString("var (\n")
			grouped = true
		} else if grouped && p.p(35) {
			w.WriteString(")\n")
			grouped = false
		}
		v := ""
		if !grouped {
			v = "var "
		}
		b := mkb()
		t := p.anyTy(pi)
		if i < 6 {
			t = norm(ty{[]kind{kInt, kT, kSl, kMap, kPT, kStr}[i], pi})
		}
		name := p.vname(pi, i)
		switch x := p.n(10); {
		case x < 4: // inferred
			fmt.Fprintf(w, "%s%s = %s\n", v, name, b.typedInit(t))
			reg(name, t)
			i++
		case x < 7:
			fmt.Fprintf(w, "%s%s %s = %s\n", v, name, t.str2(pi, bname), b.expr(t, 2))
			reg(name, t)
			i++
		case x < 8: // zero value
			switch t.k {
			case kInt, kStr, kBool, kF64, kRune, kNum, kIn, kArr, kArIn, kGen, kNA:
				if p.p(30) {
					n2 := p.vname(pi, i+1)
					fmt.Fprintf(w, "%s%s, %s %s\n", v, name, n2, t.str2(pi, bname))
					reg(name, t)
					reg(n2, t)
					i += 2
				} else {
					fmt.Fprintf(w, "%s%s %s\n", v, name, t.str2(pi, bname))
					reg(name, t)
					i++
				}
			default:
				fmt.Fprintf(w, "%s%s = %s\n", v, name, b.typedInit(t))
				reg(name, t)
				i++
			}
		case x < 9:
			t2 := p.anyTy(pi)
			n2 := p.vname(pi, i+1)
			fmt.Fprintf(w, "%s%s, %s = %s, %s\n", v, name, n2, b.typedInit(t), b.typedInit(t2))
			reg(name, t)
			reg(n2, t2)
			i += 2
		default:
			n2 := p.vname(pi, i+1)
			fmt.Fprintf(w, "%s%s, %s = Two(%d)\n", v, name, n2, p.n(9))
			reg(name, ty{k: kInt})
			reg(n2, ty{k: kStr})
			i += 2
		}
	}
	if grouped {
		w.WriteString(")\n")
	}
	// function literals of initial values read the variables themselves,
	// not what they are mocked with
	for _, l := range strings.Split(w.String()[start:], "\n") {
		if !strings.Contains(l, "func(") {
			continue
		}
		for _, n := range word.FindAllString(l, -1) {
			for i, q := range p.pkgs {
				if q == nil || i == 1 && pi == 0 {
					continue
				}
				for _, e := range q.vars {
					if e.name == n {
						e.own = true
					}
				}
			}
		}
	}
}

var word = regexp.MustCompile(`\w+`)

func (t ty) str2(pi int, bname string) string {
	s := t.str(pi)
	if t.pkg != pi && t.named() {
		s = strings.Replace(s, "b.", bname+".", 1)
	}
	return s
}

// typedInit is an initial value that has type t by itself.
func (b *body) typedInit(t ty) string {
	s := b.expr(t, 2)
	switch t.k {
	case kF64, kRune, kIfc, kAny, kErr, kFn, kNum, kStr, kBool, kInt:
		if b.untyped(s) || t.k == kIfc || t.k == kAny || t.k == kFn || t.k == kErr {
			return b.ts(t, true) + "(" + s + ")"
		}
	}
	return s
}

func (b *body) ts(t ty, paren ...bool) string {
	s := t.str2(b.pkg, b.bname)
	if len(paren) > 0 && (t.k == kFn || strings.HasPrefix(s, "*")) {
		return "(" + s + ")"
	}
	return s
}

// untyped: cannot be sure that the text has the wanted type.
func (b *body) untyped(s string) bool { return true }

// --- scopes and names ---

type giveUp struct{}

// try runs a generator that may find that there is no way.
func (b *body) try(f func() string) (s string, ok bool) {
	save := *b
	m := make(map[string]*ent, len(b.sc.m))
	for k, e := range b.sc.m {
		m[k] = e
	}
	defer func() {
		if e := recover(); e != nil {
			if _, y := e.(giveUp); !y {
				panic(e)
			}
			*b = save
			b.sc.m = m
			s, ok = "", false
		}
	}()
	return f(), true
}

func (b *body) push() { b.sc = &scope{up: b.sc, m: map[string]*ent{}} }
func (b *body) pop()  { b.sc = b.sc.up }

func (b *body) declare(name string, t ty) *ent {
	e := &ent{name: name, kind: 'v', t: t, pkg: -1}
	b.sc.m[name] = e
	return e
}

// newName is a name for a local that the current scope does not declare yet.
func (b *body) newName(used ...string) string {
	k := b.p.pkgs[b.pkg]
	for {
		var n string
		switch x := b.p.n(100); {
		case x < 50 && len(k.vars) > 0:
			n = k.vars[b.p.n(len(k.vars))].name
		case x < 56 && len(k.cons) > 0:
			n = k.cons[b.p.n(len(k.cons))].name
		case x < 61 && len(k.funs) > 8:
			n = k.funs[8+b.p.n(len(k.funs)-8)].name
		case x < 65 && b.pkg == 1 && !b.keepB:
			n = b.bname
		default:
			n = pick(b.p.rng, "x", "y", "z", "i", "n", "s", "q")
			if b.p.p(30) {
				n = fmt.Sprintf("%s%d", n, b.p.n(4))
			}
		}
		bad := b.sc.m[n] != nil
		for _, u := range used {
			if u == n {
				bad = true
			}
		}
		if bad {
			b.p.uid++
			n = fmt.Sprintf("u%d", b.p.uid)
		}
		return n
	}
}

func (b *body) hasB() bool {
	e := b.sc.find(b.bname)
	return e != nil && e.kind == 'i'
}

// can tells whether type t can be written here.
func (b *body) can(t ty) bool {
	t = norm(t)
	return !t.named() || t.pkg == b.pkg || b.hasB()
}

func (b *body) someTy() ty {
	for {
		t := b.p.anyTy(b.pkg)
		if b.can(t) {
			return t
		}
	}
}

type ref struct {
	text     string
	t        ty
	addr     bool // addressable
	writable bool // assignment allowed
	noaddr   bool // must not take its address
}

// refs lists the variables in sight.
func (b *body) refs() []ref {
	var out []ref
	seen := map[string]bool{}
	beyond := false
	for s := b.sc; s != nil; s = s.up {
		var names []string
		for n := range s.m {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			e := s.m[n]
			if seen[n] {
				continue
			}
			seen[n] = true
			switch e.kind {
			case 'v':
				if e.lock {
					continue
				}
				loc := e.pkg < 0
				w := !e.ro && (loc && !beyond || !loc && b.class == cEff)
				out = append(out, ref{n, e.t, true, w, !w && !b.inits})
			case 'c':
				if e.t.k == kInt || e.t.k == kNum && b.can(e.t) {
					out = append(out, ref{n, e.t, false, false, true})
				}
			}
		}
		if s.barrier {
			beyond = true
		}
	}
	if b.pkg == 1 && b.hasB() {
		for _, e := range b.p.pkgs[0].vars {
			w := !e.ro && b.class == cEff
			out = append(out, ref{b.bname + "." + e.name, e.t, true, w, !w})
		}
		for _, e := range b.p.pkgs[0].cons {
			if e.t.k == kInt {
				out = append(out, ref{b.bname + "." + e.name, e.t, false, false, true})
			}
		}
	}
	return out
}

// step applies an accessor.
func (b *body) step(r ref, a acc) ref {
	to := norm(ty{a.to, r.t.pkg})
	out := ref{text: a.apply(r.text), t: to, noaddr: r.noaddr, writable: r.writable}
	switch {
	case a.yes:
		out.addr = true
		out.writable = r.writable && b.class == cEff
		out.noaddr = r.noaddr || b.class != cEff
	case a.keep:
		out.addr = r.addr
		out.writable = r.writable && r.addr
	case a.set:
		out.writable = r.writable && b.class == cEff
	default:
		out.writable = false
	}
	return out
}

// paths of up to two steps from the variables in sight to a value of type t.
func (b *body) paths(ok func(r ref) bool) []ref {
	var out []ref
	for _, r := range b.refs() {
		if ok(r) {
			out = append(out, r)
		}
		for _, a := range access(r.t.k) {
			x := b.step(r, a)
			if ok(x) {
				out = append(out, x)
			}
			if strings.Contains(x.text, "func") {
				continue
			}
			for _, a2 := range access(x.t.k) {
				y := b.step(x, a2)
				if ok(y) {
					out = append(out, y)
				}
			}
		}
	}
	return out
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
