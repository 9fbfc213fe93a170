package main

import (
	"fmt"
	"strings"
)

// fun is the text of a function.
func (b *body) fun(f *fun) string {
	b.push()
	var s strings.Builder
	s.WriteString("func ")
	if f.method {
		st := ""
		if f.ptr {
			st = "*"
		}
		t := f.recv
		if f.ptr && t.k == kT {
			t.k = kPT
		} else if f.ptr && t.k == kIn {
			t.k = kPIn
		}
		rt := f.recv.str2(b.pkg, b.bname)
		if b.p.p(10) {
			s.WriteString("(" + pick(b.p.rng, "", "_ ") + st + rt + ") ")
		} else {
			n := b.newName()
			s.WriteString("(" + n + " " + st + rt + ") ")
			if !f.ptr || t.k != f.recv.k {
				b.declare(n, t)
			} else {
				b.sc.m[n] = &ent{name: n, kind: 'l'}
			}
		}
	}
	s.WriteString(f.name + "(")
	anon := len(f.params) > 0 && b.p.p(5)
	types := make([]string, len(f.params))
	for i, t := range f.params {
		types[i] = b.ts2(t)
		if f.vari && i == len(f.params)-1 {
			types[i] = "..." + strings.TrimPrefix(types[i], "[]")
		}
	}
	var rtypes []string
	for _, t := range f.results {
		rtypes = append(rtypes, b.ts2(t))
	}
	var pre string
	for i, t := range f.params {
		if i > 0 {
			s.WriteString(", ")
		}
		if anon {
			s.WriteString(types[i])
			continue
		}
		n := "_"
		if !b.p.p(8) {
			n = b.newName()
			b.declare(n, t)
		}
		if i+1 < len(f.params) && f.params[i+1] == t && !(f.vari && i+1 == len(f.params)-1) && n != "_" && b.p.p(50) {
			s.WriteString(n) // joined with the next
			if i+1 < len(f.params) {
				continue
			}
		}
		s.WriteString(n + " " + types[i])
	}
	s.WriteString(") ")
	b.results = f.results
	b.named, b.namedE = nil, nil
	if len(f.results) > 0 && b.p.p(45) {
		s.WriteString("(")
		for i, t := range f.results {
			if i > 0 {
				s.WriteString(", ")
			}
			n := b.newName()
			b.namedE = append(b.namedE, b.declare(n, t))
			b.named = append(b.named, n)
			s.WriteString(n + " " + rtypes[i])
		}
		s.WriteString(") ")
		for i := range b.named {
			if nilable(f.results[i]) {
				b.namedE[i].kind = 'l'
			}
		}
		for i, n := range b.named {
			if nilable(f.results[i]) {
				pre += n + " = " + b.expr(f.results[i], 0) + "\n"
				b.namedE[i].kind = 'v'
			}
		}
	} else if len(f.results) == 1 {
		s.WriteString(rtypes[0] + " ")
	} else if len(f.results) > 1 {
		s.WriteString("(" + strings.Join(rtypes, ", ") + ") ")
	}
	s.WriteString("{\n" + pre)
	switch f.class {
	case cPure:
		b.budget = 3
		b.noChunk = true
		if b.p.p(70) {
			s.WriteString(b.stmts(1, 1+b.p.n(2)))
		}
	case cLoc:
		b.budget = 6
		b.noChunk = true
		s.WriteString(b.stmts(2, 2+b.p.n(3)))
	case cEff:
		b.budget = 16
		s.WriteString("if pt.Out() {\nreturn " + b.leaf() + "\n}\n")
		if b.p.p(45) {
			s.WriteString(b.recovering())
		}
		s.WriteString(b.stmts(2, 4+b.p.n(5)))
	}
	if len(f.results) > 0 {
		s.WriteString("return " + b.retVals(2) + "\n")
	}
	s.WriteString("}\n")
	b.pop()
	return s.String()
}

// ts2 is the type's text, or no way if it cannot be written here.
func (b *body) ts2(t ty) string {
	if !b.can(t) {
		panic(giveUp{})
	}
	return b.ts(t)
}

func nilable(t ty) bool {
	switch t.k {
	case kPIn, kT, kPT, kSl, kSlIn, kMap, kFn, kIfc, kNS, kAny, kPInt, kErr:
		return true
	}
	return false
}

// fix replaces a value that a failed call left unset.
func (b *body) fix(n string, t ty) string {
	def := func() string {
		if e := b.sc.find(n); e != nil && e.kind == 'v' {
			e.kind = 'l'
			defer func() { e.kind = 'v' }()
		}
		return b.freshOrRef(t)
	}
	switch t.k {
	case kPIn, kPT, kMap, kFn, kIfc, kAny, kPInt, kErr:
		return "if " + n + " == nil {\n" + n + " = " + def() + "\n}\n"
	case kT:
		return "if " + n + ".PI == nil {\n" + n + " = " + def() + "\n}\n"
	case kSl:
		return "if len(" + n + ") < 3 {\n" + n + " = " + def() + "\n}\n"
	case kSlIn, kNS:
		return "if len(" + n + ") < 2 {\n" + n + " = " + def() + "\n}\n"
	}
	return ""
}

func (b *body) freshOrRef(t ty) string { return b.expr(t, 0) }

func (b *body) leaf() string {
	if b.named != nil && b.p.p(50) {
		return ""
	}
	var s []string
	for _, t := range b.results {
		s = append(s, b.expr(t, 0))
	}
	return strings.Join(s, ", ")
}

func (b *body) retVals(d int) string {
	if b.named != nil && b.p.p(50) {
		for i, n := range b.named {
			if b.sc.find(n) != b.namedE[i] {
				goto list
			}
		}
		// a bare return needs the results unshadowed: only sure at the top
		if b.closure == 0 && b.topLevel() {
			return ""
		}
	}
list:
	var s []string
	for _, t := range b.results {
		s = append(s, b.expr(t, d))
	}
	return strings.Join(s, ", ")
}

func (b *body) topLevel() bool { return b.loops == 0 && b.sc.up != nil && b.sc.m[b.named[0]] != nil }

func (b *body) recovering() string {
	var s strings.Builder
	s.WriteString("defer func() {\n")
	b.push()
	b.closure++
	if b.p.p(85) {
		n := b.newName()
		s.WriteString("if " + n + " := recover(); " + n + " != nil {\n")
		b.push()
		b.sc.m[n] = &ent{name: n, kind: 'l'}
		s.WriteString("pt.Log(pt.Panic(" + n + "))\n")
		for i, r := range b.named {
			if b.sc.find(r) == b.namedE[i] && b.p.p(60) {
				s.WriteString(r + " = " + b.expr(b.results[i], 1) + "\n")
			}
		}
		b.pop()
		s.WriteString("}\n")
	}
	save, nr := b.results, b.noRet
	b.noRet = true
	s.WriteString(b.stmts(0, 1))
	b.results, b.noRet = save, nr
	b.closure--
	b.pop()
	s.WriteString("}()\n")
	return s.String()
}

// stmts writes n statements in the current scope.
func (b *body) stmts(d, n int) string {
	var s strings.Builder
	for i := 0; i < n; i++ {
		if b.budget <= 0 {
			break
		}
		b.budget--
		x, ok := b.try(func() string { return b.stmt(d) })
		if !ok {
			continue
		}
		s.WriteString(x)
	}
	return s.String()
}

// chunk lets a run leave statements out.
func (b *body) chunk(f func() string) string {
	if b.noChunk || b.class != cEff {
		return f()
	}
	b.push()
	b.p.chunks++
	id := b.p.chunks
	x := f()
	b.pop()
	return fmt.Sprintf("if pt.On(%d) {\n%s}\n", id-1, x)
}

func (b *body) block(d, n int) string {
	b.push()
	s := b.stmts(d, n)
	b.pop()
	return "{\n" + s + "}"
}

func (b *body) log() string {
	if b.class == cPure {
		return ""
	}
	var a []string
	for i := 0; i < 1+b.p.n(2); i++ {
		t := b.someTy()
		if t.k == kFn {
			t = ty{k: kInt}
		}
		a = append(a, b.expr(t, 2))
	}
	return "pt.Log(" + strings.Join(a, ", ") + ")\n"
}

func (b *body) stmt(d int) string {
	p := b.p
	for try := 0; try < 20; try++ {
		switch x := p.n(30); {
		case x < 4:
			return b.declStmt(d)
		case x < 6:
			if s := b.log(); s != "" {
				return s
			}
		case x < 9:
			if s := b.assign(d); s != "" {
				return s
			}
		case x < 11:
			if b.class == cEff {
				if s := b.effCall(d); s != "" {
					return b.maybeChunk(s)
				}
			}
		case x < 13 && d > 0:
			return b.chunk(func() string { return b.ifStmt(d) })
		case x < 15 && d > 0 && b.loops < 2:
			return b.chunk(func() string { return b.forStmt(d) })
		case x < 17 && d > 0 && b.loops < 2:
			return b.chunk(func() string { return b.rangeStmt(d) })
		case x < 19 && d > 0:
			return b.chunk(func() string { return b.switchStmt(d) })
		case x < 21 && d > 0:
			return b.chunk(func() string { return b.typeSwitch(d) })
		case x < 22 && d > 0:
			return b.block(d-1, 2) + "\n"
		case x < 23 && b.class == cEff && b.closure == 0 && b.loops == 0:
			return b.deferStmt(d)
		case x < 24 && b.class == cEff:
			return b.panicStmt(d)
		case x < 26 && d > 0 && b.class != cPure:
			return b.closureStmt(d)
		case x < 28 && d > 0 && b.class == cEff && b.loops < 2:
			return b.chunk(func() string { return "if pt.Par() {\n" + b.parStmt(d) + "}\n" })
		case x < 29 && b.class != cPure:
			return "pt.Line()\n"
		case x < 30 && d > 0 && b.class != cPure:
			return b.chunk(func() string { return b.selectStmt(d) })
		}
	}
	return ""
}

func (b *body) maybeChunk(s string) string {
	if b.noChunk || strings.Contains(s, ":=") || strings.Contains(s, "var ") {
		return s
	}
	b.p.chunks++
	return fmt.Sprintf("if pt.On(%d) {\n%s}\n", b.p.chunks-1, s)
}

func (b *body) declStmt(d int) string {
	p := b.p
	t := b.someTy()
	switch p.n(9) {
	case 0: // constant
		n := b.newName()
		ct := pick(p.rng, kInt, kStr, kNum)
		tt := norm(ty{ct, b.pkg})
		b.sc.m[n] = &ent{name: n, kind: 'c', t: tt, pkg: -1}
		switch ct {
		case kStr:
			return "const " + n + " = \"k\"\npt.Use(" + n + ")\n"
		case kNum:
			return "const " + n + " Num = 3 + 1\npt.Use(" + n + ")\n"
		}
		return "const " + n + pick(p.rng, "", " int", "") + " = " + fmt.Sprint(1+p.n(7)) + "\npt.Use(" + n + ")\n"
	case 1: // type
		n := b.newName()
		b.sc.m[n] = &ent{name: n, kind: 't', pkg: -1}
		e := b.expr(ty{k: kInt}, 1)
		n2 := b.newName(n)
		b.declare(n2, ty{k: kInt})
		f := pick(p.rng, "X", "Y")
		return "type " + n + " struct{ " + f + " int }\n" + n2 + " := " + n + "{" + pick(p.rng, f+": ", "") + e + "}." + f + "\n_ = " + n2 + "\n"
	case 2: // two at once
		t2 := b.someTy()
		e1, e2 := b.ts(t, true)+"("+b.expr(t, 2)+")", b.ts(t2, true)+"("+b.expr(t2, 1)+")"
		n1 := b.newName()
		n2 := b.newName(n1)
		b.declare(n1, t)
		b.declare(n2, t2)
		op := " := "
		if p.p(40) {
			return "var " + n1 + ", " + n2 + " = " + e1 + ", " + e2 + "\n_, _ = " + n1 + ", " + n2 + "\n"
		}
		return n1 + ", " + n2 + op + e1 + ", " + e2 + "\n_, _ = " + n1 + ", " + n2 + "\n"
	case 3: // group
		e := b.expr(t, 2)
		ts := b.ts(t)
		n := b.newName()
		b.declare(n, t)
		e2 := b.expr(ty{k: kInt}, 1)
		n2 := b.newName()
		b.declare(n2, ty{k: kInt})
		return "var (\n" + n + " " + ts + " = " + e + "\n" + n2 + " int = " + e2 + "\n)\n_, _ = " + n + ", " + n2 + "\n"
	case 4: // from a call with two results
		n1 := b.newName()
		n2 := b.newName(n1)
		if e := b.sc.find("Two"); e == nil || e.kind != 'f' {
			panic(giveUp{})
		}
		s := n1 + ", " + n2 + " := Two(" + b.expr(ty{k: kInt}, 1) + ")\n_, _ = " + n1 + ", " + n2 + "\n"
		b.declare(n1, ty{k: kInt})
		b.declare(n2, ty{k: kStr})
		return s
	case 5: // comma ok
		n1 := b.newName()
		n2 := b.newName(n1)
		var s string
		if p.p(50) {
			s = n1 + ", " + n2 + " := " + b.paren(ty{k: kMap}, 1) + "[" + b.expr(ty{k: kStr}, 1) + "]\n"
		} else {
			s = n1 + ", " + n2 + " := " + "interface{}(" + b.expr(ty{k: kAny}, 1) + ").(int)\n"
		}
		b.declare(n1, ty{k: kInt})
		b.declare(n2, ty{k: kBool})
		return s + "_, _ = " + n1 + ", " + n2 + "\n"
	}
	return strings.Replace(b.decl(t, 2), "; ", "\n", 1) + "\n"
}

// target is something to assign to.
func (b *body) target(ok func(t ty) bool) (ref, bool) {
	l := b.paths(func(r ref) bool { return r.writable && r.t.k != nkinds && ok(r.t) && b.can(r.t) })
	if len(l) == 0 {
		return ref{}, false
	}
	return l[b.p.n(len(l))], true
}

func (b *body) assign(d int) string {
	p := b.p
	switch p.n(6) {
	case 0:
		r, ok := b.target(func(t ty) bool { return t.k == kInt })
		if ok {
			return r.text + pick(p.rng, "++", "--", " += "+b.expr(r.t, 1), " *= 3", " ^= "+b.expr(r.t, 0), " -= "+b.expr(r.t, 2), " <<= 1") + "\n"
		}
	case 1:
		// independent targets only: variables themselves
		var l []ref
		for _, r := range b.refs() {
			if r.writable && b.can(r.t) {
				l = append(l, r)
			}
		}
		if len(l) > 1 {
			x, y := l[p.n(len(l))], l[p.n(len(l))]
			if x.text != y.text {
				return x.text + ", " + y.text + " = " + b.wr(x.t) + ", " + b.wr(y.t) + "\n"
			}
		}
	case 2:
		return "_ = " + b.ts3() + "\n"
	}
	r, ok := b.target(func(t ty) bool { return true })
	if !ok {
		return ""
	}
	return r.text + " = " + b.wr(r.t) + "\n"
}

func (b *body) ts3() string {
	t := b.someTy()
	return b.ts(t, true) + "(" + b.expr(t, 2) + ")"
}

// wr is a value to store: strings must stay short.
func (b *body) wr(t ty) string {
	s := b.expr(t, 2)
	if t.k == kStr {
		return "pt.Cut(" + s + ")"
	}
	return s
}

func (b *body) effCall(d int) string {
	l := b.funs(func(f *fun) bool { return f.class == cEff || f.class == cLoc && b.p.p(30) })
	if len(l) == 0 {
		return ""
	}
	f := l[b.p.n(len(l))]
	c := b.callText(f, 1, true)
	if c == "" {
		return ""
	}
	if len(f.results) == 0 || b.p.p(20) {
		return c + "\n"
	}
	// into new locals, or into variables
	var lhs []string
	op := " = "
	fresh := b.p.p(60)
	var names []string
	for _, t := range f.results {
		n := ""
		if !fresh {
			var c []ref
			for _, r := range b.refs() {
				if r.writable && r.t == t && !in(names, r.text) {
					c = append(c, r)
				}
			}
			if len(c) > 0 {
				n = c[b.p.n(len(c))].text
			} else {
				n = "_"
			}
		} else {
			op = " := "
			n = b.newName(names...)
		}
		names = append(names, n)
		lhs = append(lhs, n)
	}
	fixes := ""
	for i, n := range names {
		if fresh {
			b.declare(n, f.results[i])
		}
		_ = i
	}
	for i, n := range names {
		if n == "_" {
			continue
		}
		if nilable(f.results[i]) {
			// the default must not be the variable itself
			fixes += b.fixWith(n, f.results[i])
		}
		if fresh {
			fixes += "_ = " + n + "\n"
		}
	}
	return strings.Join(lhs, ", ") + op + c + "\n" + fixes
}

func (b *body) fixWith(n string, t ty) string {
	def := b.constVal(t)
	s := b.fix(n, t)
	i := strings.Index(s, n+" = ")
	return s[:i] + n + " = " + def + "\n}\n"
}

// constVal is a value that does not depend on variables.
func (b *body) constVal(t ty) string {
	b.ts2(t)
	switch t.k {
	case kPIn:
		return "new(" + b.q(t) + "In)"
	case kT:
		return b.q(t) + "DefT"
	case kPT:
		return b.q(t) + "DefPT()"
	case kSl:
		return "[]int{0, 0, 0}"
	case kSlIn, kNS:
		return "make(" + b.ts(t) + ", 2)"
	case kMap:
		return "map[string]int{}"
	case kFn:
		return "pt.Inc"
	case kIfc:
		return b.q(t) + "In{}"
	case kAny:
		return "0"
	case kPInt:
		return "new(int)"
	case kErr:
		return "pt.Err(\"nil\")"
	}
	panic("constVal")
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// head writes an init statement that declares a local in the current scope.
func (b *body) head(d int) string {
	t := b.someTyIn(kInt, kStr, kSl, kIn, kT, kMap, kBool)
	if !b.can(t) {
		panic(giveUp{})
	}
	e := "(" + b.ts(t, true) + ")(" + b.expr(t, 1) + ")"
	n := b.newName()
	b.declare(n, t)
	return n + " := " + e
}

func (b *body) lastDeclared(h string) string { return h[:strings.Index(h, " ")] }

func (b *body) ifStmt(d int) string {
	b.push()
	s := "if "
	use := ""
	if b.p.p(50) {
		h := b.head(d)
		s += h + "; "
		use = "pt.Nop(" + b.lastDeclared(h) + ") && "
	}
	s += use + b.paren(ty{k: kBool}, 2) + " " + b.block(d-1, 2)
	if b.p.p(30) {
		s += " else "
		b.push()
		h := b.head(d)
		s += "if " + h + "; pt.Nop(" + b.lastDeclared(h) + ") || " + b.paren(ty{k: kBool}, 1) + " " + b.block(d-1, 1)
		b.pop()
	} else if b.p.p(40) {
		s += " else " + b.block(d-1, 2)
	}
	b.pop()
	return s + "\n"
}

func (b *body) label() (string, string) {
	if !b.p.p(25) {
		return "", ""
	}
	n := b.newName()
	if in(b.labels, n) || n == b.bname {
		return "", ""
	}
	for _, l := range b.labels {
		if l == n {
			return "", ""
		}
	}
	b.p.uid++
	if b.p.p(50) {
		n = fmt.Sprintf("lab%d", b.p.uid)
	} else if b.usedLabel(n) {
		return "", ""
	}
	b.labels = append(b.labels, n)
	return n, n + ":\n"
}

func (b *body) usedLabel(n string) bool { return in(b.labels, n) }

func (b *body) loopBody(d int, label string) string {
	b.loops++
	b.push()
	x := b.stmts(d-1, 2)
	if label != "" {
		x += "if " + b.paren(ty{k: kBool}, 1) + " {\n" + pick(b.p.rng, "continue ", "break ") + label + "\n}\n"
	} else if b.p.p(25) {
		x += "if " + b.paren(ty{k: kBool}, 1) + " {\n" + pick(b.p.rng, "continue", "break") + "\n}\n"
	}
	b.pop()
	b.loops--
	return "{\n" + x + "}"
}

func (b *body) forStmt(d int) string {
	b.push()
	defer b.pop()
	lab, s := b.label()
	n := b.newName()
	from := fmt.Sprint(b.p.n(3))
	e := b.declare(n, ty{k: kInt})
	e.ro = true
	lim := b.expr(ty{k: kInt}, 1)
	s += "for " + n + " := " + from + "; " + n + " < pt.Lim(" + lim + ") && " + n + " < 4; " + n + "++ "
	return s + b.loopBody(d, lab) + "\n"
}

func (b *body) rangeStmt(d int) string {
	b.push()
	defer b.pop()
	lab, s := b.label()
	t := b.someTyIn(kSl, kSlIn, kMap, kArr, kArIn, kStr, kNA, kNS, kInt)
	if !b.can(t) {
		panic(giveUp{})
	}
	x := b.paren(t, 1)
	kt, vt := ty{k: kInt}, ty{k: kInt}
	isMap := false
	switch t.k {
	case kSlIn, kArIn, kNA, kNS:
		vt = ty{kIn, t.pkg}
	case kMap:
		kt = ty{k: kStr}
		isMap = true
	case kStr:
		vt = ty{k: kRune}
	case kInt:
		x = "pt.Lim(" + x + ")"
	}
	if isMap {
		// the order is not defined: only sums
		sum := b.newName()
		b.declare(sum, ty{k: kInt})
		x := b.paren(t, 1)
		k := b.newName(sum)
		v := b.newName(sum, k)
		s := sum + " := 0\nfor " + k + ", " + v + " := range " + x + " "
		b.declare(k, kt)
		b.declare(v, vt)
		s += "{\n" + sum + " += len(" + k + ")*" + v + "\n}\n_ = " + sum + "\n"
		delete(b.sc.m, k)
		delete(b.sc.m, v)
		if b.class != cPure {
			s += "pt.Log(" + sum + ")\n"
		}
		return "{\n" + s + "}\n"
	}
	k := b.newName()
	v := b.newName(k)
	if t.k == kInt {
		b.declare(k, kt)
		s += "for " + k + " := range " + x + " "
		b.sc.m[k].ro = true
		return s + strings.Replace(b.loopBody(d, lab), "{\n", "{\n_ = "+k+"\n", 1) + "\n"
	}
	if b.p.p(25) && t.k == kArr && b.class == cEff {
		// over a pointer to an array variable
		l := b.paths(func(r ref) bool { return r.t == t && r.addr && r.writable && !r.noaddr })
		if len(l) > 0 {
			x = "&" + l[b.p.n(len(l))].text
		}
	}
	if b.p.p(20) && b.class == cEff {
		// existing variables
		var ints, vs []ref
		for _, r := range b.refs() {
			if r.writable && r.t == kt {
				ints = append(ints, r)
			}
			if r.writable && r.t == vt {
				vs = append(vs, r)
			}
		}
		if len(ints) > 0 && len(vs) > 0 {
			a, c := ints[b.p.n(len(ints))].text, vs[b.p.n(len(vs))].text
			if a != c {
				return s + "for " + a + ", " + c + " = range " + x + " " + b.loopBody(d, lab) + "\n"
			}
		}
	}
	use := ""
	switch b.p.n(3) {
	case 0:
		s += "for " + k + " := range " + x + " "
		b.declare(k, kt)
		use = "_ = " + k
	case 1:
		s += "for _, " + v + " := range " + x + " "
		b.declare(v, vt)
		use = "_ = " + v
	default:
		s += "for " + k + ", " + v + " := range " + x + " "
		b.declare(k, kt)
		b.declare(v, vt)
		use = "_, _ = " + k + ", " + v
	}
	return s + strings.Replace(b.loopBody(d, lab), "{\n", "{\n"+use+"\n", 1) + "\n"
}

func (b *body) switchStmt(d int) string {
	b.push()
	defer b.pop()
	s := "switch "
	if b.p.p(50) {
		h := b.head(d)
		s += h + "; pt.Nop(" + b.lastDeclared(h) + ") {\ncase " + b.expr(ty{k: kBool}, 1) + " && pt.Nop(1), pt.No(" + b.expr(ty{k: kInt}, 1) + "):\n"
	} else if b.p.p(50) {
		s += "pt.Id(" + b.expr(ty{k: kInt}, 2) + ") & 3 {\ncase pt.Id(" + b.expr(ty{k: kInt}, 1) + "), " + pick(b.p.rng, "1", "2") + ":\n"
	} else {
		s += "{\ncase " + b.expr(ty{k: kBool}, 2) + " || pt.No(0):\n"
	}
	for i := 0; i < 2; i++ {
		b.push()
		s += b.stmts(d-1, 2)
		if i == 0 && b.p.p(20) {
			s += "fallthrough\n"
		}
		b.pop()
		if i == 0 {
			s += "default:\n"
		}
	}
	return s + "}\n"
}

func (b *body) typeSwitch(d int) string {
	b.push()
	defer b.pop()
	s := "switch "
	if b.p.p(40) {
		h := b.head(d)
		s += h + "; "
	}
	src := ty{k: kAny}
	if b.p.p(30) {
		src = b.someTyIn(kIfc)
		if !b.can(src) {
			panic(giveUp{})
		}
	}
	x := b.ts(src) + "(" + b.expr(src, 1) + ")"
	n := b.newName()
	s = s + n + " := " + x + ".(type) {\n"
	// the init statement's variable must be used
	if i := strings.Index(s, " := "); strings.Contains(s, "; "+n+" := ") {
		v := strings.TrimPrefix(s[:i], "switch ")
		if v != n {
			s += "case func(complex64):\npt.Use(" + v + ")\n_ = " + n + "\n"
		} else {
			panic(giveUp{})
		}
		if src.k == kIfc {
			panic(giveUp{})
		}
	}
	var ts []ty
	if src.k == kIfc {
		ts = []ty{{kIn, src.pkg}, {kPIn, src.pkg}, {kT, src.pkg}}
	} else {
		for i := 0; i < 3; i++ {
			t := b.someTy()
			dup := t.k == kAny || t.k == kErr
			for _, u := range ts {
				if u == t || u.k == kIfc || t.k == kIfc || u.k == kInt && t.k == kInt {
					dup = true
				}
			}
			if !dup {
				ts = append(ts, t)
			}
		}
	}
	for i, t := range ts {
		s += "case " + b.ts(t) + ":\n_ = " + n + "\n"
		b.push()
		if nilable(t) && t.k != kPIn && t.k != kPT && t.k != kFn && t.k != kMap && t.k != kPInt && t.k != kIfc {
			// the value may be shorter than what variables hold
			b.sc.m[n] = &ent{name: n, kind: 'l'}
		} else {
			b.declare(n, t)
		}
		s += b.stmts(d-1, 1+i%2)
		b.pop()
	}
	s += "default:\n"
	b.push()
	b.sc.m[n] = &ent{name: n, kind: 'l'}
	s += "_ = " + n + "\n" + b.stmts(d-1, 1)
	b.pop()
	return s + "}\n"
}

func (b *body) deferStmt(d int) string {
	switch b.p.n(3) {
	case 0:
		l := b.funs(func(f *fun) bool { return f.class == cEff && f.level <= 5 })
		if len(l) > 0 {
			if c := b.callText(l[b.p.n(len(l))], 1, true); c != "" {
				return "defer " + c + "\n"
			}
		}
	case 1:
		t := b.someTy()
		if t.k == kFn {
			t = ty{k: kStr}
		}
		return "defer pt.Log(" + b.expr(t, 1) + ")\n"
	}
	return b.recovering()
}

func (b *body) panicStmt(d int) string {
	c := b.paren(ty{k: kBool}, 1)
	var x string
	switch b.p.n(6) {
	case 0:
		x = "panic(" + b.expr(ty{k: kStr}, 1) + ")"
	case 1:
		x = "panic(" + b.expr(ty{k: kErr}, 1) + ")"
	case 2:
		x = "_ = " + b.paren(ty{k: kSl}, 0) + "[pt.Id(99)]"
	case 3:
		x = "_ = pt.Id(7) / pt.Id(0)"
	case 4:
		x = "_ = " + "interface{}(" + b.expr(ty{k: kAny}, 0) + ").(chan int)"
	default:
		if b.noRet || b.p.p(30) {
			x = "panic(" + b.expr(ty{k: kErr}, 0) + ")"
		} else if len(b.results) == 0 {
			x = "return"
		} else {
			var s []string
			for _, t := range b.results {
				s = append(s, b.expr(t, 1))
			}
			x = "return " + strings.Join(s, ", ")
		}
	}
	return b.maybeChunk("if " + c + " && pt.Rare() {\n" + x + "\n}\n")
}

func (b *body) closureStmt(d int) string {
	n := b.newName()
	nb := *b
	nb.push()
	pt := nb.someTy()
	rt := nb.someTy()
	rts, pts := nb.ts(rt), nb.ts(pt)
	pn := nb.newName()
	nb.declare(pn, pt)
	nb.results = []ty{rt}
	nb.named = nil
	nb.loops = 0
	nb.labels = nil
	nb.closure++
	nb.noRet = false
	nb.budget = 3
	s := n + " := func(" + pn + " " + pts + ") " + rts + " {\n" + nb.stmts(d-1, 2) + "return " + nb.expr(rt, 1) + "\n}\n"
	// the closure is only called, where its name is not hidden
	b.sc.m[n] = &ent{name: n, kind: 'l'}
	r := b.newName()
	s += r + " := " + n + "(" + b.expr(pt, 1) + ")\n"
	b.declare(r, rt)
	if nilable(rt) {
		s += b.fixWith(r, rt)
	}
	return s + "_ = " + r + "\n"
}

// goBody is the body of a goroutine: it works on its own data.
func (b *body) goBody(d int, f func(nb *body) string) string {
	nb := *b
	nb.sc = &scope{up: b.sc, m: map[string]*ent{}, barrier: true}
	nb.class = cLoc
	nb.level = 4
	nb.results = nil
	nb.named = nil
	nb.loops = 0
	nb.labels = nil
	nb.closure++
	nb.noRet = true
	nb.noChunk = true
	nb.budget = 4
	return f(&nb)
}

func (b *body) locked(add string) string {
	for _, n := range []string{"mu", "total", "tot"} {
		if e := b.sc.find(n); e == nil || !e.lock {
			return ""
		}
	}
	switch b.p.n(3) {
	case 0:
		return "mu.Lock()\ntotal += " + add + "\nmu.Unlock()\n"
	case 1:
		return "tot.Lock()\ntot.N = tot.N + " + add + "\ntot.Unlock()\n"
	}
	return "tot.Add(" + add + ")\n"
}

func (b *body) parStmt(d int) string {
	p := b.p
	b.push()
	defer b.pop()
	int1 := func(x *body) string { return x.expr(ty{k: kInt}, 1) }
	switch p.n(4) {
	case 0: // wait group
		p.uid++
		wg := fmt.Sprintf("wg%d", p.uid)
		s := "var " + wg + " sync.WaitGroup\n"
		b.sc.m[wg] = &ent{name: wg, kind: 'l'}
		k := 2 + p.n(2)
		s += fmt.Sprintf("%s.Add(%d)\n", wg, k)
		for i := 0; i < k; i++ {
			s += b.goBody(d, func(nb *body) string {
				arg := b.someTy()
				as, at := b.expr(arg, 1), b.ts(arg)
				if p.p(50) {
					n := nb.newName()
					nb.declare(n, arg)
					x := nb.stmts(1, 2)
					x += nb.locked(int1(nb))
					return "go func(" + n + " " + at + ") {\ndefer " + wg + ".Done()\n" + x + "}(" + as + ")\n"
				}
				x := nb.stmts(1, 2)
				x += nb.locked(int1(nb))
				return "go func() {\ndefer " + wg + ".Done()\n" + x + "}()\n"
			})
		}
		return s + wg + ".Wait()\n"
	case 1: // values through a channel
		p.uid++
		ch := fmt.Sprintf("ch%d", p.uid)
		k := 2 + p.n(2)
		s := fmt.Sprintf("%s := make(chan int%s)\n", ch, pick(p.rng, "", ", 2"))
		b.sc.m[ch] = &ent{name: ch, kind: 'l'}
		for i := 0; i < k; i++ {
			s += b.goBody(d, func(nb *body) string {
				x := nb.stmts(1, 1)
				return "go func() {\n" + x + ch + " <- " + int1(nb) + "\n}()\n"
			})
		}
		sum := b.newName()
		b.declare(sum, ty{k: kInt})
		i := fmt.Sprintf("i%d", p.uid)
		if p.p(50) {
			s += fmt.Sprintf("%s := 0\nfor %s := 0; %s < %d; %s++ {\n%s += <-%s\n}\npt.Log(%s)\n", sum, i, i, k, i, sum, ch, sum)
		} else {
			v := b.newName(sum)
			s += fmt.Sprintf("%s := 0\nfor %s := 0; %s < %d; %s++ {\nselect {\ncase %s := <-%s:\n%s += %s\n}\n}\npt.Log(%s)\n", sum, i, i, k, i, v, ch, sum, v, sum)
		}
		return s
	case 2: // closed channel, ranged over
		p.uid++
		ch := fmt.Sprintf("ch%d", p.uid)
		s := fmt.Sprintf("%s := make(chan int%s)\n", ch, pick(p.rng, "", ", 1"))
		b.sc.m[ch] = &ent{name: ch, kind: 'l'}
		s += b.goBody(d, func(nb *body) string {
			x := ""
			for i := 0; i < 2; i++ {
				x += ch + " <- " + int1(nb) + "\n"
			}
			return "go func() {\ndefer close(" + ch + ")\n" + x + "}()\n"
		})
		v := b.newName()
		s += "for {\n" + v + ", ok" + ch + " := <-" + ch + "\nif !ok" + ch + " {\nbreak\n}\npt.Log(" + v + ")\n}\n"
		return s
	default: // a named function as goroutine
		l := b.funs(func(f *fun) bool { return f.class == cLoc && !f.method })
		if len(l) == 0 {
			panic(giveUp{})
		}
		f := l[p.n(len(l))]
		c := b.callText(f, 1, true)
		if c == "" {
			panic(giveUp{})
		}
		p.uid++
		ch := fmt.Sprintf("ch%d", p.uid)
		b.sc.m[ch] = &ent{name: ch, kind: 'l'}
		return ch + " := make(chan bool)\ngo func() {\ngo " + c + "\n" + ch + " <- true\n}()\n<-" + ch + "\npt.Quiesce()\n"
	}
}

func (b *body) selectStmt(d int) string {
	p := b.p
	b.push()
	defer b.pop()
	p.uid++
	ch := fmt.Sprintf("ch%d", p.uid)
	s := ch + " := make(chan int, 1)\n"
	b.sc.m[ch] = &ent{name: ch, kind: 'l'}
	e := b.expr(ty{k: kInt}, 1)
	s += "select {\ncase " + ch + " <- " + e + ":\n"
	b.push()
	s += b.stmts(d-1, 1)
	b.pop()
	s += "default:\n"
	b.push()
	s += b.stmts(d-1, 1)
	b.pop()
	s += "}\n"
	v := b.newName()
	ok := b.newName(v)
	// receive into package variables or new ones
	b.push()
	b.declare(v, ty{k: kInt})
	b.declare(ok, ty{k: kBool})
	s += "select {\ncase " + v + ", " + ok + " := <-" + ch + ":\n_, _ = " + v + ", " + ok + "\n" + b.stmts(d-1, 2)
	b.pop()
	if r, y := b.target(func(t ty) bool { return t.k == kInt }); y && p.p(60) {
		s += "case " + r.text + " = <-pt.Never():\n"
	}
	s += "}\n"
	return s
}
