package main

import (
	"fmt"
	"strings"
)

// expr is the text of an expression that can be used where type t is wanted.
// It has no effects and does not panic.
func (b *body) expr(t ty, d int) string {
	t = norm(t)
	if d > 0 && b.p.p(62) || d <= 0 && b.p.p(75) {
		l := b.paths(func(r ref) bool {
			if r.t == t {
				return true
			}
			return t.k == kAny && r.t.k != nkinds && r.t.k != kFn
		})
		if len(l) > 0 {
			// prefer package variables
			r := l[b.p.n(len(l))]
			for i := 0; i < 2 && !strings.Contains(r.text, "v") && !strings.Contains(r.text, "V"); i++ {
				r = l[b.p.n(len(l))]
			}
			if b.p.p(8) {
				return "(" + r.text + ")"
			}
			return r.text
		}
	}
	if d > 0 && b.p.p(15) {
		if s := b.pureCall(t, d); s != "" {
			return s
		}
	}
	if d > 1 && b.p.p(6) && b.can(t) {
		// function literal, called
		b.push()
		s := "func() " + b.ts(t) + " { "
		if b.p.p(60) {
			tt := b.someTy()
			e := b.decl(tt, d-1)
			s += e + "; "
		}
		s += "return " + b.expr(t, d-1) + " }()"
		b.pop()
		return s
	}
	return b.fresh(t, d)
}

func (b *body) q(t ty) string {
	if norm(t).pkg != b.pkg && t.named() {
		return b.bname + "."
	}
	return ""
}

// fresh makes a value.
func (b *body) fresh(t ty, d int) string {
	i := func() string { return b.expr(ty{k: kInt}, d-1) }
	s := func() string { return b.expr(ty{k: kStr}, d-1) }
	leaf := d <= 0
	if !b.can(t) {
		panic(giveUp{})
	}
	switch t.k {
	case kInt:
		if leaf {
			return fmt.Sprint(b.p.n(20))
		}
		switch b.p.n(14) {
		case 0, 1, 2:
			return "(" + i() + " " + pick(b.p.rng, "+", "-", "*", "&", "|", "^") + " " + i() + ")"
		case 3:
			return "(" + i() + " " + pick(b.p.rng, "/", "%") + " " + fmt.Sprint(2+b.p.n(7)) + ")"
		case 4:
			return pick(b.p.rng, "-", "^", "+") + "(" + i() + ")"
		case 5:
			return "len(" + s() + ")"
		case 6:
			return "int(" + b.expr(ty{kNum, b.anyPkg()}, d-1) + ")"
		case 7:
			return "int(" + b.expr(ty{k: kRune}, d-1) + ")"
		case 8:
			// not an untyped constant, which would take another type
			if l := b.paths(func(r ref) bool { return r.t.k == kInt && r.addr }); len(l) > 0 && b.p.p(60) {
				return "(" + l[b.p.n(len(l))].text + " << pt.U(" + i() + "))"
			}
			return "(int(" + i() + ") << pt.U(" + i() + "))"
		case 9:
			return "pt.B(" + b.expr(ty{k: kBool}, d-1) + ")"
		case 10:
			return "func(" + b.paramList([]ty{{k: kInt}}, func() string { return "int { return " + i() + " }" })
		case 11:
			k := pick(b.p.rng, kSl, kMap, kArr)
			x := ty{k: k}
			y := b.expr(x, d-1)
			switch k {
			case kSl:
				return "pt.Sl(" + y + ")[" + pick(b.p.rng, "0", "1", "2") + "]"
			case kMap:
				return "len(" + y + ")"
			}
			return "len(" + y + ")"
		case 12:
			return "cap(" + b.expr(ty{k: kArr}, d-1) + ")"
		}
		return fmt.Sprint(b.p.n(50))
	case kStr:
		if leaf {
			return pick(b.p.rng, `"a"`, `"bc"`, `""`, "`r`")
		}
		switch b.p.n(7) {
		case 0:
			return "pt.Cut(" + s() + " + " + s() + ")"
		case 1:
			return "pt.S(" + i() + ")"
		case 2:
			return "string(" + b.expr(ty{k: kRune}, d-1) + ")"
		case 3:
			return "pt.Cut(" + s() + ")"
		case 4:
			return "(" + b.expr(ty{k: kErr}, d-1) + ").Error()"
		case 5:
			if n := b.strConst(); n != "" {
				return "(" + n + ")"
			}
		}
		return `"w"`
	case kBool:
		if leaf {
			return pick(b.p.rng, "true", "false")
		}
		switch b.p.n(6) {
		case 0, 1:
			return "(" + i() + " " + pick(b.p.rng, "<", ">", "==", "!=", "<=", ">=") + " " + i() + ")"
		case 2:
			return "!(" + b.expr(t, d-1) + ")"
		case 3:
			return "(" + b.expr(t, d-1) + " " + pick(b.p.rng, "&&", "||") + " " + b.expr(t, d-1) + ")"
		case 4:
			return "(" + s() + " < " + s() + ")"
		case 5:
			x := b.someTyIn(kIn, kArr, kNum, kRune, kGen, kPIn)
			return "(" + b.paren(x, d-1) + " == " + b.paren(x, d-1) + ")"
		}
	case kF64:
		if !leaf && b.p.p(50) {
			return "(float64(" + i() + ") " + pick(b.p.rng, "*", "+", "-") + " " + pick(b.p.rng, "1.5", "0.25", "2", "3") + ")"
		}
		if n := b.conOf(kF64); n != "" && b.p.p(50) {
			return n
		}
		return pick(b.p.rng, "1.5", "2", "0.125", "7e2")
	case kRune:
		if !leaf && b.p.p(50) {
			return "('a' + rune(" + i() + " & 7))"
		}
		if n := b.conOf(kRune); n != "" && b.p.p(50) {
			return n
		}
		return pick(b.p.rng, "'a'", "'x'", "'0'")
	case kNum:
		if leaf {
			return b.q(t) + "Num(" + fmt.Sprint(b.p.n(9)) + ")"
		}
		if b.p.p(30) {
			return "(" + b.expr(t, d-1) + " + " + b.expr(t, d-1) + ")"
		}
		return b.q(t) + "Num(" + i() + ")"
	case kIn:
		if leaf {
			return b.q(t) + "MkIn(" + i() + ")"
		}
		return pick(b.p.rng, b.q(t)+"In{N: "+i()+", W: "+s()+"}", b.q(t)+"In{"+i()+", "+s()+"}", b.q(t)+"In{W: "+s()+"}")
	case kPIn:
		x := ty{kIn, t.pkg}
		if l := b.paths(func(r ref) bool { return r.t == x && r.addr && r.writable && !r.noaddr }); len(l) > 0 && b.p.p(60) {
			return "&" + b.parenSome(l[b.p.n(len(l))].text)
		}
		if b.p.p(15) {
			return "new(" + b.q(t) + "In)"
		}
		return "&" + b.q(t) + "In{N: " + i() + "}"
	case kT:
		if !leaf && b.p.p(30) {
			return b.q(t) + "MkT(" + i() + ").With(" + b.expr(ty{kIn, t.pkg}, d-1) + ")"
		}
		if !leaf && b.p.p(30) {
			in := ty{kIn, t.pkg}
			return b.q(t) + "T{A: " + i() + ", S: " + s() + ", In: " + b.expr(in, d-1) + ", R: " + b.expr(in, 0) + ", PI: " + b.expr(ty{kPIn, t.pkg}, d-1) +
				", L: " + b.expr(ty{k: kSl}, d-1) + ", M: " + b.expr(ty{k: kMap}, 0) + ", F: " + b.expr(ty{k: kFn}, 0) + ", IF: " + b.expr(ty{kIfc, t.pkg}, 0) + "}"
		}
		return b.q(t) + "MkT(" + i() + ")"
	case kPT:
		x := ty{kT, t.pkg}
		if l := b.paths(func(r ref) bool { return r.t == x && r.addr && r.writable && !r.noaddr }); len(l) > 0 && b.p.p(60) {
			return "&" + b.parenSome(l[b.p.n(len(l))].text)
		}
		return b.q(t) + "NewT(" + i() + ")"
	case kSl:
		if !leaf && b.p.p(30) {
			return "append([]int{" + i() + ", 1}, pt.Sl(" + b.expr(t, d-1) + ")[:2]...)"
		}
		return "[]int{" + i() + ", " + i() + ", " + fmt.Sprint(b.p.n(9)) + "}"
	case kSlIn, kNS:
		in := ty{kIn, t.pkg}
		n := b.ts(t)
		return pick(b.p.rng, n+"{"+b.expr(in, d-1)+", "+b.expr(in, 0)+"}", n+"{{N: "+i()+"}, {"+i()+", "+s()+"}}", n+"{1: {N: "+i()+"}}")
	case kMap:
		return pick(b.p.rng, "map[string]int{\"k0\": "+i()+", \"k1\": "+i()+"}", "map[string]int{\"k0\": "+i()+"}", "map[string]int{}")
	case kArr:
		return pick(b.p.rng, "[3]int{"+i()+", "+i()+"}", "[...]int{"+i()+", 2, "+i()+"}", "[3]int{2: "+i()+"}")
	case kArIn:
		in := ty{kIn, t.pkg}
		return b.ts(t) + "{" + pick(b.p.rng, b.expr(in, d-1), "{N: "+i()+"}", "1: {W: "+s()+"}") + "}"
	case kNA:
		in := ty{kIn, t.pkg}
		return b.ts(t) + "{" + pick(b.p.rng, b.expr(in, d-1), "{N: "+i()+"}", "0: {W: "+s()+"}") + "}"
	case kFn:
		if !leaf && b.p.p(40) {
			return "func(" + b.paramList([]ty{{k: kInt}}, func() string { return "int { return " + i() + " }" }, "lit")
		}
		if b.p.p(50) {
			x := b.someTyIn(kIn, kT, kIfc)
			if x.k != kT || b.p.p(50) {
				return "(" + b.paren(x, d-1) + ").V"
			}
			return "(" + b.paren(x, d-1) + ").U"
		}
		return "pt.Inc"
	case kIfc:
		x := ty{pick(b.p.rng, kIn, kPIn, kT, kPT, kIn), t.pkg}
		return b.expr(x, d-1)
	case kGen:
		return pick(b.p.rng, b.q(t)+"G[int]{X: "+i()+"}", b.q(t)+"MkG("+i()+")")
	case kAny:
		x := b.someTy()
		if x.k == kAny || x.k == kFn {
			return "interface{}(" + i() + ")"
		}
		if x.k == kF64 || x.k == kRune || x.k == kInt || x.k == kStr || x.k == kBool {
			return b.ts(x) + "(" + b.expr(x, d-1) + ")"
		}
		return b.expr(x, d-1)
	case kPInt:
		x := ty{k: kInt}
		if l := b.paths(func(r ref) bool { return r.t == x && r.addr && r.writable && !r.noaddr }); len(l) > 0 && b.p.p(60) {
			return "&" + b.parenSome(l[b.p.n(len(l))].text)
		}
		return "pt.P(" + i() + ")"
	case kErr:
		return "pt.Err(" + s() + ")"
	}
	return b.fresh(t, 0)
}

func (b *body) parenSome(s string) string {
	if b.p.p(10) {
		return "(" + s + ")"
	}
	return s
}

// paren is an expression usable as an operand; composite literals would be
// taken for a block in the head of a statement.
func (b *body) paren(t ty, d int) string { return "(" + b.expr(t, d) + ")" }

func (b *body) anyPkg() int {
	if b.pkg == 0 || !b.hasB() {
		return b.pkg
	}
	return b.p.n(2)
}

func (b *body) someTyIn(l ...kind) ty { return norm(ty{pick(b.p.rng, l...), b.anyPkg()}) }

func (b *body) conOf(k kind) string {
	var l []string
	for _, c := range b.p.pkgs[b.pkg].cons {
		if c.t.k == k && b.sc.find(c.name) == c {
			l = append(l, c.name)
		}
	}
	if b.pkg == 1 && b.hasB() {
		for _, c := range b.p.pkgs[0].cons {
			if c.t.k == k {
				l = append(l, b.bname+"."+c.name)
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	return l[b.p.n(len(l))]
}

func (b *body) strConst() string { return b.conOf(kStr) }

// paramList writes a function literal's parameters and body; unless lit is
// given the literal is called at once.
func (b *body) paramList(ts []ty, rest func() string, lit ...string) string {
	b.push()
	var s []string
	var args []string
	if len(lit) == 0 {
		up := b.sc
		b.sc = up.up
		for _, t := range ts {
			args = append(args, b.expr(t, 0))
		}
		b.sc = up
	}
	for _, t := range ts {
		n := b.newName()
		s = append(s, n+" "+b.ts(t))
		b.declare(n, t)
	}
	out := strings.Join(s, ", ") + ") " + rest()
	b.pop()
	if len(lit) == 0 {
		out += "(" + strings.Join(args, ", ") + ")"
	}
	return out
}

// decl declares a local variable in the current scope, used at once.
func (b *body) decl(t ty, d int) string {
	e := b.expr(t, d)
	conv := b.ts(t, true) + "(" + e + ")"
	n := b.newName()
	form := b.p.n(4)
	tn := b.ts(t)
	b.declare(n, t)
	switch form {
	case 0:
		return "var " + n + " " + tn + " = " + e + "; _ = " + n
	case 1:
		return "var " + n + " = " + conv + "; _ = " + n
	}
	return n + " := " + conv + "; _ = " + n
}

// args for a call.
func (b *body) args(f *fun, d int) (string, bool) {
	var out []string
	for i, t := range f.params {
		if f.vari && i == len(f.params)-1 {
			if b.p.p(50) {
				if !b.can(t) {
					return "", false
				}
				out = append(out, b.expr(t, d)+"...")
				break
			}
			el := ty{kInt, 0}
			if t.k == kSlIn {
				el = ty{kIn, t.pkg}
			}
			if !b.can(el) {
				return "", false
			}
			for j := 0; j < 3; j++ {
				out = append(out, b.expr(el, d))
			}
			break
		}
		if !b.can(t) {
			return "", false
		}
		out = append(out, b.expr(t, d))
	}
	return strings.Join(out, ", "), true
}

// callable functions of a class below this level.
func (b *body) funs(ok func(f *fun) bool) []*fun {
	var out []*fun
	for pi := 0; pi <= b.pkg; pi++ {
		if pi != b.pkg && !b.hasB() {
			continue
		}
		lv := b.level
		if pi != b.pkg {
			lv++
		}
		for _, f := range b.p.pkgs[pi].funs {
			if f.level < lv && ok(f) {
				if !f.method && pi == b.pkg {
					if e := b.sc.find(f.name); e == nil || e.fn != f {
						continue
					}
				}
				out = append(out, f)
			}
		}
	}
	return out
}

func (b *body) callText(f *fun, d int, eff bool) string {
	a, ok := b.args(f, d)
	if !ok {
		return ""
	}
	if f.method {
		want := f.recv
		if f.ptr {
			l := b.paths(func(r ref) bool { return r.t == want && r.addr && r.writable && !r.noaddr })
			if len(l) > 0 && b.p.p(60) {
				return b.parenSome(l[b.p.n(len(l))].text) + "." + f.name + "(" + a + ")"
			}
			switch want.k {
			case kT:
				return b.paren(ty{kPT, want.pkg}, d) + "." + f.name + "(" + a + ")"
			case kIn:
				return b.paren(ty{kPIn, want.pkg}, d) + "." + f.name + "(" + a + ")"
			}
			return ""
		}
		if b.p.p(10) && want.pkg == b.pkg {
			// method expression
			if a != "" {
				a = ", " + a
			}
			return want.str2(b.pkg, b.bname) + "." + f.name + "(" + b.expr(want, d) + a + ")"
		}
		return b.paren(want, d) + "." + f.name + "(" + a + ")"
	}
	q := ""
	if f.pkg != b.pkg {
		q = b.bname + "."
	}
	return q + f.name + "(" + a + ")"
}

func (b *body) pureCall(t ty, d int) string {
	l := b.funs(func(f *fun) bool { return f.class == cPure && len(f.results) == 1 && f.results[0] == t })
	if len(l) == 0 {
		return ""
	}
	return b.callText(l[b.p.n(len(l))], d-1, false)
}
