package main

import "fmt"

type kind int

const (
	kInt kind = iota
	kStr
	kBool
	kF64
	kRune
	kNum // named int with methods
	kIn  // small struct
	kPIn
	kT // large struct
	kPT
	kSl   // []int
	kSlIn // []In
	kMap  // map[string]int
	kArr  // [3]int
	kArIn // [2]In
	kFn   // func(int) int
	kIfc  // interface{ V(int) int }
	kGen  // G[int]
	kNA   // named [2]In
	kNS   // named []In
	kAny
	kPInt
	kErr
	nkinds
)

// ty is a type: a kind, and for named types the package that declares it.
type ty struct {
	k   kind
	pkg int // 0: b, 1: a
}

func (t ty) named() bool {
	switch t.k {
	case kNum, kIn, kPIn, kT, kPT, kSlIn, kArIn, kIfc, kGen, kNA, kNS:
		return true
	}
	return false
}

func norm(t ty) ty {
	if !t.named() {
		t.pkg = 0
	}
	return t
}

// str is the type's text in package pkg.
func (t ty) str(pkg int) string {
	q := ""
	if t.pkg != pkg {
		q = "b."
	}
	switch t.k {
	case kInt:
		return "int"
	case kStr:
		return "string"
	case kBool:
		return "bool"
	case kF64:
		return "float64"
	case kRune:
		return "rune"
	case kNum:
		return q + "Num"
	case kIn:
		return q + "In"
	case kPIn:
		return "*" + q + "In"
	case kT:
		return q + "T"
	case kPT:
		return "*" + q + "T"
	case kSl:
		return "[]int"
	case kSlIn:
		return "[]" + q + "In"
	case kMap:
		return "map[string]int"
	case kArr:
		return "[3]int"
	case kArIn:
		return "[2]" + q + "In"
	case kFn:
		return "func(int) int"
	case kIfc:
		return q + "Ifc"
	case kGen:
		return q + "G[int]"
	case kNA:
		return q + "NA"
	case kNS:
		return q + "NS"
	case kAny:
		return "interface{}"
	case kPInt:
		return "*int"
	case kErr:
		return "error"
	}
	panic(t.k)
}

// acc is a way to get from a value to a part of it.
type acc struct {
	f    string // format, %s is the value
	to   kind
	keep bool // addressable if the value is
	yes  bool // addressable in any case
	set  bool // assignable though not addressable
}

var fieldsIn = []acc{{f: "%s.N", to: kInt, keep: true}, {f: "%s.W", to: kStr, keep: true}, {f: "%s.V(1)", to: kInt}}
var fieldsT = []acc{
	{f: "%s.A", to: kInt, keep: true}, {f: "%s.B", to: kInt, keep: true}, {f: "%s.S", to: kStr, keep: true},
	{f: "%s.N", to: kInt, keep: true}, {f: "%s.W", to: kStr, keep: true}, {f: "%s.In", to: kIn, keep: true},
	{f: "%s.Q", to: kIn, keep: true}, {f: "%s.R", to: kIn, keep: true}, {f: "%s.PI", to: kPIn, keep: true},
	{f: "%s.L", to: kSl, keep: true}, {f: "%s.M", to: kMap, keep: true}, {f: "%s.Arr", to: kArr, keep: true},
	{f: "%s.Ar2", to: kArIn, keep: true}, {f: "%s.F", to: kFn, keep: true}, {f: "%s.IF", to: kIfc, keep: true},
	{f: "%s.U(2)", to: kInt}, {f: "%s.V(2)", to: kInt}, {f: "%s.Num", to: kNum, keep: true}, {f: "%s.C", to: kBool, keep: true},
}

func access(k kind) []acc {
	switch k {
	case kIn:
		return fieldsIn
	case kPIn, kPT:
		l := fieldsIn
		d := acc{f: "(*%s)", to: kIn, yes: true}
		if k == kPT {
			l = fieldsT
			d.to = kT
		}
		var out []acc
		for _, a := range l {
			if a.keep {
				a.keep, a.yes = false, true
			}
			out = append(out, a)
		}
		return append(out, d)
	case kT:
		return fieldsT
	case kSl:
		return []acc{{f: "%s[0]", to: kInt, yes: true}, {f: "%s[2]", to: kInt, yes: true}, {f: "len(%s)", to: kInt}, {f: "%s[1:]", to: kAny}}
	case kSlIn, kNS:
		return []acc{{f: "%s[0]", to: kIn, yes: true}, {f: "%s[1]", to: kIn, yes: true}, {f: "len(%s)", to: kInt}}
	case kArr:
		return []acc{{f: "%s[0]", to: kInt, keep: true}, {f: "%s[2]", to: kInt, keep: true}, {f: "len(%s)", to: kInt}}
	case kArIn, kNA:
		return []acc{{f: "%s[0]", to: kIn, keep: true}, {f: "%s[1]", to: kIn, keep: true}, {f: "len(%s)", to: kInt}}
	case kMap:
		return []acc{{f: "%s[\"k0\"]", to: kInt, set: true}, {f: "%s[\"k1\"]", to: kInt, set: true}, {f: "len(%s)", to: kInt}}
	case kFn:
		return []acc{{f: "%s(3)", to: kInt}}
	case kIfc:
		return []acc{{f: "%s.V(4)", to: kInt}}
	case kGen:
		return []acc{{f: "%s.X", to: kInt, keep: true}, {f: "%s.Get()", to: kInt}}
	case kNum:
		return []acc{{f: "%s.Dbl()", to: kNum}, {f: "int(%s)", to: kInt}}
	case kPInt:
		return []acc{{f: "(*%s)", to: kInt, yes: true}}
	case kStr:
		return []acc{{f: "len(%s)", to: kInt}}
	case kErr:
		return []acc{{f: "%s.Error()", to: kStr}}
	}
	return nil
}

func (a acc) apply(s string) string { return fmt.Sprintf(a.f, s) }
