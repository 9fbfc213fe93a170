package main

import "strings"

// typesFile declares the package's own types. Receivers and parameters are
// named like package variables.
func typesFile(pkg string) string {
	s := `package PKG

import (
	"sync"

	"verif.local/pt"
)

type Num int

func (v0 Num) Dbl() Num { return v0 * 2 }

type In struct {
	N int
	W string
}

func (v1 In) V(v0 int) int { return v1.N + v0 + len(v1.W) }

func (v2 *In) P(v0 int) {
	v2.N += v0
	v2.W = pt.Cut(v2.W + "p")
}

type Ifc interface{ V(int) int }

type T struct {
	A, B int
	S    string
	In
	Q, R In
	PI   *In
	L    []int
	M    map[string]int
	Arr  [3]int
	Ar2  [2]In
	F    func(int) int
	IF   Ifc
	Num
	C bool
}

func (v3 T) V(v0 int) int { return v3.A + v0 }

func (T) U(v0 int) int { return v0 * 3 }

func (v5 T) With(v4 In) T {
	v5.In = v4
	return v5
}

func (v3 *T) P(v0 int) {
	v3.A += v0
	v3.Q.P(v0)
}

type G[K any] struct {
	X K
	N int
}

func (v0 G[K]) Get() K { return v0.X }

func (v1 *G[K]) P(v0 K) {
	v1.X = v0
	v1.N++
}

type NA [2]In

func (v1 NA) V(v0 int) int { return v1[0].N + v0 }

func (v1 *NA) P(v0 int) { v1[1].N = v0 }

type NS []In

func (v1 NS) V(v0 int) int { return len(v1) + v0 }

func (v1 NS) Each(v2 func(v3 In)) {
	for _, v0 := range v1 {
		v2(v0)
	}
}

type Locked struct {
	sync.Mutex
	N int
}

func (v0 *Locked) Add(v1 int) {
	v0.Lock()
	defer v0.Unlock()
	v0.N += v1
}

func MkIn(v0 int) In { return In{v0, pt.S(v0)} }

func MkT(v0 int) T {
	return T{
		A: v0, B: v0 + 1, S: pt.S(v0), In: MkIn(v0), Q: MkIn(v0 + 2), R: In{W: "r"},
		PI: &In{v0 - 1, "pi"}, L: []int{v0, 1, 2}, M: map[string]int{"k0": v0}, Arr: [3]int{v0, 5},
		Ar2: [...]In{MkIn(8), {1, "1"}}, F: func(v1 int) int { return v0*10 + v1 }, IF: MkIn(v0), Num: Num(v0), C: v0 > 3,
	}
}

func NewT(v0 int) *T {
	v1 := MkT(v0)
	return &v1
}

func MkG(v0 int) G[int] { return G[int]{v0, 1} }

func Two(v0 int) (int, string) { return v0, pt.S(v0) }

var DefT = MkT(0)

func DefPT() *T { return NewT(0) }
`
	s = strings.Replace(s, "PKG", pkg, 1)
	if pkg == "b" {
		for _, d := range "012345" {
			s = strings.ReplaceAll(s, "v"+string(d), "V"+string(d))
		}
	}
	return s
}
