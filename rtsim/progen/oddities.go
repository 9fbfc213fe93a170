package main

var oddities = []odd{
	{name: "variadic", b: `
func Vari@(p string, l ...int) (int, error) {
	if len(l) == 0 {
		return len(p), pt.Err("none")
	}
	return len(l) + l[0], nil
}
`, a: `
var F@ = b.Vari@
var G@ func(string, ...int) (n int, err error) = b.Vari@

func unnamed@(int, string, ...[]int) int  { return 4 }
func blanks@(_, _ int, _ ...string) (_ int, _ error) { return 1, nil }
func mixed@(_ int, k string, _ bool) (r int) { r = len(k); return }
func pair@(a, _ int, _, c string) (int, string) { return a, c }
func three@(x int, l ...interface{}) (n, m int, s string) {
	n, m = x, len(l)
	if m > 1 { s = "many" }
	return
}
`, body: `
	n, err := F@("ab", x, y)
	pt.Log(n, err)
	n, err = G@("abc", []int{y, x}[:y%3]...)
	pt.Log(n, err, unnamed@(1, "", nil, []int{x}))
	n, err = blanks@(x, y, "a", "b")
	c, d := pair@(x, y, "p", "q")
	pt.Log(mixed@(x, "mm", true), n, err, c, d)
	n, m, s := three@(x, []interface{}{1, "a", nil}[:y%4%3]...)
	return n + m, s
`, vars: "F@ G@"},

	{name: "hidden types", b: `
type hid@ struct {
	N int
	w string
}

func (h *hid@) Inc() int { h.N++; return h.N }
func (h hid@) Get() (int, string) { return h.N, h.w }

func MkHid@(i int) *hid@ { return &hid@{i, pt.S(i)} }
func MkHids@() map[In]hid@ { return map[In]hid@{{1, "a"}: {2, "b"}} }
func HidOr@(m map[In]hid@) In { return In{len(m), "h"} }

var Hid@ = hid@{3, "h"}
var Hids@ = []hid@{{1, "x"}, {2, "y"}}
`, a: `
var h@ = b.MkHids@()
«var i@ b.In = b.MkIn(3)¦var i@ = b.MkIn(3)¦var i@ = b.In{3, "i"}»
var k@ = b.MkHid@(4)
var t@ = b.MkT(2)
var f@ = b.HidOr@
var u@, w@ = b.MkHid@(1), b.MkIn(2)
`, body: `
	for k, v := range h@ {
		pt.Log(k, v.N)
	}
	b.Hid@.N += x
	n, s := b.Hid@.Get()
	pt.Log(n, s, b.Hids@[y%2].N, len(h@), u@.N, w@)
	pt.Log(k@.Inc(), i@, t@.A, f@(nil))
	b.Hids@[1].Inc()
	return k@.N + i@.N, i@.W 
`, vars: "i@! t@! w@! b.Hid@ b.Hids@ k@"},

	{name: "anonymous structs", a: `
var S@ = struct {
	A, B int
	C    string
}{1, 2, "c"}
var L@ = []struct {
	N int
	F func(int) int
}{{1, pt.Inc}, {N: 2, F: pt.Id}, {}}
var E@ struct {
	b.In
	*b.Num
	T  b.T
	in struct{ X, Y int }
}
var M@ = map[string]struct{}{"a": {}, "b": {}}
var P@ = &struct{ V int }{5}
`, body: `
	S@.B += x
	t := S@
	t.A = y
	if S@ == t {
		pt.Log("same")
	}
	for _, l := range L@ {
		if l.F == nil {
			continue
		}
		pt.Log(l.F(y), l.N)
	}
	E@.in.X, E@.in.Y = x, E@.in.X
	E@.N++
	E@.In.P(2)
	E@.P(1)
	E@.T.Q.P(y)
	_, ok := M@[«"a"¦S@.C»]
	pt.Log(ok, E@.V(1), E@.In.V(2), E@.T.In.W, E@.Num == nil)
	P@.V++
	return S@.A + P@.V + E@.in.X, S@.C + t.C
`, vars: "S@ E@ P@"},

	{name: "maps of everything", a: `
var A@ = map[b.In][]*b.T{{1, "a"}: {b.NewT(1), nil}}
var B@ = map[string]map[int][]string{"k": {1: {"x", "y"}}, "l": nil}
var C@ = map[[2]int]func(int) int{{1, 2}: pt.Inc}
var D@ = map[interface{}]interface{}{1: "one", "two": 2, b.In{}: nil}
var E@ = map[*int]chan<- map[bool]<-chan int{}
`, body: `
	pt.Log(len(A@[b.In{1, "a"}]), A@[b.MkIn(9)] == nil)
	A@[b.In{1, "a"}][0].P(x)
	A@[b.In{y, ""}] = append(A@[b.In{y, ""}], b.NewT(y))
	if m, ok := B@["k"]; ok {
		m[2] = append(m[1], "z")
	}
	for _, s := range B@["k"][1] {
		pt.Log(s)
	}
	B@["l"] = B@["k"]
	delete(B@, "k")
	if f := C@[[2]int{1, 2}]; f != nil {
		x = f(x)
	}
	D@[x] = y
	pt.Log(D@[1], D@["two"], D@[3.5], len(E@))
	return x + len(D@), B@["l"][1][y%2]
`, vars: "A@ B@ D@"},

	{name: "arrays", b: `
const Dim@ = 2
`, a: `
const w@ = 3
var A@ [w@][b.Dim@]int
var S@ = [...]string{"a", 2: "c", w@ + 1: "e"}
var N@ = [len("abc")]b.Num{1, w@}
var P@ = &[2]b.In{{1, "p"}, {2, "q"}}
var L@ = [][]int{{1, 2}, {}, {3}}
var T@ = [2][]b.T{{b.MkT(1)}, nil}
`, body: `
	A@[1][y%2] = x
	r := &A@[2]
	r[0] += 2
	p := &A@[1][1]
	*p--
	for i := range A@ {
		for j, v := range A@[i] {
			pt.Log(i, j, v)
		}
	}
	for i := range P@ {
		P@[i].N += len(P@)
	}
	P@[1].P(1)
	(*P@)[0].W += "w"
	sl := S@[1:]
	sl[0] = "b"
	L@[0], L@[1] = L@[1], L@[0]
	T@[0][0].P(2)
	pt.Log(len(A@), cap(S@), len(A@[0]), N@[1].Dbl(), sl, len(T@))
	a := A@
	a[0][0] = 99
	return A@[0][0] + a[1][1], S@[4] + P@[y%2].W
`, vars: "A@ S@ N@! P@ L@ T@"},

	{name: "keys", b: `
const (
	KA@ = iota
	KB@
	KC@
)
var Vx@, Vy@ = "vx", "vy"
`, a: `
var (
	n@ = [...]string{b.KB@: "one", b.KA@: "zero", b.KC@: "two"}
	i@ = 1
	s@ = "s"
)

type str@ struct {
	i@, n int
	s@    string
}
`, body: `
	m := map[string]int{b.Vx@: 1, b.Vy@: x, s@ + "t": y}
	k := map[int]string{x: s@, x + 1: b.Vx@}
	st := str@{i@: i@, n: x, s@: s@ + "!"}
	ar := [...]int{b.KC@: i@, b.KA@: y}
	pp := []*b.In{{N: i@}, {W: s@}}
	nest := map[string][]b.In{s@ + b.Vx@: {{i@, s@}}, "": {{N: x}, {}}}
	pt.Log(m, k, st, ar, pp, n@[i@%3], len(nest[""]))
	return st.i@ + len(nest), n@[y%3] + st.s@
`, vars: "n@ i@! s@! b.Vx@! b.Vy@!"},

	{name: "aliases and defined types", b: `
type Al@ = In
type Def@ In
type DefP@ *In
type Fn@ func(int) int
func (f Fn@) Call(i int) int { return f(i) + 1 }
type Ch@ chan int
type M@ map[string]In
func (m M@) Get(s string) In { return m[s] }
func (m *M@) Set(s string) { (*m)[s] = In{len(s), s} }
type Deep@ struct{ Al@; D Def@; F Fn@ }
func (d Def@) Twice() int { return d.N * 2 }
`, a: `
type al@ = b.Al@
type df@ b.Deep@
var A@ = al@{1, "al"}
var B@ = b.Def@{2, "def"}
var C@ b.DefP@ = &b.In{3, "p"}
var F@ = b.Fn@(pt.Inc)
var M@ = b.M@{"a": {1, "x"}}
var D@ = b.Deep@{Al@: A@, F: pt.Id}
var E@ = df@{}
var X@ = b.In(B@)
`, body: `
	A@.P(x)
	B@.N += y
	C@.W = "w"
	M@.Set("bb")
	E@.N = x
	E@.D.N++
	E@.Al@.P(1)
	D@.P(y)
	D@.D = b.Def@(A@)
	f := F@.Call
	pt.Log(A@.V(1), B@.Twice(), (*C@).W, f(x), F@.Call(y), F@(2), M@.Get("a"), M@["bb"].N, D@.V(1), b.In(B@).V(2), X@.V(1))
	return D@.F.Call(x) + D@.D.Twice(), D@.W + E@.Al@.W
`, vars: "A@ B@ C@ F@! M@ D@ E@ X@!"},

	{name: "standard library", b: `
import "strings"

var Rep@ = strings.NewReplacer("a", "b")
var Up@ = strings.ToUpper
`, a: `
import "bytes"
import "errors"
import "sort"
import "strconv"
import str "strings"
import "time"
import . "unicode/utf8"

const tick@ = 2 * time.Second

var d@ = tick@ + 3*time.Millisecond
var e@ = errors.New("e")
var buf@ = new(bytes.Buffer)
var val@ bytes.Buffer
var bld@ str.Builder
var srt@ = sort.IntSlice{3, 1, 2}
var day@ = time.Tuesday
var at@ = time.Unix(5, 0)
var rc@ = RuneCountInString
var lim@ = RuneError
var fields@ = str.Fields(" a b  c ")
var quoted@ = strconv.Quote("q")
`, body: `
	buf@.Reset()
	buf@.WriteString(b.Rep@.Replace("banana"))
	val@.Reset()
	val@.WriteByte('v')
	bld@.Reset()
	bld@.WriteString(strconv.Itoa(x))
	l := append(sort.IntSlice{}, srt@...)
	sort.Sort(l)
	sort.Sort(sort.Reverse(srt@))
	pt.Log(buf@.String(), val@.Len(), bld@.String(), []int(l), srt@.Len())
	pt.Log(d@.Milliseconds(), day@.String(), at@.Add(d@).Unix(), rc@("äb"), lim@, errors.Is(e@, e@))
	return int(d@/time.Second) + x, fields@[y%3] + quoted@ + b.Up@("u") + e@.Error()
`, vars: "d@! srt@ day@ fields@ quoted@!"},

	{name: "promoted methods", b: `
type Base@ struct{ N int }
func (b *Base@) Inc(i int) int { b.N += i; return b.N }
func (b Base@) Get() int { return b.N }
type Mid@ struct{ *Base@; K int }
type Val@ struct{ Base@; I In }
type Top@ struct{ Mid@; Ifc }
var TopV@ = Top@{Mid@{&Base@{1}, 2}, In{3, "i"}}
var ValV@ Val@
`, a: `
type own@ struct{ b.Val@; l []b.Val@; p *b.Val@; m map[string]*b.Val@ }
var o@ = own@{l: make([]b.Val@, 2), p: &b.Val@{}, m: map[string]*b.Val@{"a": {}}}
var t@ = b.TopV@
var arr@ [2]own@
var ptr@ = &o@
`, body: `
	pt.Log(b.TopV@.Inc(x), t@.Get(), b.TopV@.V(2), b.ValV@.Inc(1), b.ValV@.Get())
	o@.Inc(1)
	o@.Base@.Inc(2)
	o@.Val@.Inc(3)
	o@.l[1].Inc(4)
	o@.p.Base@.Inc(5)
	o@.m["a"].Inc(6)
	arr@[y%2].Inc(7)
	arr@[1].Val@.Base@.Inc(8)
	ptr@.Inc(9)
	(*ptr@).Val@.I.P(1)
	(o@).I.P(2)
	(&o@).I.P(2)
	inc := o@.Inc
	inc(10)
	get := o@.Get
	inc(1)
	ex := (*b.Base@).Inc
	ex(&o@.Base@, 2)
	ev := b.Base@.Get
	f := «arr@[0].Inc¦(&arr@[0]).Inc¦ptr@.Inc¦o@.l[0].Inc¦b.ValV@.Base@.Inc»
	defer o@.Inc(3)
	defer func() { arr@[0].Inc(1) }()
	pt.Log(o@.Get(), get(), ev(o@.Base@), f(y), o@.l[1].N, o@.p.N, o@.m["a"].Get(), arr@[y%2].Get(), ptr@.Get())
	return o@.N, o@.I.W
`, vars: "b.TopV@ b.ValV@ o@ arr@"},

	{name: "generics", b: `
type Num@ interface{ ~int | ~int64 | ~float64 }
func Sum@[T Num@](l ...T) (s T) {
	for _, x := range l {
		s += x
	}
	return
}
func Map@[A, B any](l []A, f func(A) B) []B {
	var out []B
	for _, x := range l {
		out = append(out, f(x))
	}
	return out
}
func Id@[T any](t T) T { return t }
type Stack@[T any] struct{ L []T; n int }
func (s *Stack@[T]) Push(t T) int { s.L = append(s.L, t); s.n++; return len(s.L) }
func (s Stack@[T]) Len() int { return len(s.L) }
func (s *Stack@[_]) N() int { return s.n }
type Pair@[K comparable, V any] struct{ Key K; Val V }
func (p Pair@[K, V]) Swap(v V) Pair@[K, V] { p.Val = v; return p }
func (p *Pair@[K, V]) Set(v V) { p.Val = v }
func MkPair@[K comparable, V any](k K, v V) *Pair@[K, V] { return &Pair@[K, V]{k, v} }
`, a: `
var st@ b.Stack@[string]
var ps@ = b.Pair@[string, b.In]{"k", b.In{1, "v"}}
var pp@ = b.MkPair@("a", 2)
var qq@ = b.MkPair@[int, []b.T](1, nil)
var sum@ = b.Sum@[int]
var sums@ = b.Sum@(1.5, 2)
var id@ = b.Id@("id")
var ids@ = b.Id@[b.In](b.In{2, ""})
var deep@ = map[string]b.Stack@[b.Pair@[int, *b.In]]{"a": {}}
type num@ int
var nm@ num@ = 4

func local@[T b.Num@](st T, l []T) T { return b.Sum@(append(l, st)...) }
`, body: `
	st@.Push("a" + pt.S(x))
	st@.Push(id@)
	ps@.Set(b.In{x, "s"})
	ps@.Val.P(1)
	pp@.Set(y)
	q := pp@.Swap(x)
	push := st@.Push
	push("z")
	pt.Log(st@.Len(), st@.N(), ps@.Key, ps@.Val, *pp@, q.Val, sum@(x, y, 1), sums@, qq@.Key, ids@.V(1), b.Sum@(nm@, 2))
	l := b.Map@([]int{x, y}, func(i int) string { return id@ + pt.S(i) })
	s := deep@["a"]
	s.Push(b.Pair@[int, *b.In]{x, nil})
	deep@["b"] = s
	pt.Log(l, len(deep@), deep@["b"].Len(), local@(nm@, []num@{3, num@(x)}), b.Map@(l, func(s string) bool { return s == st@.L[0] }))
	return local@(x, []int{y}) + ps@.Swap(b.In{}).Val.N, l[0] + st@.L[len(st@.L)-1]
`, vars: "st@ ps@ pp@ sums@! id@! ids@! nm@!"},

	{name: "functions in variables", b: `
var Hook@ = func(i int) int { return i + 1 }
var Hooks@ []func(int) int
func Call@(i int) int { return Hook@(i) }
func On@(f func(int) int) (undo func()) {
	old := Hooks@
	Hooks@ = append(Hooks@[:len(Hooks@):len(Hooks@)], f)
	return func() { Hooks@ = old }
}
`, a: `
var rec@ func(int) int
var tab@ = map[string]func(int) int{"inc": pt.Inc, "call": b.Call@}
var get@ = func() func(string, ...int) int { return func(s string, l ...int) int { return len(s) + len(l) } }
var once@ = get@()
var st@ struct{ f func(int) int; g *func(int) int }
func init() { rec@ = func(i int) int { if i <= 0 { return 0 }; return i + rec@(i-1) } }
`, body: `
	old := b.Hook@
	b.Hook@ = func(i int) int { return old(i) * 2 }
	defer func() { b.Hook@ = old }()
	undo := b.On@(rec@)
	defer undo()
	for i, f := range b.Hooks@ {
		pt.Log(i, f(3))
	}
	st@.f = pt.Id
	st@.g = &st@.f
	pt.Log(b.Call@(x), b.Hook@(y), tab@["inc"](1), tab@["call"](x), get@()("ab", x), once@("c"), st@.f(3), (*st@.g)(4))
	return rec@(y), pt.S(func() int { return rec@(2) }())
`, vars: ""},

	{name: "control flow", a: `
var lim@ = 3
var flag@ = true
var tag@ = b.In{1, "t"}
var any@ interface{} = tag@
var ptd@ b.In
var lst@ = []interface{}{1, "s", b.In{2, "i"}, nil, 2.5, &ptd@}
`, body: `
	i := 0
again:
	i++
	if i < lim@ {
		goto again
	}
	switch lim@ := lim@ + x%3; {
	case lim@ > 3:
		pt.Log("more")
		fallthrough
	case flag@:
		pt.Log("flag", lim@)
	default:
		pt.Log("else")
	}
	switch (tag@) {
	case b.In{1, "t"}:
		pt.Log("tag")
	case b.In{N: lim@}:
		pt.Log("lim")
	}
	for _, v := range lst@ {
		switch lst@ := v.(type) {
		case int, float64:
			pt.Log("number", lst@)
		case b.In:
			pt.Log("in", lst@.N)
		case *b.In:
			pt.Log("ptr", lst@.W)
		case nil:
			pt.Log("nil")
		default:
			pt.Log(lst@)
		}
	}
outer:
	for flag@ := flag@; flag@; flag@ = !flag@ {
		for j := range lst@ {
			if j > lim@ {
				break outer
			}
			if j == 1 {
				continue outer
			}
		}
	}
	if v, ok := any@.(b.In); ok && v == tag@ {
		pt.Log("is tag")
	} else if tag@ := v; !ok {
		pt.Log(tag@)
	}
	for lim@ := lim@; lim@ > 0; lim@-- {
		i += lim@
	}
	func() {
		lim@, tag@ := x, "l"
		pt.Log(lim@, tag@)
	}()
	var n int
	for n = range lim@ {
	}
	return i + n, tag@.W
`, vars: "lim@! flag@! tag@! any@!"},

	{name: "newer language", a: `
var n@ = 4
var l@ = []int{3, 1, 2}
var m@ = map[string]int{"a": 1}
func seq@(k int) func(yield func(int, string) bool) {
	return func(yield func(int, string) bool) {
		for i := 0; i < k; i++ {
			if !yield(i, pt.S(i)) {
				return
			}
		}
	}
}
var all@ = seq@(3)
`, body: `
	s := 0
	for range n@ {
		s++
	}
	for i := range n@ {
		s += i
	}
	for i, t := range seq@(n@) {
		if i == y {
			break
		}
		pt.Log(i, t)
	}
	for i := range all@ {
		s += i
	}
	c := append(l@[:1:1], l@...)
	copy(c[1:], l@[1:])
	mm := map[string]int{"x": m@["a"]}
	clear(mm)
	pt.Log(min(n@, x), max(l@[0], y, n@), c, len(mm), m@["a"])
	fs := []func() int{}
	for i := range 3 {
		fs = append(fs, func() int { return i + n@ })
	}
	arr := [3]int(l@)
	return s + fs[2]() + arr[0], pt.S(fs[0]())
`, vars: "n@! l@! m@!"},

	{name: "receivers", b: `
type R@ struct{ n int }
func (R@) None() int { return 1 }
func (_ R@) Blank(_ int) int { return 2 }
func (*R@) PNone(int, ...string) (x int, _ string) { return 3, "x" }
func (r *R@) P(R@ R@) (r2 *R@) { r.n += R@.n + 1; r2 = r; return }
func (r R@) F(f func(int, string) (int, error), g func() func(int)) (a, b int, err error) {
	if g != nil {
		g()(r.n)
	}
	a, err = f(r.n, "f")
	return
}
func (r *R@) Nil() bool { return r == nil }
func (r R@) String() string { return pt.S(r.n) }
var Rv@ = R@{5}
var Rp@ *R@
var Ri@ interface{ String() string } = R@{6}
`, a: `
func /* before */ sig@ /* name */ (a /* a */ int, // first
	b string, /* b */
	_ ...func(int) (int, error),
) (
	n int, // result
	_ error,
) {
	n = a + len(b)
	return n, nil
}
func single@(a int) (int) { return a }
func fnres@(a int) func(int) (int, error) { return func(i int) (int, error) { return a + i, nil } }
func named@(b, pt int) (string, int) { return "n", b + pt }
func long@(a, b, c, d, e, f, g, h, i, j int) (k, l, m, n int) { k = a + j; l, m, n = b, c, d+e+f+g+h+i; return }
`, body: `
	pt.Log(b.Rv@.None(), b.Rv@.Blank(1), b.Rp@.Nil(), b.Ri@.String(), (&b.Rv@).Nil())
	p, q := b.Rv@.PNone(x, "a")
	r := b.Rv@.P(b.Rv@).P(b.R@{})
	a, c, err := b.Rv@.F(func(i int, s string) (int, error) { return i + x, pt.Err(s) }, func() func(int) { return func(i int) { pt.Log(i) } })
	n, e2 := sig@(x, "sig", nil)
	f, e3 := fnres@(x)(y)
	s, t := named@(x, y)
	pt.Line()
	k, l, m, o := long@(x, y, 1, 2, 3, 4, 5, 6, 7, 8)
	pt.Log(p, q, r == &b.Rv@, a, c, err, n, e2, f, e3, s, t, k, l, m, o, b.R@.String(*r), (*b.R@).Nil(nil))
	return single@(x), b.Rv@.String()
`, vars: "b.Rv@"},

	{name: "initialisation", b: `
var First@ = Second@ + 1
var Second@ = second@()
var calls@ []string
func second@() int { calls@ = append(calls@, "second"); return 4 + len(third@) }
var third@ = func() string { calls@ = append(calls@, "third"); return "3" }()
var _ = register@("blank")
var _, Both@ = two@()
func two@() (int, string) { calls@ = append(calls@, "two"); return 1, "both" }
func register@(s string) bool { calls@ = append(calls@, s); return true }
func init() { calls@ = append(calls@, "init1"); First@ *= 2 }
func init() { calls@ = append(calls@, "init2"+Both@); First@++ }
func Calls@() []string { return calls@ }
`, a: `
var got@ = b.First@ + len(b.Calls@())
var lazy@ = b.Calls@
var (
	x@, y@ = y@+1, z@()
	w@     = [...]int{x@, y@}
)
func z@() int { return got@ }
func init() { got@ += w@[0] }
`, body: `
	pt.Log(b.First@, b.Second@, b.Both@, b.Calls@(), got@, x@, y@, w@, lazy@())
	return got@ + x, b.Both@
`, vars: "got@! x@! b.First@! b.Both@!"},

	{name: "basic types", a: `
var c@ = complex(1, 2)
var u@ uint8 = 250
var by@ = []byte("abc")
var ru@ = []rune("äbc")
var st@ = string(ru@[1:])
var b0@ = st@[0]
var sh@ = 1 << 3
var fl@ = 1 / 2.0
var i6@ = int64(7)
var cmp@ = i6@ > 3 && st@ != ""
var neg@ = -i6@
var not@ = !cmp@
var rn@ = 'r'
var div@ = 7 / 2 * 1.0
var mix@ = 'a' + 1
var ptr@ = &i6@
var rat@ = float32(2) / 3
var cc@ = real(c@) + imag(c@)
`, body: `
	u@ += uint8(x)
	by@[y%3] ^= 0x20
	i6@ <<= uint(y % 5)
	*ptr@ |= 1
	c@ *= complex(0, 1)
	pt.Log(real(c@), u@, string(by@), st@, b0@, sh@, fl@, i6@, cmp@, neg@, not@, rn@, div@, mix@, cc@, rat@ < 1)
	for i, r := range st@ {
		pt.Log(i, r)
	}
	return int(u@) + sh@<<uint(y%3) + int(neg@&^i6@), string(rn@) + st@[1:]
`, vars: "c@ u@ by@ st@! b0@! sh@! fl@! i6@ cmp@! neg@! not@! rn@! div@! mix@!"},

	{name: "pointers", a: `
var v@ = b.MkT(3)
var p@ = &v@
var pp@ = &p@
var in@ = &v@.In
var el@ = &v@.Ar2[1]
var sl@ = v@.L[1:]
var nm@ = &b.DefT
`, body: `
	(*pp@).A += x
	(**pp@).B = y
	in@.N++
	el@.P(2)
	q := &p@.Arr[y%3]
	*q += 4
	r := &(*pp@).Q
	r.W = "r"
	t := &v@.Ar2[0].N
	*t = 5
	w := &sl@[0]
	*w++
	z := &v@.PI.N
	*z--
	pa, pb := &v@, &p@
	(*pb).Q.P(1)
	pa.Arr[0], pa.Arr[1] = pa.Arr[1]+1, pa.Arr[0]
	nm@.A++
	b.DefT.In.P(1)
	(&v@.R).P(3)
	(&(v@)).P(1)
	(&v@.Ar2[y%2]).P(1)
	pt.Log(v@.A, p@.B, (*pp@).N, in@ == &v@.In, q == &v@.Arr[y%3], &(*p@) == pa, v@.Ar2, v@.Arr, v@.Q, v@.R, v@.PI.N, v@.L, b.DefT.N)
	return *q, r.W + el@.W
`, vars: "v@ b.DefT"},

	{name: "defers", a: `
var st@ []string
var err@ = pt.Err("err")
var cnt@ = 0
func step@(s string) func() { st@ = append(st@, s); return func() { st@ = append(st@, "end "+s) } }
func res@(i int) (r int, err error) {
	defer step@("res")()
	defer func() {
		if e := recover(); e != nil {
			err = e.(error)
			r += cnt@
		}
	}()
	defer func(c int) { r += c }(cnt@)
	cnt@ += i
	if i%3 == 0 {
		panic(err@)
	}
	if i%3 == 1 {
		return i * 2, nil
	}
	r = 7
	return
}
func nest@(i int) (s string) {
	defer func() {
		s += pt.Panic(recover())
	}()
	defer func() {
		defer func() { s += pt.Panic(recover()) }()
		if i%2 == 0 { panic("second") }
	}()
	if i%4 < 2 { var m map[string]int; m["a"] = cnt@ }
	for k := 0; k < 2; k++ { defer func() { s += pt.S(k) }() }
	return "n"
}
`, body: `
	st@ = nil
	for i := 0; i < 3; i++ {
		pt.Log(res@(x + i))
	}
	s := nest@(y)
	pt.Log(st@, cnt@)
	return cnt@, s
`, vars: "st@ cnt@ err@!"},

	{name: "layout", a: "\nvar a@, b@ = 1, `raw\n\ttext`; var c@ = 3\n" + `
var d@ = [...]struct {
	name string // a name
	want int
}{
	{"x", 1}, // one
	{
		name: "y",
		want: a@,
	},
}
var (
	e@ /* e */ = /* value */ a@ /* end */ // trailing
	// documented
	f@ string

	g@ = func() int { // literal
		return 4
	}()
	h@ map[string]struct {
		n int
	} = nil
	k@ = map[string]func(
		a int,
	) int{
		"a": pt.Inc,
	}
)
var 日@ = 5; var ñ@ string = "ñ"
type T@ struct { n int; m int }; var t@ = T@{1, 2}; func (t *T@) inc() { t.n++ }
func one@(i int) int { return i + a@ }; func two@(i int) int { return one@(i) + one@(i) }
//go:noinline
func /* c */ three@ (i int) (r int) { /* c */ r = i; return }
func empty@() {}
func blank@() { ; }
func commented@() { // nothing
	/* here */
}
func late@() (r int) {

	// a comment before the first statement

	return c@
}
`, body: `
	pt.Line()
	a@ ++ ; b@ += "!" ; t@ . inc ( ) ; t@.
		n += 2
	pt.Line()
	r := 日@ + a@ /* a */ + d@ /* d */ [ /* i */ 1 ] . want
	if a@ := a@; a@ > 0 { pt.Log(a@); empty@(); blank@(); commented@() }
	pt.Log(b@, c@, e@, f@, g@, len(h@), k@["a"](
		x,
	), two@(x), three@(y),
		late@())
	pt.Line()
	return r + t@.n, ñ@ + d@[0].name
`, vars: "a@ b@ c@! e@! f@! t@ ñ@! 日@!"},

	{name: "interfaces", b: `
type Sh@ interface {
	Ifc
	Area@() int
}
type Sq@ struct{ S int }
func (s Sq@) Area@() int { return s.S * s.S }
func (s Sq@) V(i int) int { return s.S + i }
type Grow@ interface{ Grow(int) Sh@ }
func (s *Sq@) Grow(i int) Sh@ { s.S += i; return s }
var Shape@ Sh@ = Sq@{2}
var Shapes@ = []Sh@{Sq@{1}, &Sq@{3}}
func Mk@(i int) Sh@ { return &Sq@{i} }
`, a: `
var s@ = b.Mk@(3)
var g@ = s@.(b.Grow@)
var e@ error = my@{"e"}
type my@ struct{ s string }
func (m my@) Error() string { return "my " + m.s }
var z@ b.Sh@
var w@ = wrap@{s@}
type wrap@ struct{ b.Sh@ }
func (w wrap@) Area@() int { return -w.Sh@.Area@() }
var sq@ b.Sq@
var asg@ b.Grow@ = &sq@
`, body: `
	s := 0
	for _, sh := range append(b.Shapes@, b.Shape@, w@) {
		s += sh.Area@() + sh.V(1)
	}
	g@.Grow(1)
	asg@.Grow(x % 5).V(1)
	sq@.Grow(2)
	f := b.Shape@.Area@
	me, ok := e@.(my@)
	_, no := b.Shape@.(b.Grow@)
	pt.Log(s, f(), me.s, ok, no, z@ == nil, s@.(*b.Sq@).S, w@.V(1), sq@.S, b.Sh@.Area@(w@), asg@.(*b.Sq@) == &sq@)
	switch v := s@.(type) {
	case *b.Sq@:
		v.S--
	}
	return s, e@.Error()
`, vars: "s@ b.Shape@! e@!"},
	{name: "shadowing", b: `
var N@ = 1
type Ty@ int
func Fn@() int { return 2 }
`, a: `
import "sort"

var n@, m@, k@ = 1, 2, 3
var s@ = []string{"a", "b"}
type ty@ struct{ n@ int; m@ []int }
func (n@ ty@) m@m(m@ int) (k@ int) { k@ = n@.n@ + m@; return }
func sh@(n@ int, s@ ...string) (m@ string, k@ int) {
	k@ = n@ + len(s@)
	for n@ := range s@ { m@ += s@[n@] + pt.S(n@) }
	return
}
func locals@(x int) (r []int) {
	{
		type n@ struct{ m@ int }
		v := n@{m@: m@}
		const m@ = 40
		var k@ = n@{m@}
		r = append(r, v.m@, m@, k@.m@)
	}
	if x > 0 {
		type m@ int
		type k@ []m@
		for _, k@ := range (k@{m@(x), 2}) { r = append(r, int(m@(x)+k@)) }
		r = append(r, len(k@(nil)), int(*new(m@)))
	}
	r = append(r, n@, m@, k@)
	f := func(n@ int) (m@ int) { m@ = n@ + k@; return }
	r = append(r, f(x))
	var n@, g = n@ + 10, func() int { return n@ }
	r = append(r, n@, g())
	m@, e := m@*2, m@
	r = append(r, m@, e)
	if k@, ok := x, x > 0; ok { r = append(r, k@) } else if m@ := k@ + 1; m@ > 0 { r = append(r, m@) }
	select { case k@ := <-pt.Never(): r = append(r, k@); default: r = append(r, k@) }
	sort.Slice(r, func(i, k@ int) bool { return r[i] < r[k@] })
	for k@ := 0; k@ < 2; k@++ { k@ := k@; r = append(r, k@) }
	go func(n@ int) {}(n@)
	return
}
`, body: `
	b := b.N@ + b.Fn@()
	t := ty@{n@: n@, m@: []int{m@, k@}}
	s, k := sh@(x, s@...)
	pt.Log(b, t, t.m@m(k@), s, k, locals@(y))
	var s@ = s@[1:]
	{
		pt := x
		_ = pt
		k@ := k@ + pt
		x = k@
	}
	return x + n@, s@[0]
`, vars: "n@! m@! k@! s@! b.N@!"},

	{name: "embedded generics", b: `
type Box@[V any] struct{ X V; n int }
func (b *Box@[V]) Put(v V) int { b.X = v; b.n++; return b.n }
func (b Box@[V]) Peek() V { return b.X }
type Two@[K comparable, V any] struct {
	Box@[V]
	Key  K
	More Box@[K]
	Ptr  *Box@[V]
	List []Box@[V]
	Arr  [2]Box@[V]
}
`, a: `
type int@ struct{ b.Two@[string, int] }
var t@ = b.Two@[string, b.In]{Key: "k", Ptr: &b.Box@[b.In]{}, List: make([]b.Box@[b.In], 2)}
var u@ int@
var w@ = b.Box@[b.T]{}
var arr@ [2]b.Box@[b.In]
`, body: `
	pt.Log(t@.Put(b.In{x, "p"}), t@.More.Put("m"), t@.Ptr.Put(b.In{}), t@.List[1].Put(b.In{1, "l"}), t@.Arr[y%2].Put(b.In{}))
	u@.Put(x)
	u@.Two@.Put(y)
	u@.Two@.Box@.Put(y)
	u@.More.Put("u")
	t@.X.P(1)
	t@.More.X += "x"
	t@.Box@.X.P(2)
	t@.List[1].X.P(1)
	w@.X.P(3)
	w@.X.Q.P(3)
	arr@[1].X.P(1)
	arr@[y%2].Put(b.In{y, "a"})
	p := t@.Put
	p(b.In{7, "q"})
	sl := t@.Arr[:]
	sl[0].Put(b.In{1, "s"})
	return t@.Peek().V(1) + u@.Peek() + t@.Arr[0].X.N, t@.X.W + t@.More.Peek()
`, vars: "t@ u@ w@ arr@"},

	{name: "inferred operators", b: `
type Bo@ bool
type St@ string
type F32@ float32
type I8@ int8
type By@ []byte
var Bv@ Bo@ = true
var Sv@ St@ = "st"
var Fv@ F32@ = 1.5
var Iv@ I8@ = 5
var Yv@ = By@("by")
var Arr@ = [4]I8@{1, 2, 3, 4}
`, a: `
var a1@ = b.Bv@ && true
var a2@ = !b.Bv@
var a3@ = b.Bv@ == true
var a4@ = b.Iv@ > 3 || false
var a5@ = b.Sv@ + "x"
var a6@ = "x" + b.Sv@
var a7@ = -b.Iv@
var a8@ = +b.Fv@
var a9@ = ^b.Iv@
var c1@ = b.Iv@ << 2
var c2@ = 1 << b.Iv@
var c3@ = b.Iv@ &^ 1
var c4@ = 3 * b.Iv@
var c5@ = 3 * b.Fv@ / 2
var c6@ = 'a' * 2.0
var c7@ = 2i * 1
var c8@ = 7 % 4
var c9@ = 1<<3 | 'a'
var d1@ = "abc"[1]
var d2@ = "abc"[1:]
var d3@ = b.Sv@[0]
var d4@ = b.Sv@[:1]
var d5@ = b.Yv@[0]
var d6@ = b.Yv@[:1]
var d7@ = b.Arr@[1]
var d8@ = b.Arr@[1:]
var d9@ = -(b.Iv@ - 1)
var e1@ = (b.Sv@) + (("y"))
var e2@ = (b.Iv@ + 1) * 2
var e3@ = b.Iv@ == 5
var e4@ = b.Sv@ + b.Sv@ == "x" || bool(b.Bv@)
var e5@ = 1 + 2.0
var e6@ = 'a' + 1.5
var e7@ = 2 - 1i
var e8@ = "a" < "b"
var e9@ = 1 / 3 * 3.0
`, body: `
	pt.Log(a1@, a2@, a3@, a4@, a5@, a6@, a7@, a8@, a9@)
	pt.Log(c1@, c2@, c3@, c4@, c5@, c6@, imag(c7@), c8@, c9@)
	pt.Log(d1@, d2@, d3@, d4@, d5@, []byte(d6@), d7@, d8@, d9@)
	pt.Log(e1@, e2@, e3@, e4@, e5@, e6@, real(e7@), e8@, e9@)
	d8@[0] += b.I8@(y)
	return int(c1@) + c2@ + x, string(e1@) + d2@
`, vars: "a1@! a2@! a3@! a5@! a7@! a8@! c1@! c4@! d1@! d2@! d8@ b.Arr@"},

	{name: "inferred calls", b: `
type C64@ complex64
var Cv@ complex64 = 2
var Fv@ float32 = 3
var Ifv@ interface{} = In{4, "if"}
var Mp@ = map[string][]In{"k": {{1, "a"}}}
var Nu@ Num = 6
func (t *T) Me@(i int, l ...string) (int, error) { return t.A + i + len(l), nil }
func (t T) Mv@() func() T { return func() T { return t } }
func Many@() (int, []In, map[string]*T, error) { return 1, []In{{2, "m"}}, nil, nil }
var Tv@ = MkT(7)
var Tp@ = NewT(8)
var Chv@ = make(chan In, 2)
`, a: `
import "unsafe"

var a1@ = len(b.Tv@.L)
var a2@ = cap(b.Mp@["k"])
var a3@ = min(1, 2.5)
var a4@ = max(b.Nu@, 1)
var a5@ = complex(b.Fv@, 1)
var a6@ = real(b.Cv@)
var a7@ = imag(complex(1, 2))
var a8@ = unsafe.Sizeof(b.Fv@)
var a9@ = error(nil)
var c1@ = any(1)
var c2@ = interface{}(b.Nu@)
var c3@ = byte(1)
var c4@ = rune(66)
var c5@ = string([]byte("x"))
var c6@ = []rune("ab")
var c7@ = uintptr(3)
var c8@ = uint(4)
var c9@ = append([]b.In(nil), b.In{1, ""})
var d1@ = b.T.V
var d2@ = (*b.T).Me@
var d3@ = b.Tp@.Me@
var d4@ = b.Tp@.U
var d5@ = b.Tv@.Mv@()
var d6@ = b.Tv@.Mv@()()
var d7@ = b.Tv@.With(b.In{3, "w"}).In
var d8@ = b.MkT
var d9@ = pt.Inc(1) + b.MkT(2).A
var e1@, e2@, e3@, e4@ = b.Many@()
var f1@, f2@ = b.Ifv@.(b.In)
var f3@ = b.Ifv@.(b.In)
var f4@ = b.Ifv@.(interface{ V(int) int })
var f5@, f6@ = b.Mp@["k"]
var f7@ = b.Mp@["k"][0]
var f8@ = b.Mp@["k"][0].W
var f9@ = func(i int) (b.In, error) { return b.In{i, ""}, nil }
var g1@, g2@ = func() (int, b.Num) { return 1, 2 }()
var g3@ = struct{ N b.Num }{3}.N
var g4@ = []int{1, 2, 3}[1]
var g5@ = map[string]b.In{"a": {1, "x"}}["a"]
var g6@ = &b.Tv@.In
var g7@ = *g6@
var g8@ = (*g6@).N
var g9@ = &[]b.In{{1, "l"}}[0]
var h1@ = *&b.Tv@.Num
var h2@ = (&b.T{A: 3}).A
var h3@ = new(b.T).With(b.In{})
var h4@ = make(map[b.In]bool)
var h5@ = b.Tv@.F(3)
var h6@ = b.Tv@.IF
var h7@ = b.Tv@.IF.V(3)
var h8@ = b.Num(3).Dbl()
var h9@ = b.Tv@.Dbl() + 1
var i1@ = new(int)
var i2@ = b.Tp@.PI.V
var i3@ = len(b.Chv@)
var i4@ = b.Chv@
var i5@ = b.G[b.In]{b.In{1, "g"}, 2}
var i6@ = b.G[b.In]{}.Get()
var i7@ = b.MkG(3).Get()
var i8@ = b.MkG(3).X
var i9@ = i5@.X
`, body: `
	pt.Log(a1@, a2@, a3@, a4@, real(a5@), a6@, a7@, a8@, a9@)
	pt.Log(c1@, c2@, c3@, c4@, c5@, c6@, c7@, c8@, c9@)
	n, _ := d2@(b.Tp@, 1, "a")
	m, _ := d3@(2)
	pt.Log(d1@(b.Tv@, 1), n, m, d4@(1), d5@().A, d6@.A, d7@, d8@(2).B, d9@)
	i, _ := f9@(3)
	pt.Log(e1@, e2@, e3@, e4@, f1@, f2@, f3@, f4@.V(1), f5@, f6@, f7@, f8@, i)
	g6@.N += x
	d7@.P(1)
	e2@[0].P(2)
	f7@.N++
	g5@.P(1)
	g9@.P(1)
	h4@[b.In{x, ""}] = true
	*i1@ += y
	i5@.X.P(1)
	i5@.P(b.In{5, "i5"})
	i9@.P(4)
	pt.Log(g1@, g2@.Dbl(), g3@.Dbl(), g4@, g5@, g7@.V(1), g8@, g9@.V(2), h1@.Dbl(), h2@, h3@.A, len(h4@), h5@, h6@.V(1), h7@, h8@.Dbl(), h9@, i2@(1), i3@, cap(i4@), i5@, i6@, i7@, i8@, i9@)
	return *i1@ + a1@, d7@.W + f7@.W
`, vars: "b.Tv@ b.Tp@ d7@ e2@ f7@ g5@ g6@ g9@ h4@ i1@ i5@ i9@ a1@! a4@! c3@! c5@! h2@! g4@! i8@!"},

	{name: "local types from elsewhere", b: `
type Outer@ struct {
	Inner struct{ A, B int }
	Fn    func(In) (Num, error)
	Arr   [2]struct{ In }
	If    interface{ Ifc; Name() string }
	*Deep@
}
type Deep@ struct{ Deeper@ }
type Deeper@ struct{ Deepest map[string]In; Ptr **In }
func NewOuter@() *Outer@ {
	i := &In{1, "o"}
	return &Outer@{Deep@: &Deep@{Deeper@{map[string]In{"a": {}}, &i}}, Fn: func(i In) (Num, error) { return Num(i.N), nil }}
}
var Out@ = NewOuter@()
var OutV@ Outer@
`, a: `
var o@ = b.NewOuter@()
var in@ = o@.Inner
var arr@ = o@.Arr
var el@ = o@.Arr[1]
var de@ = o@.Deepest
var pp@ = *o@.Ptr
var fn@ = o@.Fn
var v@ = b.OutV@
var vi@ = v@.Inner.A
var wp@ = &v@.Arr[1].In
`, body: `
	o@.Inner.A = x
	b.OutV@.Inner.B++
	b.OutV@.Arr[y%2].P(1)
	b.OutV@.Arr[1].In.N += 3
	b.Out@.Arr[1].P(2)
	v@.Arr[0].P(x)
	in@.A++
	arr@[1].P(2)
	el@.P(3)
	el@.In.P(3)
	de@["b"] = b.In{len(de@), "d"}
	pp@.P(1)
	(*b.Out@.Ptr).P(1)
	(**o@.Ptr).P(1)
	b.Out@.Deepest["z"] = b.In{y, "z"}
	v@.Inner = o@.Inner
	wp@.P(1)
	n, _ := fn@(b.In{y, ""})
	pt.Log(in@, arr@, el@.N, len(de@), pp@.N, n.Dbl(), v@.Inner.A, vi@, wp@.W, o@.Deep@.Deeper@.Deepest["a"].V(1), b.OutV@.If == nil)
	return b.OutV@.Arr[1].N + b.Out@.Arr[1].In.N, b.Out@.Deepest["z"].W + (*b.Out@.Ptr).W
`, vars: "b.Out@ b.OutV@ o@ in@ arr@ el@ de@ pp@ v@ vi@! wp@"},

	{name: "type parameters", b: `
type L@[E any] []E
func (l L@[E]) First() (e E) { if len(l) > 0 { e = l[0] }; return }
func (l *L@[E]) Add(e E) *L@[E] { *l = append(*l, e); return l }
type A@[E any] [2]E
func (a *A@[E]) Set(i int, e E) { a[i] = e }
type M@[K comparable, E any] map[K]E
type P@[E any] struct{ E *E; N int }
type Node@[T any] struct { Val T; Next *Node@[T]; kids []Node@[T] }
func (n *Node@[T]) Push(t T) *Node@[T] { return &Node@[T]{Val: t, Next: n} }
func (n Node@[T]) Len() int { if n.Next == nil { return 1 }; return 1 + n.Next.Len() }
type F@[A, R any] func(A) R
func (f F@[A, R]) Do(a A) R { return f(a) }
func Zero@[T any]() (t T) { return }
func Ptr@[T any](t T) *T { return &t }
func Keys@[M ~map[K]V, K comparable, V any](m M) int { return len(m) }
`, a: `
var n@, m@ = 1, 2
var l@ b.L@[b.In]
var ll@ = b.L@[b.In]{{1, "a"}, {2, "b"}}
var ar@ b.A@[b.In]
var aa@ = b.A@[b.T]{}
var mp@ = b.M@[string, b.In]{"a": {1, "m"}}
var no@ = b.Node@[b.In]{Val: b.In{1, "n"}}
var np@ = &b.Node@[string]{Val: "s"}
var fu@ = b.F@[int, string](pt.S)
var ze@ = b.Zero@[b.In]()
var pt@ = b.Ptr@(3)
var pi@ = b.Ptr@(b.In{3, "p"})
var pe@ = b.P@[int]{new(int), 1}
type my@[n@ any] struct{ m@ n@; b.L@[n@] }
func (k my@[m@]) get(v m@) m@ { var z m@ = k.m@; _ = m@(v); return z }
func conv@[k@ any, n@ ~int | ~int64](x int, f func(k@) n@) n@ { var e k@; return n@(x) + n@(m@) + f(e) }
var my1@ my@[b.In]
`, body: `
	l@.Add(b.In{x, "l"}).Add(b.In{y, "k"})
	l@[0].P(1)
	ll@[y%2].P(2)
	ar@[1].P(1)
	ar@.Set(0, b.In{x, "ar"})
	(&ar@).Set(1, ar@[0])
	aa@[y%2].P(1)
	aa@[1].Q.P(1)
	aa@[1].In.P(1)
	no@.Val.P(x)
	no@.Push(b.In{}).Push(no@.Val)
	np@ = np@.Push("t")
	ze@.P(1)
	*pt@ += y
	pi@.P(1)
	my1@.m@.P(1)
	my1@.Add(b.In{9, "my"})
	my1@.L@[0].P(1)
	my1@.L@.Add(b.In{8, ""})
	sl := ar@[:]
	sl[1].P(2)
	for i := range aa@ {
		aa@[i].A++
	}
	for _, e := range ll@ {
		pt.Log(e)
	}
	pt.Log(l@.First(), ll@.First(), mp@["a"].V(1), b.Keys@(mp@), no@.Len(), np@.Len(), fu@.Do(3), fu@(2), my1@.get(b.In{}), conv@(x, func(s string) int { return len(s) + n@ }))
	return len(l@) + aa@[1].A + *pt@, np@.Val + pi@.W
`, vars: "n@! m@! l@ ll@ ar@ aa@ mp@! no@ np@ ze@ pt@ pi@ my1@"},

	{name: "internal packages", b: `
import x "PREFIX/b/internal/x@"

type Client@ = x.Client
type Conn@ x.Conn
var Def@ = x.New(2)
func New@(i int) *x.Client { return x.New(i) }
func NewV@(i int) x.Client { return *x.New(i) }
func Clients@() map[string][]*x.Client { return map[string][]*x.Client{"a": {x.New(1)}} }
func Conns@() (In, x.Conn, error) { return In{1, "c"}, x.Conn{N: 2}, nil }
`, a: `
var c@ = b.New@(3)
var v@ = b.NewV@(4)
var m@ = b.Clients@()
var i@, k@, e@ = b.Conns@()
var al@ b.Client@ = b.NewV@(5)
var ac@ = b.Conn@{N: 1}
var dc@ = b.Def@.Conn
var j@ = b.In{6, "j"}
`, body: `
	b.Def@.Add(x)
	c@.Add(y)
	v@.Add(1)
	v@.Conn.N++
	m@["a"][0].Add(2)
	al@.Add(3)
	ac@.N++
	dc@.Inc()
	k@.Inc()
	j@.P(1)
	pt.Log(c@.N, v@.N, m@["a"][0].N, i@, k@.N, e@, al@.N, ac@.N, dc@.N, v@.Conn.N, b.Def@.Get())
	return c@.Get() + b.Def@.N, j@.W
`, more: map[string]string{"b/internal/x@/x.go": `
package x

type Client struct {
	N int
	Conn Conn
}

type Conn struct{ N int }

var made int

func New(i int) *Client { made++; return &Client{N: i} }
func (c *Client) Add(i int) { c.N += i }
func (c Client) Get() int { return c.N + made - made }
func (c *Conn) Inc() { c.N++ }
`}, vars: "c@ v@ m@ i@! k@ al@ ac@ dc@ j@ b.Def@"},

	{name: "several files", b: `
import "sync"

type St@ struct { N int; mu sync.Mutex }
func (s *St@) Add(i int) int { s.mu.Lock(); defer s.mu.Unlock(); s.N += i; return s.N }
func Mk@(i int) *St@ { return &St@{N: i} }
var Shared@ St@
`, a: `
var s1@ = b.Mk@(1)
var i1@ = b.MkIn(2)
var in1@ = b.In{1, "in"}
var st1@ b.St@
var g1@ = b.MkG(3)
`, body: `
	s2@.Add(x)
	st1@.Add(y)
	b.Shared@.Add(1)
	i2@.P(1)
	in2@.P(2)
	g2@.P(x)
	pt.Log(s1@.Add(0), s2@ == s1@, i2@, i1@, in2@, st1@.Add(0), b.Shared@.N, g2@.Get())
	pt.Log(more@(y))
	return g2@.X + s1@.N, in2@.W + i2@.W
`, more: map[string]string{"a/more@.go": `
package a

var s2@ = s1@
var i2@, in2@ = i1@, in1@
var g2@ = g1@

func more@(i int) (r int) {
	st1@.Add(i)
	in2@.N++
	for i2@ := 0; i2@ < i; i2@++ {
		r += i2@ + in2@.N
	}
	return r + s2@.N
}
`, "a/late@.go": `// Package comment.
//
// of several lines

package a; import ( "PREFIX/b" ); import . "strings"

/* comment */ var rep@, fi@ = Repeat("x", 2), Fields("a b"); var l@ = b.L@t{1}; func late@(x int) string {
	return rep@ + fi@[x%2] +
		ToUpper(rep@) }

func init() { s1@.Add(len(late@(1)) + l@[0]) }
`, "b/l@.go": `
package b
type L@t []int`}, vars: "s1@ s2@ i1@! in1@! st1@ g1@! i2@ in2@ g2@ b.Shared@"},

	{name: "line directives", a: `
var a@ = 1
//line other@.y:100
var b@ = func() int {
	return a@ }()
func f@(i int) (r int) {
	/*line third@.y:7:3*/ r = a@ + i
	pt.Line()
	return r
}
//line odd.go:500
func g@() int { pt.Line(); return b@ }
//export g@
//go:noinline
func h@() { pt.Line() }
`, body: `
	a@++
	h@()
	return f@(x) + g@(), pt.S(a@ + b@)
`, vars: "a@ b@!"},
}
