package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/xhd2015/xgo/support/netutil"
	"verif.local/io/sys"
)

// S09: JSON request handlers.

func init() {
	profiles["S09"] = &profile{gen: gen09, run: run09}
}

var outcomes09 = []string{"value", "nil", "string", "map", "list", "bytes", "big", "error", "param", "wrapped", "status", "valerr",
	"panic-string", "panic-error", "panic-param", "panic-int", "panic-runtime", "panic-nilmap", "panic-struct", "panic-abort", "panic-typed-nil",
	"chan", "func", "nan", "cycle", "marshalerr"}

func gen09(r *rng, p *Plan) {
	n := 1 + r.n(5)
	for i := 0; i < n; i++ {
		c := &Op{K: "client", L: i}
		m := 1 + r.n(4)
		for j := 0; j < m; j++ {
			o := &Op{K: "req", N: outcomes09[r.n(len(outcomes09))], A: int64(r.n(1000)), T: r.n(6), S: r.pick("GET", "GET", "POST", "PUT")}
			if r.p(10) {
				o.F = 1
			}
			c.B = append(c.B, o)
		}
		p.Main = append(p.Main, c)
	}
}

type statusErr struct{ code int }

func (e *statusErr) Error() string       { return fmt.Sprintf("status error %d", e.code) }
func (e *statusErr) HttpStatusCode() int { return e.code }

type valErr struct{ A int }

func (e valErr) Error() string { return fmt.Sprintf("value error %d", e.A) }

type badMarshal struct{ A int }

func (b badMarshal) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("cannot marshal %d", b.A) }

type val09 struct {
	ID   int
	Name string `json:"name"`
	L    []int  `json:",omitempty"`
}

func run09(p *Plan) {
	pr := sys.Start("server", "/", nil, func() int {
		for _, c := range p.Main {
			c := c
			sys.Spawn(func() {
				for i, o := range c.B {
					req09(c.L*100+i, o)
				}
			})
		}
		for i := 0; i < 40; i++ {
			sys.Sleep(1000000)
		}
		return 0
	})
	pr.Wait()
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
}

func req09(id int, o *Op) {
	w := httptest.NewRecorder()
	req := httptest.NewRequest(o.S, fmt.Sprintf("/x?id=%d", id), nil)
	var want interface{}
	desc := "" // expected in the description of the failure
	fail := true
	calls := 0
	var escaped interface{}
	h := func(ctx context.Context, r *http.Request) (interface{}, error) {
		calls++
		if r != req {
			viol("request", "request %d got another request", id)
		}
		for i := 0; i < o.T; i++ {
			sys.Y()
			if i == 3 {
				sys.Sleep(1000)
			}
		}
		events++
		stat("outcome:" + o.N)
		switch o.N {
		case "value":
			want, fail = &val09{ID: id, Name: fmt.Sprint("<v>", o.A), L: []int{int(o.A)}}, false
			return want, nil
		case "nil":
			fail = false
			return nil, nil
		case "string":
			want, fail = fmt.Sprintf("s%d", o.A), false
			return want, nil
		case "map":
			want, fail = map[string]interface{}{"id": id, "a": o.A, "n": nil}, false
			return want, nil
		case "list":
			want, fail = []interface{}{id, "x", nil}, false
			return want, nil
		case "bytes":
			want, fail = json.RawMessage(fmt.Sprintf(`{"raw":%d}`, id)), false
			return want, nil
		case "big":
			want, fail = strings.Repeat("x", 20000), false
			return want, nil
		case "error":
			desc = fmt.Sprintf("failed %d", id)
			var v interface{}
			if o.F == 1 {
				v = "partial"
			}
			return v, errors.New(desc)
		case "param":
			desc = fmt.Sprintf("bad %d", id)
			return nil, netutil.ParamErrorf("bad %d", id)
		case "wrapped":
			desc = fmt.Sprintf("bad %d", id)
			return nil, fmt.Errorf("wrap: %w", netutil.ParamErrorf("bad %d", id))
		case "status":
			e := &statusErr{[]int{400, 403, 404, 409, 500, 503}[o.A%6]}
			desc = e.Error()
			return nil, e
		case "valerr":
			desc = fmt.Sprintf("value error %d", id)
			return nil, valErr{id}
		case "panic-string":
			desc = fmt.Sprintf("boom %d", id)
			panic(desc)
		case "panic-error":
			desc = fmt.Sprintf("boom %d", id)
			panic(errors.New(desc))
		case "panic-param":
			desc = fmt.Sprintf("bad %d", id)
			panic(netutil.ParamErrorf("bad %d", id))
		case "panic-int":
			desc = fmt.Sprint(7000 + id)
			panic(7000 + id)
		case "panic-runtime":
			desc = "index out of range"
			var l []int
			_ = l[id+5]
		case "panic-nilmap":
			desc = "nil map"
			var m map[string]int
			m["a"] = id
		case "panic-struct":
			desc = fmt.Sprint(id)
			panic(val09{ID: id})
		case "panic-abort":
			panic(http.ErrAbortHandler)
		case "panic-typed-nil":
			var e *statusErr
			panic(fmt.Errorf("typed nil: %v", e == nil))
		case "chan":
			return make(chan int), nil
		case "func":
			return map[string]interface{}{"f": func() {}}, nil
		case "nan":
			return []float64{1, math.NaN()}, nil
		case "cycle":
			m := map[string]interface{}{}
			m["m"] = m
			return m, nil
		case "marshalerr":
			desc = fmt.Sprintf("cannot marshal %d", id)
			return badMarshal{id}, nil
		}
		return nil, errors.New("?")
	}
	func() {
		defer func() { escaped = recover() }()
		netutil.HandleJSON(w, req, h)
	}()
	if escaped != nil {
		// the server closes the connection: the client sees a failure, but no
		// description
		if !fail {
			viol("escaped", "%s: succeeded, the wrapper panicked: %v", o.N, escaped)
		}
		if o.N != "panic-abort" {
			viol("escaped", "%s: the panic escaped the wrapper: %v", o.N, escaped)
		}
		return
	}
	res := w.Result()
	body := w.Body.String()
	if calls != 1 {
		viol("calls", "the handler was called %d times", calls)
	}
	if fail {
		if res.StatusCode < 400 {
			viol("success:"+o.N, "%s: the client received status %d, body %.60q", o.N, res.StatusCode, body)
		}
		if !strings.Contains(body, desc) || strings.TrimSpace(body) == "" {
			viol("description:"+o.N, "%s: the client received status %d, body %.60q, want %q", o.N, res.StatusCode, body, desc)
		}
		if o.N == "param" && res.StatusCode != 400 {
			viol("param", "%s: status %d", o.N, res.StatusCode)
		}
		if o.N == "status" && res.StatusCode != []int{400, 403, 404, 409, 500, 503}[o.A%6] {
			viol("param", "%s: status %d", o.N, res.StatusCode)
		}
		return
	}
	if res.StatusCode != 200 {
		viol("failure", "%s: succeeded, the client received status %d, body %.60q", o.N, res.StatusCode, body)
	}
	b, _ := json.Marshal(want)
	if strings.TrimSpace(body) != string(b) {
		viol("body", "%s: the client received %.60q, want %.60q", o.N, body, b)
	}
	if ct := res.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		viol("content-type", "%s: content type %q", o.N, ct)
	}
}
