package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/xhd2015/xgo/support/downloadgo"
	"verif.local/io/sys"
)

// S04: installing Go SDKs.

func init() {
	profiles["S04"] = &profile{gen: gen04, run: run04, jump: true}
}

func gen04(r *rng, p *Plan) {
	p.Tree = genArchive(r, "go", 12, false)
	if r.p(50) {
		p.Tree = append(p.Tree, &Op{K: "file", N: "go/bin/go", A: 3000}, &Op{K: "file", N: "go/src/fmt/print.go", A: 200})
	}
	n := 1
	if r.p(60) {
		n = 2 + r.n(3)
	}
	for i := 0; i < n; i++ {
		o := &Op{K: "install", L: i, S: r.pick("go1.20.1", "1.20.1", "go1.20.1"), T: r.n(4), A: int64(r.n(40000))}
		if r.p(15) {
			o.S = "1.21.0"
		}
		if r.p(40) {
			o.F = 1 // waits for those before it
		}
		if r.p(30) {
			o.I = 1 // windows: zip
		}
		p.Main = append(p.Main, o)
		if r.p(60) {
			for j := 0; j < 1+r.n(2); j++ {
				p.Faults = append(p.Faults, r.fault(i, []string{"crash", "crash", "crashafter", "torn", "err", "err", "short", "late", "fail"},
					[]string{"", "mut", "write", "close", "create", "read", "mkdir", "open", "rename", "remove", "exec", "readdir"}, 60))
			}
		}
	}
	// what the network does, request by request
	for i := 0; i < r.n(4); i++ {
		o := &Op{K: "net", L: r.n(n * 2), T: 200, S: r.pick("cut", "cut-unknown", "status", "refused", "flip", "html", "reset"), A: int64(r.n(1000)), I: r.n(8)}
		if o.S == "status" {
			o.T = []int{404, 403, 500, 503}[r.n(4)]
		}
		p.Main = append(p.Main, o)
	}
	p.Opt["old"] = int64(r.n(6))
	if r.p(8) {
		p.Quota = int64(r.n(30000))
	}
}

const list04 = `<html>
<div class="toggle" id="go1.21.0">
<div class="toggle" id="go1.20.1">
</html>`

func run04(p *Plan) {
	for _, e := range []string{"/sdk"} {
		sys.MkdirAll(e, 0755)
	}
	archive := map[string][]byte{}
	want := map[string]map[string]string{}
	for _, v := range []string{"1.20.1", "1.21.0"} {
		tree := append([]*Op(nil), p.Tree...)
		tree = append(tree, &Op{K: "file", N: "go/VERSION", A: int64(len(v) + int(v[3]))})
		archive["go"+v+".linux-amd64.tar.gz"] = tarGz(tree, false)
		archive["go"+v+".windows-amd64.zip"] = zipArchive(tree, false)
		want["/sdk/go"+v] = below(unpacked(tree), "go")
	}
	nreq := 0
	sys.HTTP = func(url string) *sys.Response {
		r := &sys.Response{Status: 200, Cut: -1}
		name := url[strings.LastIndex(url, "/")+1:]
		if url == "https://go.dev/dl" {
			r.Body = []byte(list04)
		} else if b, ok := archive[name]; ok && strings.HasPrefix(url, "https://go.dev/dl/") {
			r.Body = b
		} else {
			return &sys.Response{Status: 404, Body: []byte("not found"), Cut: -1, Length: 9}
		}
		r.Length = int64(len(r.Body))
		for _, o := range p.Main {
			if o.K != "net" || o.L != nreq {
				continue
			}
			stat("net:" + o.S)
			switch o.S {
			case "cut":
				r.Cut = len(r.Body) * int(o.A) / 1000
			case "cut-unknown":
				r.Cut = len(r.Body) * int(o.A) / 1000
				r.Length = -1
			case "reset":
				r.Cut = len(r.Body) * int(o.A) / 1000
				r.Err = errors.New("connection reset")
			case "status":
				r.Status, r.Body = o.T, []byte("<html>error page</html>")
				r.Length = int64(len(r.Body))
			case "html":
				r.Body = []byte("<html>captive portal</html>")
				r.Length = int64(len(r.Body))
			case "refused":
				r = nil
			case "flip":
				if url != "https://go.dev/dl" && strings.HasSuffix(name, ".gz") {
					b := append([]byte(nil), r.Body...)
					b[10+(len(b)-18)*int(o.A)/1000] ^= 1 << uint(o.I) // the compressed data
					r.Body = b
				}
			}
			break
		}
		nreq++
		return r
	}
	sys.Commands["curl"] = curl
	sys.Commands["tar"] = untar
	switch p.Opt["old"] {
	case 0:
		sys.Put("/sdk/go1.20.1.linux-amd64.tar.gz", []byte("partial"), 0644)
	case 1:
		sys.Put("/sdk/go-extract-123/go/bin/go", []byte("left over"), 0755)
	}
	check := func(when string) {
		for _, dest := range sys.Keys(want) {
			w := want[dest]
			if _, err := sys.Lstat(dest); err != nil {
				continue
			}
			if d := sys.Diff(w, sys.Tree(dest)); d != "" {
				viol("partial", "%s: %s is not the complete SDK: %s", when, dest, d)
			}
		}
	}
	inCheck := false
	sys.OnOp = func(q *sys.Proc, kind, name string) {
		if inCheck {
			return
		}
		switch kind {
		case "create", "write", "remove", "rename", "symlink", "mkdir":
			for dest := range want {
				if strings.HasPrefix(name, dest+"/") || name == dest && kind == "remove" {
					viol("in-place", "process %d: %s %s in the destination", q.Index, kind, name)
				}
			}
		}
		if kind == "rename" || kind == "exec" || q.NOps%50 == 0 {
			inCheck = true
			// of what the earlier operations left; run by the process, but not counted
			for dest, w := range want {
				if t := sys.Tree(dest); len(t) > 0 {
					if d := sys.Diff(w, t); d != "" {
						viol("partial", "%s is visible and is not the complete SDK: %s", dest, d)
					}
				}
			}
			inCheck = false
		}
	}
	setFaults(p)
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	install := func(name string, o *Op) *sys.Proc {
		var dest string
		var err error
		pr := sys.Start(name, "/work", []string{"HOME=/home", "PATH=/usr/bin"}, func() int {
			if o.A > 20000 {
				sys.Sleep(time.Duration(o.A) * time.Microsecond)
			}
			opt := downloadgo.Options{Dir: "/sdk", GOOS: "linux", GOARCH: "amd64"}
			if o.I == 1 {
				opt.GOOS = "windows"
			}
			if o.T == 0 {
				opt.ListVersions = func(context.Context) ([]string, error) { return nil, errors.New("no list") }
			}
			dest, err = downloadgo.Download(context.Background(), o.S, opt)
			if err != nil {
				stat("install:failed")
				return 1
			}
			stat("install:ok")
			d := "/sdk/go" + strings.TrimPrefix(o.S, "go")
			if dest != d {
				viol("dest", "installing %s returned %q", o.S, dest)
			}
			t := sys.Tree(dest)
			if len(t) == 0 {
				viol("missing", "installing %s reported success, %s does not exist", o.S, dest)
			}
			if d := sys.Diff(want[dest], t); d != "" {
				viol("partial", "installing %s reported success, %s is not complete: %s", o.S, dest, d)
			}
			return 0
		})
		return pr
	}
	var ps []*sys.Proc
	for _, o := range p.Main {
		if o.K != "install" {
			continue
		}
		if o.F == 1 {
			for _, q := range ps {
				q.Wait()
			}
			check("between installs")
		}
		events++
		ps = append(ps, install(fmt.Sprintf("install%d", o.L), o))
	}
	for _, q := range ps {
		q.Wait()
		if q.Panic != "" {
			viol("panic", "panic: %s", q.Panic)
		}
		if q.Killed {
			stat("killed")
		}
	}
	check("after the installs")
	// without faults, installing succeeds
	sys.Quota = 0
	sys.Faults = nil
	nreq = 1 << 20
	for _, v := range []string{"go1.20.1", "1.21.0"} {
		pr := install("final", &Op{S: v, T: 1})
		pr.Wait()
		if pr.Panic != "" || pr.Code != 0 {
			viol("stuck", "installing %s fails after the faults have stopped: %s", v, pr.Out.String())
		}
	}
	check("at the end")
	_ = http.StatusOK
	_ = os.ErrExist
}
