package main

import (
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"syscall"
	"time"

	"github.com/xhd2015/xgo/support/netutil"
	"verif.local/io/sys"
	"verif.local/simk"
)

// S08: serving on a port.

func init() {
	profiles["S08"] = &profile{gen: gen08, run: run08}
}

// kinds of ports
const (
	pFree     = iota // binds; serves for A us, then ends as F says
	pBusy            // something accepts connections
	pLate            // not accepting, yet binding fails: address in use
	pDenied          // binding fails for another reason
	pFiltered        // connecting times out, binding works
	numPorts
)

// how serving ends
const (
	eNil = iota
	eErr
	eClosed
	eInUse // the server itself reports "in use" when it ends, at once
	numEnds
)

func gen08(r *rng, p *Plan) {
	p.Opt["port"] = int64(1024 + r.n(60000))
	n := r.n(7)
	for i := 0; i <= n; i++ {
		o := &Op{K: "port", I: r.n(numPorts)}
		if i == n || r.p(20) {
			o.I = pFree
		} else if r.p(50) {
			o.I = pBusy + r.n(2)
		}
		o.T = r.n(3) // delay of the outcome of the bind
		switch r.n(4) {
		case 0:
			o.A = int64(r.n(1000))
		case 1:
			o.A = int64(495000 + r.n(10000))
		default:
			o.A = int64(r.n(2000000))
		}
		o.F = r.n(3)
		if o.I == pLate && r.p(30) {
			o.L = 1 // becomes busy only when bound
		}
		p.Main = append(p.Main, o)
	}
	p.Opt["auto"] = int64(r.n(4))
	p.Opt["watch"] = []int64{500, 500, 500, 0, 1, 100, -1}[r.n(7)]
	if p.Opt["watch"] == 1 {
		// binds fail sooner than the server is announced
		for _, o := range p.Main {
			o.T = 0
		}
	}
	p.Opt["http"] = int64(r.n(3))
	p.Opt["host"] = int64(r.n(4))
	p.Opt["find"] = int64(r.n(5))
}

func run08(p *Plan) {
	start := int(p.Opt["port"])
	ports := map[int]*Op{}
	for i, o := range p.Main {
		ports[start+i] = o
	}
	at := func(port int) *Op {
		if o := ports[port]; o != nil {
			return o
		}
		return &Op{I: pFree, A: 1000, F: eErr}
	}
	host := []string{"localhost", "127.0.0.1", "0.0.0.0", "::1"}[p.Opt["host"]]
	inUse := func(port int) error {
		return &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	type attempt struct {
		port    int
		from    int64
		to      int64 // -1: still running
		serving bool  // has served
	}
	var attempts []*attempt
	sys.DialFn = func(port int) error {
		switch at(port).I {
		case pBusy:
			return nil
		case pFiltered:
			sys.Sleep(20 * time.Millisecond)
			return os.ErrDeadlineExceeded
		}
		for _, a := range attempts {
			if a.port == port && a.serving && a.to < 0 {
				return nil
			}
		}
		return syscall.ECONNREFUSED
	}
	errServe := errors.New("serving failed")
	serve := func(port int) error {
		a := &attempt{port: port, from: simk.Clock(), to: -1}
		attempts = append(attempts, a)
		events++
		stat(fmt.Sprintf("port:%d", at(port).I))
		defer func() { a.to = simk.Clock() }()
		o := at(port)
		if o.T > 0 {
			sys.Sleep(time.Duration(o.T) * time.Millisecond)
		}
		switch o.I {
		case pBusy, pLate:
			return inUse(port)
		case pDenied:
			return &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EACCES)}
		}
		a.serving = true
		sys.Sleep(time.Duration(o.A) * time.Microsecond)
		switch o.F {
		case eErr:
			return errServe
		case eClosed:
			return http.ErrServerClosed
		}
		return nil
	}
	sys.ServeFn = func(port int) error { return serve(port) }
	announced := 0
	var announcedPort int
	watch := func(port int) {
		announced++
		announcedPort = port
		stat("announced")
		if announced > 1 {
			viol("announced-twice", "the server was announced %d times, now on port %d", announced, port)
		}
		now := simk.Clock()
		ok := false
		for _, a := range attempts {
			// a millisecond for a preempted callback
			if a.port == port && (a.to < 0 || a.to+int64(time.Millisecond) >= now) {
				ok = true
			}
		}
		if !ok {
			why := "never tried"
			for _, a := range attempts {
				if a.port == port {
					why = fmt.Sprintf("ended %v ago", time.Duration(now-a.to))
				}
			}
			viol("announced-down", "port %d was announced, where nothing serves: %s", port, why)
		}
	}
	auto := p.Opt["auto"] != 0
	watchTimeout := time.Duration(p.Opt["watch"]) * time.Millisecond
	// expectation
	want := start
	for auto && (at(want).I == pBusy || at(want).I == pLate) {
		want++
	}
	var err error
	returned := false
	pr := sys.Start("server", "/", nil, func() int {
		if p.Opt["find"] == 0 {
			got, ferr := netutil.FindListenablePort(host, start)
			w := start
			for at(w).I == pBusy {
				w++
			}
			if ferr != nil || got != w {
				viol("find", "FindListenablePort(%d) = %d, %v; want %d", start, got, ferr, w)
			}
		}
		var w func(int)
		if p.Opt["watch"] >= 0 {
			w = watch
		} else {
			watchTimeout = 500 * time.Millisecond
		}
		if p.Opt["http"] == 0 {
			err = netutil.ServePortHTTP(http.NewServeMux(), host, start, auto, watchTimeout, w)
		} else {
			err = netutil.ServePort(host, start, auto, watchTimeout, w, serve)
		}
		returned = true
		// the process lives on: nothing more may be announced
		sys.Sleep(3 * time.Second)
		return 0
	})
	pr.Wait()
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
	if !returned {
		viol("no-return", "ServePort did not return")
	}
	for i, a := range attempts {
		if i > 0 && a.port != attempts[i-1].port+1 && !skipped(attempts[i-1].port, a.port, at) {
			viol("order", "port %d was tried after port %d", a.port, attempts[i-1].port)
		}
	}
	o := at(want)
	last := -1
	served := false
	if len(attempts) > 0 {
		last = attempts[len(attempts)-1].port
		served = attempts[len(attempts)-1].serving
	}
	switch {
	case o.I == pFree || o.I == pFiltered:
		if !served || last != want {
			viol("port", "ended on port %d (serving: %v) with error %v, want port %d", last, served, err, want)
		}
		if o.F == eErr && (err == nil || p.Opt["http"] != 0 && !errors.Is(err, errServe)) {
			viol("error", "serving failed with %q, ServePort returned %v", errServe, err)
		}
		if o.F == eNil && p.Opt["http"] != 0 && err != nil {
			viol("error", "serving ended without error, ServePort returned %v", err)
		}
		// a server that has been up for long enough is announced
		if p.Opt["watch"] > 0 && time.Duration(o.A)*time.Microsecond > watchTimeout+10*time.Millisecond && announced == 0 {
			viol("not-announced", "the server on port %d ran for %v and was not announced", want, time.Duration(o.A)*time.Microsecond)
		}
		if announced > 0 && announcedPort != want {
			viol("wrong-port", "port %d was announced, port %d is served", announcedPort, want)
		}
	default:
		if err == nil {
			viol("busy", "port %d (kind %d) cannot be bound, ServePort returned no error", want, o.I)
		}
		if o.I == pBusy && len(attempts) > 0 {
			viol("busy", "the busy port %d was bound", want)
		}
		if announced > 0 {
			viol("announced-down", "port %d was announced, which was never served", announcedPort)
		}
	}
	if watchTimeout <= 0 && announced > 0 {
		viol("announced", "announced without a watch timeout")
	}
}

// skipped: all ports between a and b are seen as busy.
func skipped(a, b int, at func(int) *Op) bool {
	if b <= a {
		return false
	}
	for i := a + 1; i < b; i++ {
		if at(i).I != pBusy {
			return false
		}
	}
	return true
}
