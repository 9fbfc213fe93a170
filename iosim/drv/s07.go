package main

import (
	"time"

	"github.com/xhd2015/xgo/support/session"
	"verif.local/io/sys"
	"verif.local/simk"
)

// S07: events of sessions.

func init() {
	profiles["S07"] = &profile{gen: gen07, run: run07, jump: true}
}

func gen07(r *rng, p *Plan) {
	ns := 1 + r.n(3)
	for i := 0; i < ns; i++ {
		p.Main = append(p.Main, &Op{K: "start", L: i})
	}
	nt := 1 + r.n(6)
	for i := 0; i < nt; i++ {
		t := &Op{K: "task", L: i}
		s := r.n(ns)
		kind := r.n(10)
		m := 1 + r.n(6)
		for j := 0; j < m; j++ {
			if r.p(25) {
				s = r.n(ns)
			}
			switch {
			case r.p(25):
				t.B = append(t.B, &Op{K: "sleep", A: int64(r.n(6000000))}) // us
			case kind < 5:
				n := 1 + r.n(4)
				if r.p(15) {
					n = 1 + r.n(160)
				}
				t.B = append(t.B, &Op{K: "send", T: s, A: int64(n), F: r.n(2)})
			case kind < 8:
				t.B = append(t.B, &Op{K: "poll", T: s, A: int64(1 + r.n(3)), F: r.n(2)})
			case kind == 8:
				t.B = append(t.B, &Op{K: "start", L: ns})
				ns++
			default:
				t.B = append(t.B, &Op{K: r.pick("get", "get", "destroy"), T: s})
			}
		}
		p.Main = append(p.Main, t)
	}
}

type ev07 struct{ Sess, Task, Seq int }

type sess07 struct {
	label     int
	id        string
	s         session.Session
	destroyed bool // the call has begun
	gone      bool // the call has returned
	pollers   int
	pending   map[ev07]int64 // completely sent, not yet returned: since when
}

func run07(p *Plan) {
	smooth := p.Jump == 0
	pr := sys.Start("server", "/", nil, func() int {
		m := session.NewSessionManager()
		byLabel := map[int]*sess07{}
		ids := map[string]int{}
		sent := map[ev07]int64{}   // when the send of the event was complete; 0: under way
		returned := map[ev07]int{} // by which poll
		type pollRec struct {
			start, end int64
			got        []ev07
			id         int
		}
		npoll := 0
		var done []*pollRec
		find := func(l int) *sess07 {
			return byLabel[l]
		}
		start := func(l int) {
			id, s, err := m.Start()
			if err != nil || s == nil {
				viol("start", "Start failed: %v", err)
			}
			if o, ok := ids[id]; ok {
				viol("id", "session %d got the identifier %q of session %d", l, id, o)
			}
			ids[id] = l
			byLabel[l] = &sess07{label: l, id: id, s: s, pending: map[ev07]int64{}}
			events++
		}
		get := func(x *sess07) session.Session {
			wasGone, wasDestroyed := x.gone, x.destroyed
			s, err := m.Get(x.id)
			if wasGone && err == nil {
				viol("destroyed", "session %d is found after it was destroyed", x.label)
			}
			if !x.destroyed && !wasDestroyed && err != nil {
				viol("lost-session", "session %d is not found: %v", x.label, err)
			}
			if err != nil {
				return nil
			}
			return s
		}
		poll := func(x *sess07, s session.Session) int {
			if s == nil {
				return 0
			}
			npoll++
			rec := &pollRec{start: simk.Clock(), id: npoll}
			x.pollers++
			avail := len(x.pending)
			alone := x.pollers == 1
			np := npoll
			evs, err := s.PollEvents()
			rec.end = simk.Clock()
			x.pollers--
			if np != npoll {
				alone = false
			}
			if err != nil {
				viol("poll-error", "PollEvents: %v", err)
			}
			first := int64(-1)
			in := map[int]int{}
			for _, e := range evs {
				v, ok := e.(ev07)
				if !ok {
					viol("invented", "poll of session %d returned %v, which nobody sent", x.label, e)
				}
				t, ok := sent[v]
				if !ok {
					viol("invented", "poll of session %d returned %v, which nobody sent", x.label, v)
				}
				if v.Sess != x.label {
					viol("foreign", "poll of session %d returned event %v of session %d", x.label, v, v.Sess)
				}
				if o, ok := returned[v]; ok {
					viol("twice", "event %v was returned by polls %d and %d", v, o, rec.id)
				}
				returned[v] = rec.id
				if l, ok := in[v.Task]; ok && l > v.Seq {
					viol("order", "poll %d returned event %d of task %d after event %d", rec.id, v.Seq, v.Task, l)
				}
				in[v.Task] = v.Seq
				if t > 0 && (first < 0 || t < first) {
					first = t
				}
				delete(x.pending, v)
				rec.got = append(rec.got, v)
				events++
				stat("event")
			}
			// events of an earlier poll precede those of this one
			for _, o := range done {
				if o.end < rec.start {
					for _, a := range o.got {
						if a.Sess != x.label {
							continue
						}
						for _, b := range rec.got {
							if a.Task == b.Task && a.Seq > b.Seq {
								viol("order", "poll %d returned event %d of task %d, the earlier poll %d had returned event %d", rec.id, b.Seq, b.Task, o.id, a.Seq)
							}
						}
					}
				}
			}
			done = append(done, rec)
			stat("poll")
			if smooth {
				const slack = int64(time.Second)
				if d := rec.end - rec.start; len(evs) == 0 && d > int64(5*time.Second)+slack {
					viol("slow", "a poll without events took %v", time.Duration(d))
				}
				if len(evs) > 0 && first >= 0 {
					from := rec.start
					if first > from {
						from = first
					}
					if rec.end > from+slack {
						viol("late", "poll %d returned %v after events were available", rec.id, time.Duration(rec.end-from))
					}
				}
				if len(evs) == 0 {
					stat("poll:empty")
					for _, v := range sys.Keys(x.pending) {
						t := x.pending[v]
						if t < rec.start && alone {
							viol("missed", "poll %d of session %d returned nothing though %d events were available", rec.id, x.label, avail)
						}
						if t < rec.end-slack {
							viol("missed", "poll %d of session %d returned nothing though event %v had been available for %v", rec.id, x.label, v, time.Duration(rec.end-t))
						}
					}
				}
			}
			return len(evs)
		}
		var run func(task int, ops []*Op, seq *int)
		run = func(task int, ops []*Op, seq *int) {
			for _, op := range ops {
				switch op.K {
				case "start":
					if find(op.L) == nil {
						start(op.L)
					}
				case "sleep":
					sys.Sleep(time.Duration(op.A) * time.Microsecond)
				case "send":
					x := find(op.T)
					if x == nil {
						continue
					}
					s := x.s
					if op.F == 1 {
						if s = get(x); s == nil {
							continue
						}
					}
					var batch []interface{}
					var evs []ev07
					for i := int64(0); i < op.A; i++ {
						v := ev07{x.label, task, *seq}
						*seq++
						sent[v] = 0
						evs = append(evs, v)
						batch = append(batch, v)
					}
					if err := s.SendEvents(batch...); err != nil {
						viol("send-error", "SendEvents: %v", err)
					}
					stat("send")
					now := simk.Clock()
					for _, v := range evs {
						sent[v] = now
						if _, ok := returned[v]; !ok {
							x.pending[v] = now
						}
					}
				case "poll":
					x := find(op.T)
					if x == nil {
						continue
					}
					s := x.s
					if op.F == 1 {
						if s = get(x); s == nil {
							continue
						}
					}
					for i := int64(0); i < op.A; i++ {
						poll(x, s)
					}
				case "get":
					if x := find(op.T); x != nil {
						get(x)
					}
				case "destroy":
					if x := find(op.T); x != nil {
						x.destroyed = true
						if err := m.Destroy(x.id); err != nil {
							viol("destroy-error", "Destroy: %v", err)
						}
						x.gone = true
						get(x)
						stat("destroy")
					}
				}
			}
		}
		live := 0
		for _, op := range p.Main {
			op := op
			if op.K != "task" {
				seq := 0
				run(-1, []*Op{op}, &seq)
				continue
			}
			live++
			sys.Spawn(func() {
				seq := 0
				run(op.L, op.B, &seq)
				live--
			})
		}
		// drain: faults have stopped, everything sent must arrive
		phase = "draining"
		for round := 0; ; round++ {
			got := 0
			wasLive := live
			for _, k := range sys.Keys(byLabel) {
				got += poll(byLabel[k], byLabel[k].s)
			}
			if wasLive == 0 && got == 0 {
				break
			}
			if round > 3000 {
				viol("stuck", "tasks do not end")
			}
		}
		phase = ""
		for _, v := range sys.Keys(sent) {
			if _, ok := returned[v]; !ok {
				viol("lost", "event %v of session %d was never returned", v, v.Sess)
			}
		}
		return 0
	})
	pr.Wait()
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
}
