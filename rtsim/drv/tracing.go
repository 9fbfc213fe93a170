package drv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"syscall"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"verif.local/app/wl"
	"verif.local/simk"
)

const never = ^uint64(0)

// node is an entry the exported tree must have.
type node struct {
	name     string
	kind     string
	c        *call
	goTask   *task
	sess     bool
	parent   *node
	children []*node
	a        int64
	begun    uint64 // not pushed before this step
	sure     uint64 // pushed at this step at the latest
	endLow   uint64 // not finished before this step
	done     uint64 // finished at this step at the latest
	normal   bool
	res      []interface{}
	errStr   string
	panicked bool
}

// session is one outermost tracing session.
type session struct {
	id      int
	op      *Op
	t       *task
	root    *node // container of the roots
	over    bool
	calls   int
	writes  int
	ws, we  uint64 // the export happened between these steps
	data    *stack_model.Stack
	json    []byte
	file    []byte
	fileErr error
	wwe     uint64
}

func rejects(mode int64, name string) bool {
	n := int64(0)
	for _, b := range []byte(name) {
		n += int64(b)
	}
	return n%3 == mode%3
}

func (t *task) accepts(name string) bool {
	return t.filter == 0 || !rejects(int64(t.filter-1), name)
}

// enter is reached when the before-steps of a call are over.
func (t *task) enter(c *call) {
	if !c.traced || c.node != nil {
		return
	}
	n := &node{name: c.name, kind: "func", c: c, parent: t.top, a: c.a, begun: c.begun, sure: simk.Steps(), endLow: never, done: never}
	if c.fn != nil {
		n.name = c.fn.name
	}
	c.node = n
	t.top.children = append(t.top.children, n)
	t.top = n
}

// leave is reached when a call is over.
func (t *task) leave(c *call, normal bool) {
	if c.vs != nil {
		if c.traced && normal {
			n := &node{name: c.vs.name, kind: "var", c: c, parent: t.top, begun: c.begun, sure: simk.Steps(), endLow: c.begun, done: simk.Steps(), normal: true}
			if c.form != c.vs.addr {
				n.res = []interface{}{t.varNow(c)}
			}
			t.top.children = append(t.top.children, n)
		}
		return
	}
	n := c.node
	if n == nil {
		return
	}
	if t.top != n {
		fail("internal: entries not nested at the end of %s", c.label())
	}
	now := simk.Steps()
	if n.sure == never {
		n.sure = now
	}
	n.endLow = c.bodyEnd
	if n.endLow == 0 {
		n.endLow = n.begun
	}
	n.done = now
	n.normal = normal
	if normal {
		n.res = c.res
	}
	if !normal && t.expect != nil {
		n.panicked = true
		n.errStr = t.expect.Error()
	}
	t.top = n.parent
}

var byFile = map[string]*session{}

func (t *task) doTrace(op *Op) {
	if t.sess != nil && t.sess.over {
		return // traces of a session that is over: not specified
	}
	count("trace")
	cfg := trace.Config{}
	c := &call{op: op, isTrace: true, name: "Trace", inst: -1}
	opening := t.depth == 0 && !t.tracing
	starting := opening && op.F&(fFinish|fFile) != 0
	var s *session
	if op.F&fFilter != 0 {
		mode := op.A
		cfg.FilterTrace = func(f *core.FuncInfo) bool {
			simk.Y()
			return !rejects(mode, f.Name)
		}
	}
	s = &session{id: len(sessions), op: op, t: t}
	sessions = append(sessions, s)
	if op.F&fFinish != 0 {
		cfg.OnFinish = func(st stack_model.IStack) {
			s.calls++
			if !starting {
				fail("callback of Trace ran for a session that is nested in another one or in a hook")
			}
			if cur() != t {
				fail("callback of Trace ran on another goroutine")
			}
			if s.calls > 1 {
				fail("callback of Trace ran %d times for one session", s.calls)
			}
			s.we = simk.Steps()
			s.data = st.Data()
			j, err := st.JSON()
			if err != nil {
				fail("JSON of the finished trace: %v", err)
			}
			s.json = append([]byte(nil), j...)
			t.runHook(c, op.P)
		}
	}
	if op.F&fFile != 0 {
		cfg.OutputFile = fmt.Sprintf("out/trace-%d.json", s.id)
		byFile[cfg.OutputFile] = s
	}
	if starting {
		count("session")
		s.root = &node{}
		c.sess = s
		c.traced = true
	} else {
		c.traced = t.tracing && t.depth == 0 && t.accepts("Trace")
		if t.depth > 0 {
			count("trace in hook")
		}
	}
	normal := false
	wantErr := error(nil)
	if op.F&fErr != 0 {
		wantErr = fmt.Errorf("traceerr-%d", s.id)
	}
	defer func() {
		if !normal && t.expect == nil && !t.goexit {
			t.surprise(c, recover())
		}
		if opening {
			t.starting = false
		}
		t.finish(c, normal)
		if starting {
			s.over = true
			t.tracing = false
			t.filter = 0
			t.top = nil
			t.sess = nil
			if op.F&fFinish != 0 && s.calls != 1 {
				fail("callback of Trace ran %d times (traced function returned: %v)", s.calls, normal)
			}
			if op.F&fFile != 0 && s.writes != 1 {
				fail("trace file was written %d times (traced function returned: %v)", s.writes, normal)
			}
		}
	}()
	t.begin(c)
	if opening {
		t.starting = true
	}
	resp, err := trace.Trace(cfg, s.id, func() (interface{}, error) {
		t.decide(c, "traced function")
		if opening {
			t.starting = false
		}
		if starting {
			t.top = s.root
			t.sess = s
			t.tracing = true
		}
		t.enter(c)
		if starting && op.F&fFilter != 0 {
			t.filter = int(op.A) + 1
		}
		t.run(op.B)
		c.bodyEnd = simk.Steps()
		s.ws = simk.Steps()
		if op.F&fPanic != 0 && t.mayPanic() {
			t.raise()
		}
		return s.id * 7, wantErr
	})
	normal = true
	c.res = []interface{}{resp, err}
	if resp != s.id*7 || err != wantErr {
		fail("Trace returned (%v, %v) where the traced function returned (%d, %v)", resp, err, s.id*7, wantErr)
	}
}

func onWrite(name string, data []byte, err error) {
	s := byFile[name]
	if s == nil {
		fail("the runtime wrote the unexpected file %s", name)
	}
	s.writes++
	if s.root == nil {
		fail("trace file written for a session that is nested in another one or in a hook")
	}
	s.file = data
	s.fileErr = err
	s.wwe = simk.Steps()
}

func faultWrite(name string, n int) (int, error) {
	s := byFile[name]
	if s == nil || s.op.F&fWFault == 0 {
		return n, nil
	}
	count("write fault")
	if s.op.A%2 == 0 {
		return n / 2, syscall.ENOSPC
	}
	return 0, syscall.EIO
}

// --- comparing exported trees ---

type xEntry struct {
	FuncInfo  *stack_model.FuncInfo
	BeginNs   int64
	EndNs     int64
	Args      json.RawMessage
	Results   json.RawMessage
	Panic     bool
	PanicLine int
	Error     string
	Children  []*xEntry
}

type xStack struct {
	Format   string
	Begin    string
	Children []*xEntry
}

func (s *session) check() {
	if s.root == nil {
		return
	}
	if s.data != nil {
		b, err := json.Marshal(s.data)
		if err != nil {
			fail("finished trace does not marshal: %v", err)
		}
		s.compare(b, s.we, "data handed to the callback")
		s.compare(s.json, s.we, "JSON handed to the callback")
	}
	if s.writes > 0 && s.fileErr == nil {
		s.compare(s.file, s.wwe, "trace file")
	}
}

type cmpCtx struct {
	s      *session
	ws, we uint64
	what   string
}

func (s *session) compare(b []byte, we uint64, what string) {
	var x xStack
	if err := json.Unmarshal(b, &x); err != nil {
		fail("%s of session %d is not valid JSON: %v", what, s.id, err)
	}
	ws := s.ws
	if ws == 0 {
		ws = s.root.children[0].endLow
	}
	k := &cmpCtx{s, ws, we, fmt.Sprintf("%s of session %d", what, s.id)}
	k.list(x.Children, s.root.children, "", nil)
	count("trees compared")
}

func show1(x *xEntry) string {
	if x.FuncInfo == nil {
		return "(no function)"
	}
	return fmt.Sprintf("%s %s", x.FuncInfo.Name, x.Args)
}

func (k *cmpCtx) list(xs []*xEntry, ms []*node, path string, parent *xEntry) {
	xi := 0
	gone := false
	for _, m := range ms {
		if gone || xi >= len(xs) {
			if m.sure <= k.ws {
				fail("%s: %s/%s is missing", k.what, path, m.show())
			}
			gone = true
			continue
		}
		if m.begun >= k.we {
			break
		}
		k.entry(xs[xi], m, path, parent)
		xi++
	}
	if xi < len(xs) {
		fail("%s: %s has the unexpected entry %s", k.what, path, show1(xs[xi]))
	}
}

func (m *node) show() string {
	if m.goTask != nil {
		return fmt.Sprintf("go(task %d)", m.goTask.id)
	}
	return m.c.label()
}

func ordered(b json.RawMessage) []json.RawMessage {
	if len(b) == 0 {
		return nil
	}
	d := json.NewDecoder(bytes.NewReader(b))
	tk, err := d.Token()
	if err != nil || tk != json.Delim('{') {
		return nil
	}
	var out []json.RawMessage
	for d.More() {
		if _, err := d.Token(); err != nil {
			return nil
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return nil
		}
		out = append(out, v)
	}
	return out
}

// argNames are the parameters of the functions of wl as they are written
// there, with the receiver and without a leading context ("_": not named).
var argNames = []string{0: "serial a", 1: "serial a", 2: "serial a", 3: "serial a", 4: "serial a xs", 5: "serial _ a _", 6: "_ _", 7: "serial a",
	8: "serial s p a", 9: "t serial a", 10: "t serial a", 11: "v serial a", 12: "u serial a", 13: "serial a x", 14: "g serial a", 15: "n serial a", 16: "serial a f"}

// named: do the members of the JSON object have these names, in order?
func named(b json.RawMessage, want string) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	if tk, err := d.Token(); err != nil || tk != json.Delim('{') {
		return false
	}
	for _, w := range strings.Fields(want) {
		if !d.More() {
			return false
		}
		tk, err := d.Token()
		if err != nil || w != "_" && tk != w {
			return false
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return false
		}
	}
	return !d.More()
}

func (k *cmpCtx) entry(x *xEntry, m *node, path string, parent *xEntry) {
	p := path + "/" + m.show()
	if x.FuncInfo == nil {
		fail("%s: %s has no function", k.what, p)
	}
	name := x.FuncInfo.Name
	running := strings.HasSuffix(name, " (running)")
	name = strings.TrimSuffix(name, " (running)")
	if m.goTask != nil {
		if name != "go" {
			fail("%s: %s found where the goroutine of task %d was started", k.what, name, m.goTask.id)
		}
		ct := m.goTask
		if running && ct.joined <= k.ws {
			fail("%s: %s is marked running, but had ended", k.what, p)
		}
		if !running && (ct.endLow >= k.we) {
			fail("%s: %s is marked complete, but was running", k.what, p)
		}
		k.times(x, parent, running, p)
		k.list(x.Children, m.children, p, x)
		return
	}
	if m.name != "" && name != m.name {
		fail("%s: found %s where %s was due", k.what, show1(x), p)
	}
	if string(x.FuncInfo.Kind) != m.kind {
		fail("%s: %s has kind %q, want %q", k.what, p, x.FuncInfo.Kind, m.kind)
	}
	if running && m.done <= k.ws {
		fail("%s: %s is marked running, but was over", k.what, p)
	}
	if !running && m.endLow >= k.we {
		fail("%s: %s is complete, but was running", k.what, p)
	}
	if m.kind != "func" {
		if len(m.res) == 1 {
			want, _ := json.Marshal(m.res[0])
			if string(want) != string(x.Results) {
				fail("%s: %s has value %s, want %s", k.what, p, x.Results, want)
			}
		}
		k.times(x, parent, running, p)
		if len(x.Children) > 0 {
			fail("%s: %s has children", k.what, p)
		}
		return
	}
	if !m.c.isTrace {
		f := m.c.fn
		args := ordered(x.Args)
		off := 0
		if f.method {
			off++
		}
		if f.ctx {
			off--
		}
		if n := f.ftyp.NumIn() + off; len(args) != n {
			fail("%s: %s has arguments %s, want %d of them", k.what, p, x.Args, n)
		}
		if f.id < len(argNames) && !named(x.Args, argNames[f.id]) {
			fail("%s: %s has arguments %s, want those named %s", k.what, p, x.Args, argNames[f.id])
		}
		if f.method {
			want, _ := json.Marshal(f.obj(m.c.inst))
			if string(want) != string(args[0]) {
				fail("%s: %s has receiver %s, want %s", k.what, p, args[0], want)
			}
		}
		if got := string(args[f.serial+off]) + "," + string(args[f.a+off]); got != fmt.Sprintf("%d,%d", m.c.serial, m.a) {
			fail("%s: %s has arguments %s, want (%d,%d)", k.what, p, got, m.c.serial, m.a)
		}
		if f.id == 8 {
			want, _ := json.Marshal([]*wl.S{{X: m.c.serial, Y: "s"}, {X: m.c.serial + 1, Y: "p"}})
			if got := "[" + string(args[1]) + "," + string(args[2]) + "]"; got != string(want) {
				fail("%s: %s has arguments %s, want %s", k.what, p, got, want)
			}
		}
		if !running && m.normal {
			res := m.res
			if f.err {
				e := ""
				if err, _ := res[len(res)-1].(error); err != nil {
					e = err.Error()
				}
				res = res[:len(res)-1]
				if x.Error != e {
					fail("%s: %s has error %q, want %q", k.what, p, x.Error, e)
				}
			} else if x.Error != "" {
				fail("%s: %s has error %q", k.what, p, x.Error)
			}
			got := ordered(x.Results)
			if (f.id == 3 || f.id == 10) && !named(x.Results, "r") {
				fail("%s: %s has results %s, want one named r", k.what, p, x.Results)
			}
			if len(got) != len(res) {
				fail("%s: %s has results %s, want %s", k.what, p, x.Results, show(res))
			}
			for i, r := range res {
				want, _ := json.Marshal(r)
				if string(want) != string(got[i]) {
					fail("%s: %s has results %s, want %s", k.what, p, x.Results, show(res))
				}
			}
		}
	} else if !running && m.normal {
		e := ""
		if err, _ := m.c.res[1].(error); err != nil {
			e = err.Error()
		}
		if x.Error != e {
			fail("%s: %s has error %q, want %q", k.what, p, x.Error, e)
		}
	}
	if running {
		if x.Panic || x.Error != "" || len(x.Results) > 0 && string(x.Results) != "null" {
			fail("%s: %s is marked running, but has an outcome", k.what, p)
		}
	} else {
		if x.Panic != m.panicked {
			fail("%s: %s has panic status %v, want %v", k.what, p, x.Panic, m.panicked)
		}
		if m.panicked && x.Error != m.errStr {
			fail("%s: %s has panic %q, want %q", k.what, p, x.Error, m.errStr)
		}
	}
	k.times(x, parent, running, p)
	k.list(x.Children, m.children, p, x)
}

func (k *cmpCtx) times(x, parent *xEntry, running bool, p string) {
	if x.EndNs < x.BeginNs {
		fail("%s: %s ends (%d) before it begins (%d)", k.what, p, x.EndNs, x.BeginNs)
	}
	if parent == nil {
		return
	}
	if x.BeginNs < parent.BeginNs {
		fail("%s: %s begins (%d) before what made it (%d)", k.what, p, x.BeginNs, parent.BeginNs)
	}
	goEntry := strings.HasPrefix(x.FuncInfo.Name, "go") && x.FuncInfo.Kind == ""
	if !goEntry && !running && !strings.HasSuffix(parent.FuncInfo.Name, " (running)") && x.EndNs > parent.EndNs {
		fail("%s: %s ends (%d) after what made it (%d)", k.what, p, x.EndNs, parent.EndNs)
	}
}
