package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/xhd2015/xgo/support/fileutil"
	"verif.local/io/sys"
)

// S11: updates of existing files.

func init() {
	profiles["S11"] = &profile{gen: gen11, run: run11}
}

func gen11(r *rng, p *Plan) {
	n := 1 + r.n(4)
	for i := 0; i < n; i++ {
		o := &Op{K: r.pick("update", "update", "patch", "patch", "json"), T: r.n(3), A: int64(r.n(40)), I: r.n(3)}
		if r.p(25) {
			o.A = int64(r.n(40000))
		}
		switch r.n(8) {
		case 0:
			o.F = 1 // unchanged
		case 1:
			o.F = 2 // the function fails
		case 2:
			o.F = 4 // replaced by something short
		}
		p.Main = append(p.Main, o)
		if r.p(70) {
			f := r.fault(i, []string{"crash", "crash", "crashafter", "torn", "err", "err", "short", "late"}, []string{"", "mut", "write", "create", "close", "rename", "remove", "chmod", "open", "read", "stat"}, 14)
			p.Faults = append(p.Faults, f)
		}
	}
	for i := 0; i < 3; i++ {
		t := &Op{K: r.pick("file", "file", "missing", "link", "empty"), T: i, A: int64(r.n(60))}
		if r.p(30) {
			t.A = int64(r.n(30000))
		}
		t.F = []int{0644, 0600, 0755, 0664}[r.n(4)]
		p.Tree = append(p.Tree, t)
	}
	if r.p(20) {
		p.Quota = int64(1 + r.n(30000))
	}
}

var errUpdate = errors.New("update function failed")

func run11(p *Plan) {
	names := []string{"/work/.gitignore", "/work/conf.json", "/work/deep/x.txt"}
	real := append([]string(nil), names...)
	modes := map[int]int{}
	sys.MkdirAll("/work/deep", 0755)
	sys.MkdirAll("/real", 0755)
	for _, t := range p.Tree {
		var data []byte
		if t.K != "empty" {
			data = []byte(fmt.Sprintf(`{"v":%q}`, strings.Repeat("o", int(t.A))))
		}
		switch t.K {
		case "link":
			real[t.T] = fmt.Sprintf("/real/f%d", t.T)
			sys.Put(real[t.T], data, os.FileMode(t.F))
			sys.Symlink(real[t.T], names[t.T])
			modes[t.T] = t.F
		case "missing":
		default:
			sys.Put(names[t.T], data, os.FileMode(t.F))
			modes[t.T] = t.F
		}
	}
	content := func(i int) ([]byte, bool) {
		t := sys.Tree(real[i])
		s, ok := t["."]
		return []byte(strings.TrimPrefix(s, "file ")), ok
	}
	setFaults(p)
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	run := func(o *Op, clean bool) {
		file := names[o.T]
		old, existed := content(o.T)
		var want []byte
		var err error
		var muts []string
		returned, rewrite := false, true
		var idx int
		sys.OnOp = func(q *sys.Proc, kind, path string) {
			if q.Index == idx && (kind == "create" || kind == "write" || kind == "remove" || kind == "rename" || kind == "truncate") {
				muts = append(muts, kind+" "+path)
			}
		}
		next := func(data []byte) ([]byte, error) {
			if !bytes.Equal(data, old) {
				viol("read", "%s: the update received %.40q (%d bytes), the file holds %.40q (%d bytes)", o.K, data, len(data), old, len(old))
			}
			switch {
			case o.F&2 != 0:
				rewrite = false
				return nil, errUpdate
			case o.F&1 != 0:
				rewrite = false
				want = data
				return data, nil
			case o.F&4 != 0:
				want = []byte("{}")
			default:
				want = append(append([]byte(nil), data...), []byte(fmt.Sprintf("\n%s%d", strings.Repeat("n", int(o.A)), o.I))...)
			}
			if bytes.Equal(want, data) && o.K != "update" {
				rewrite = false
			}
			return want, nil
		}
		pr := sys.Start("tool", "/work", nil, func() int {
			idx = sys.Cur().Index
			switch o.K {
			case "update":
				err = fileutil.UpdateFile(file, func(data []byte) (bool, []byte, error) {
					d, e := next(data)
					return o.F&1 == 0, d, e
				})
			case "patch":
				err = fileutil.Patch(file, next)
			case "json":
				err = fileutil.PatchJSONPretty(file, func(v *map[string]string) error {
					if o.F&2 != 0 {
						rewrite = false
						return errUpdate
					}
					if *v == nil {
						*v = map[string]string{}
					}
					if o.F&1 == 0 {
						(*v)[fmt.Sprintf("k%d", o.I)] = strings.Repeat("n", int(o.A))
					}
					want, _ = json.MarshalIndent(*v, "", "    ")
					if bytes.Equal(want, old) {
						rewrite = false
					}
					return nil
				})
			}
			returned = true
			return 0
		})
		pr.Wait()
		sys.OnOp = nil
		if pr.Panic != "" {
			viol("panic", "panic: %s", pr.Panic)
		}
		events++
		stat("update")
		now, exists := content(o.T)
		isOld := exists == existed && bytes.Equal(now, old)
		isNew := exists && want != nil && bytes.Equal(now, want)
		what := fmt.Sprintf("%s of a file of %d bytes", o.K, len(old))
		if pr.Killed {
			stat("killed")
			what += ", killed"
		} else if err != nil {
			stat("failed")
			what += fmt.Sprintf(", failed with %q", err)
		}
		if !isOld && !isNew {
			if !exists {
				viol("lost", "%s: the file is gone", what)
			}
			viol("torn", "%s: the file now holds %.40q (%d bytes), neither its old nor its new content", what, now, len(now))
		}
		if returned && err == nil && !isNew && !(want == nil) && !(o.F&1 != 0 && isOld) {
			viol("unreported", "%s: reported success, the file was not updated", what)
		}
		if returned && o.F&2 != 0 && err == nil {
			viol("unreported", "%s: the update function's error was dropped", what)
		}
		if !rewrite && len(muts) > 0 {
			viol("rewritten", "%s: nothing changed, yet the tool did: %s", what, strings.Join(muts, ", "))
		}
		if clean && o.F&2 == 0 && err != nil && !(o.K == "json") {
			viol("not-repeatable", "%s", what)
		}
		if exists && existed {
			fi, _ := sys.Stat_(real[o.T])
			if int(fi.Mode().Perm()) != modes[o.T] {
				viol("mode", "%s: the mode changed from %o to %o", what, modes[o.T], fi.Mode().Perm())
			}
		} else if exists {
			fi, _ := sys.Stat_(real[o.T])
			modes[o.T] = int(fi.Mode().Perm())
		}
		if real[o.T] != names[o.T] {
			if l, err := sys.Readlink(names[o.T]); err != nil || l != real[o.T] {
				viol("link", "%s: the link to the file is gone", what)
			}
		}
	}
	for _, o := range p.Main {
		run(o, false)
	}
	// afterwards updates work again
	sys.Quota = 0
	sys.Faults = nil
	for i := range names {
		run(&Op{K: "update", T: i, A: 5}, true)
	}
}
