package main

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/support/filecopy"
	"verif.local/io/sys"
)

// S01: directory copies.

func init() {
	profiles["S01"] = &profile{gen: gen01, run: run01, jump: true}
}

const (
	c01Link = 1 << iota
	c01Replace
	c01TargetExists
	c01SrcLink
	c01TrailingSlash
	c01SrcChanges
)

var names01 = []string{"a", "b", "c.go", "d_test.go", "e.txt", "x", "go.mod", "lib", "z.go", ".hid"}

func genTree(r *rng, max int, special bool) []*Op {
	var out []*Op
	var dirs = []string{""}
	seen := map[string]bool{}
	n := r.n(max)
	for i := 0; i < n; i++ {
		d := dirs[r.n(len(dirs))]
		nm := path.Join(d, names01[r.n(len(names01))])
		if seen[nm] {
			continue
		}
		seen[nm] = true
		switch r.n(12) {
		case 0, 1, 2:
			out = append(out, &Op{K: "dir", N: nm})
			dirs = append(dirs, nm)
		case 3:
			out = append(out, &Op{K: "link", N: nm, S: r.pick("a", "../x", "/src/b", "nowhere", ".")})
		case 4:
			if special {
				out = append(out, &Op{K: "pipe", N: nm})
			}
		default:
			o := &Op{K: "file", N: nm, A: int64(r.n(50))}
			if r.p(15) {
				o.A = int64(r.n(60000))
			}
			if r.p(10) {
				o.A = 0
			}
			out = append(out, o)
		}
	}
	return out
}

func gen01(r *rng, p *Plan) {
	p.Tree = genTree(r, []int{4, 12, 30, 60}[r.n(4)], true)
	p.Opt["conc"] = []int64{0, 1, 2, 2, 3, 4, 8}[r.n(7)]
	f := 0
	if r.p(8) {
		f |= c01Link
	}
	if r.p(60) {
		f |= c01Replace
	}
	if r.p(50) {
		f |= c01TargetExists
	}
	if r.p(15) {
		f |= c01SrcLink
	}
	if r.p(10) {
		f |= c01TrailingSlash
	}
	p.Opt["link"] = int64(r.n(5))
	p.Opt["flags"] = int64(f)
	for i := 0; i < r.n(3); i++ {
		p.Main = append(p.Main, &Op{K: r.pick("ignore", "ignoresuffix", "includesuffix"), S: ""})
		o := p.Main[len(p.Main)-1]
		switch o.K {
		case "ignore":
			o.S = names01[r.n(len(names01))]
			if len(p.Tree) > 0 && r.p(60) {
				o.S = p.Tree[r.n(len(p.Tree))].N
			}
		default:
			o.S = r.pick(".go", "_test.go", ".txt", "a", "od")
		}
	}
	n := 0
	if r.p(70) {
		n = 1 + r.n(4)
	}
	for i := 0; i < n; i++ {
		p.Faults = append(p.Faults, r.fault(0, []string{"err", "err", "err", "short", "late"},
			[]string{"", "mut", "open", "read", "write", "create", "close", "mkdir", "symlink", "readdir", "readlink", "stat", "remove"}, 1+len(p.Tree)*4))
	}
	if r.p(10) {
		p.Quota = int64(1 + r.n(60000))
	}
}

func putTree(dir string, tree []*Op) {
	sys.MkdirAll(dir, 0755)
	for _, o := range tree {
		nm := path.Join(dir, o.N)
		sys.MkdirAll(path.Dir(nm), 0755)
		if _, err := sys.Lstat(nm); err == nil {
			continue
		}
		switch o.K {
		case "dir":
			sys.MkdirAll(nm, 0755)
		case "link":
			sys.Symlink(o.S, nm)
		case "pipe":
			sys.Special(nm, fs.ModeNamedPipe|0644)
		case "file":
			b := make([]byte, o.A)
			for i := range b {
				b[i] = byte('a' + (i*7+len(o.N))%26)
			}
			sys.Put(nm, b, 0644)
		}
	}
}

func run01(p *Plan) {
	sys.MkdirAll("/work", 0755)
	putTree("/src", p.Tree)
	flags := int(p.Opt["flags"])
	srcArg := "/src"
	if flags&c01SrcLink != 0 {
		srcArg = "/srclink"
		switch p.Opt["link"] {
		case 0:
			sys.Symlink("/src", "/srclink")
		case 1:
			sys.Symlink("src", "/srclink")
		case 2:
			sys.MkdirAll("/l/m", 0755)
			sys.Symlink("../../src", "/l/m/to")
			srcArg = "/l/m/to"
		case 3:
			sys.MkdirAll("/l", 0755)
			sys.Symlink("/src", "/srclink")
			sys.Symlink("../srclink", "/l/to")
			srcArg = "/l/to"
		case 4:
			sys.Symlink("../src", "/work/to")
			srcArg = "to"
		}
	} else if p.Opt["link"] == 4 {
		srcArg = "../src"
	}
	if flags&c01TrailingSlash != 0 {
		srcArg += "/"
	}
	old := map[string]string{}
	sys.MkdirAll("/work", 0755)
	sys.MkdirAll("/out", 0755)
	sys.Put("/out/neighbour", []byte("n"), 0644)
	if flags&c01TargetExists != 0 {
		// the target holds older content of some of the files
		sys.MkdirAll("/out/dst", 0755)
		for i, o := range p.Tree {
			switch {
			case o.K == "file" && i%3 == 0 && flags&c01Link == 0:
				sys.Put("/out/dst/"+o.N, []byte(strings.Repeat("OLD", i)), 0644)
			case o.K == "dir" && i%3 == 0:
				sys.MkdirAll("/out/dst/"+o.N, 0755)
			}
		}
		sys.Put("/out/dst/other", []byte("keep"), 0644)
		sys.Put("/out/dst/lib2/other.go", []byte("keep"), 0644)
		old = sys.Tree("/out/dst")
	}
	opts := filecopy.NewOptions().Concurrent(int(p.Opt["conc"]))
	var ign, ignS, incS []string
	for _, o := range p.Main {
		switch o.K {
		case "ignore":
			ign = append(ign, o.S)
			opts.Ignore(o.S)
		case "ignoresuffix":
			ignS = append(ignS, o.S)
			opts.IgnoreSuffix(o.S)
		case "includesuffix":
			incS = append(incS, o.S)
			opts.IncludeSuffix(o.S)
		}
	}
	links := flags&c01Link != 0
	if links {
		opts.UseLink()
		ign, ignS, incS = nil, nil, nil
	}
	selected := func(rel string, dir bool) bool {
		parts := strings.Split(rel, "/")
		for i := range parts {
			sub := strings.Join(parts[:i+1], "/")
			for _, s := range ign {
				if s == sub {
					return false
				}
			}
		}
		if dir {
			return true
		}
		for _, s := range ignS {
			if strings.HasSuffix(rel, s) {
				return false
			}
		}
		if len(incS) == 0 {
			return true
		}
		for _, s := range incS {
			if strings.HasSuffix(rel, s) {
				return true
			}
		}
		return false
	}
	src := sys.Tree("/src")
	want := map[string]string{}
	replace := flags&c01Replace != 0
	if !replace {
		for k, v := range old {
			want[k] = v
		}
	}
	conflict := false
	for k, v := range src {
		rel := strings.TrimSuffix(k, "/")
		if rel == "." {
			want["./"] = "dir"
			continue
		}
		dir := strings.HasSuffix(k, "/")
		if links {
			if !dir {
				v = "link " + path.Join("/src", rel)
				if flags&c01SrcLink != 0 {
					v = ""
				}
			}
		} else {
			if !selected(rel, dir) || strings.HasPrefix(v, "special ") {
				continue
			}
		}
		if dir {
			delete(want, rel)
			want[k] = v
			continue
		}
		if _, ok := want[rel]; ok && strings.HasPrefix(v, "link ") {
			conflict = true // symbolic links are not overwritten
		}
		if _, ok := want[k+"/"]; ok {
			conflict = true
		}
		want[k] = v
	}
	setFaults(p)
	if p.Quota > 0 {
		sys.Quota = sys.Used() + p.Quota
	}
	// every operation outside the target is a read
	bad := ""
	sys.OnOp = func(q *sys.Proc, kind, name string) {
		switch kind {
		case "create", "write", "remove", "rename", "symlink", "mkdir", "truncate", "chmod":
			if !(kind == "mkdir" && name == "/out" || name == "/out/dst" || strings.HasPrefix(name, "/out/dst/")) && bad == "" {
				bad = kind + " " + name
			}
		}
	}
	var err error
	returned := false
	pr := sys.Start("tool", "/work", nil, func() int {
		phase = "copying"
		if replace {
			err = opts.CopyReplaceDir(srcArg, "/out/dst")
		} else {
			err = opts.Copy(srcArg, "/out/dst")
		}
		phase = ""
		returned = true
		return 0
	})
	pr.Wait()
	events = len(p.Tree)
	if pr.Panic != "" {
		viol("panic", "panic: %s", pr.Panic)
	}
	if !returned {
		viol("no-return", "the copy did not return")
	}
	hits := 0
	var hit []string
	for k, v := range sys.Stat {
		if strings.HasPrefix(k, "fault:") && v > 0 {
			hits++
			hit = append(hit, strings.TrimPrefix(k, "fault:"))
		}
	}
	sort.Strings(hit)
	if bad != "" {
		viol("outside", "the copy did %s, outside of the target", bad)
	}
	if err != nil {
		stat("copy:failed")
		if hits == 0 && p.Quota == 0 && !conflict && !(links && flags&c01SrcLink != 0) {
			viol("spurious", "the copy failed without a fault: %v", err)
		}
		return
	}
	stat("copy:ok")
	if links && flags&c01SrcLink != 0 {
		return
	}
	if d := sys.Diff(want, sys.Tree("/out/dst")); d != "" {
		viol("incomplete", "the copy (flags %#x, %d workers, faults %v) reported success, but %s", flags, p.Opt["conc"], hit, d)
	}
	if d := sys.Diff(src, sys.Tree("/src")); d != "" {
		viol("source", "the source was changed: %s", d)
	}
	// a failed read, write or close is never success
	for _, h := range hit {
		switch h {
		case "err:write", "err:read", "late:close", "short:write", "torn:write":
			viol("unreported", "the copy reported success despite %s", h)
		case "err:close":
			viol("unreported", "the copy reported success despite %s", h)
		}
	}
	_ = fmt.Sprint
}
