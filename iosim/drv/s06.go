package main

import (
	"archive/zip"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"time"

	"github.com/xhd2015/xgo/cmd/xgo/upgrade"
	"github.com/xhd2015/xgo/support/downloadgo"
	"github.com/xhd2015/xgo/support/httputil"
	"verif.local/io/sys"
	"verif.local/simk"
)

// S06: downloading and unpacking.

func init() {
	profiles["S06"] = &profile{gen: gen06, run: run06}
}

var hostile = []string{"../evil", "../../evil", "/evil", "a/../../evil", "./../evil", "..", "a/../../../home/evil", "//evil", "go/../../evil", "../work2/evil", "../targetx"}

func genArchive(r *rng, prefix string, max int, hostileNames bool) []*Op {
	out := []*Op{}
	dirs := []string{""}
	if prefix != "" {
		out = append(out, &Op{K: "dir", N: prefix})
		dirs = []string{prefix}
	}
	seen := map[string]bool{}
	n := 1 + r.n(max)
	for i := 0; i < n; i++ {
		nm := path.Join(dirs[r.n(len(dirs))], names01[r.n(len(names01))])
		if seen[nm] {
			continue
		}
		seen[nm] = true
		o := &Op{K: "file", N: nm, A: int64(r.n(300))}
		switch r.n(10) {
		case 0, 1, 2:
			o.K = "dir"
			dirs = append(dirs, nm)
		case 3:
			o.A = int64(r.n(40000))
		}
		if o.K == "file" && r.p(5) {
			o.N = "./" + o.N
		}
		out = append(out, o)
	}
	if hostileNames {
		for i := 0; i < 1+r.n(2); i++ {
			h := &Op{K: "file", N: hostile[r.n(len(hostile))], A: 5}
			if r.p(25) {
				h.K = "dir"
			}
			at := r.n(len(out) + 1)
			out = append(out[:at:at], append([]*Op{h}, out[at:]...)...)
		}
	}
	return out
}

func gen06(r *rng, p *Plan) {
	mode := r.n(4)
	p.Opt["mode"] = int64(mode)
	switch mode {
	case 0:
		o := &Op{K: "serve", A: int64(r.n(30000)), T: 200, L: -1, H: "length"}
		switch r.n(10) {
		case 0:
			o.T = []int{404, 403, 500, 503, 301, 204, 416, 206}[r.n(8)]
		case 1, 2:
			o.L = r.n(int(o.A) + 1)
			o.S = r.pick("reset", "eof")
		case 3:
			o.S = "refused"
		case 4:
			o.S = "stall"
			o.L = r.n(int(o.A) + 1)
		}
		p.Main = append(p.Main, o)
		p.Opt["timeout"] = int64(r.n(2))
		p.Opt["old"] = int64(r.n(3))
	case 1, 2:
		p.Tree = genArchive(r, "", 14, r.p(30))
		if r.p(10) {
			p.Tree = append(p.Tree, &Op{K: r.pick("link", "hard", "pipe"), N: "ln", S: r.pick("../x", "/home/secret", "a")})
			if r.p(50) {
				p.Tree = append(p.Tree, &Op{K: "file", N: "ln/evil", A: 3})
			}
		}
		if r.p(35) {
			o := &Op{K: r.pick("truncate", "flip", "flip", "noend"), A: int64(r.n(1000)), I: r.n(8)}
			p.Main = append(p.Main, o)
		}
	case 3:
		p.Tree = genArchive(r, "go", 14, r.p(30))
		if r.p(35) {
			o := &Op{K: r.pick("truncate", "flip", "flip"), A: int64(r.n(1000)), I: r.n(8)}
			p.Main = append(p.Main, o)
		}
		p.Opt["store"] = int64(r.n(2))
	}
	if r.p(50) {
		for i := 0; i < 1+r.n(3); i++ {
			p.Faults = append(p.Faults, r.fault(0, []string{"err", "err", "short", "late"}, []string{"", "mut", "write", "close", "create", "read", "mkdir", "open", "rename"}, 40))
		}
	}
	if r.p(10) {
		p.Quota = int64(r.n(40000))
	}
}

func run06(p *Plan) {
	sys.MkdirAll("/work/target", 0755)
	sys.MkdirAll("/work/target2", 0755)
	sys.Put("/home/secret", []byte("s"), 0644)
	bad := ""
	allowed := func(name string) bool {
		name = path.Clean(name)
		return name == "/work/target" || strings.HasPrefix(name, "/work/target/") || strings.HasPrefix(name, "/work/file")
	}
	sys.OnOp = func(q *sys.Proc, kind, name string) {
		switch kind {
		case "create", "remove", "rename", "symlink", "mkdir", "truncate", "chmod":
			if !strings.HasPrefix(name, "/") {
				name = path.Join(q.Cwd, name)
			}
			if !allowed(name) && !(kind == "mkdir" && (name == "/work" || name == "/")) && bad == "" {
				bad = kind + " " + name
			}
		}
	}
	events++
	mode := p.Opt["mode"]
	stat(fmt.Sprintf("mode:%d", mode))
	var err error
	returned := false
	var want map[string]string
	check := func() {}
	corrupt := ""
	run := func(fn func() int) {
		setFaults(p)
		if p.Quota > 0 {
			sys.Quota = sys.Used() + p.Quota
		}
		pr := sys.Start("tool", "/work", []string{"HOME=/home", "TMPDIR=/tmp"}, func() int {
			fn()
			returned = true
			return 0
		})
		pr.Wait()
		if pr.Panic != "" {
			viol("panic", "panic: %s", pr.Panic)
		}
	}
	switch mode {
	case 0:
		o := p.Main0()
		body := data(int64(p.Seed), o.A)
		sys.HTTP = func(url string) *sys.Response {
			if url != "http://host/file" {
				return &sys.Response{Status: 404, Cut: -1, Length: -1}
			}
			r := &sys.Response{Status: o.T, Body: body, Cut: -1, Length: int64(len(body))}
			if o.L >= 0 {
				r.Cut = o.L
			}
			switch o.S {
			case "refused":
				return nil
			case "reset":
				r.Err = errors.New("connection reset by peer")
			case "stall":
				r.Err = errStall
			}
			return r
		}
		if p.Opt["old"] == 0 {
			sys.Put("/work/file", bytes.Repeat([]byte("old"), 20000), 0644)
		}
		start := simk.Clock()
		run(func() int {
			if p.Opt["timeout"] == 1 || o.S == "stall" {
				err = upgrade.DownloadFile(context.Background(), 30*time.Second, "http://host/file", "/work/file")
			} else {
				err = httputil.DownloadFile(context.Background(), "http://host/file", "/work/file")
			}
			return 0
		})
		if d := simk.Clock() - start; d > int64(31*time.Second) {
			viol("slow", "the download took %v, its limit is 30 s", time.Duration(d))
		}
		whole := o.T == 200 && o.S != "refused" && (o.L < 0 || o.L >= len(body))
		if whole && err != nil && len(hits()) == 0 {
			viol("spurious", "the download failed: %v", err)
		}
		check = func() {
			if !whole {
				viol("unreported", "the download reported success: status %d, %d of %d bytes served, %s", o.T, o.L, len(body), o.S)
			}
			got := sys.Tree("/work/file")["."]
			if got != "file "+string(body) {
				viol("content", "the download reported success, the file holds %d bytes, served were %d (faults %v)", len(got)-5, len(body), hits())
			}
		}
	case 1, 2:
		noEnd := false
		for _, o := range p.Main {
			noEnd = noEnd || o.K == "noend"
		}
		arch := tarGz(p.Tree, noEnd)
		arch, corrupt = damage(p, arch, nil)
		want = unpacked(p.Tree)
		sys.Put("/work/file.tar.gz", arch, 0644)
		run(func() int {
			if mode == 1 {
				err = upgrade.ExtractTarGzFile("/work/file.tar.gz", "/work/target")
			} else {
				var r io.Reader = bytes.NewReader(arch)
				err = upgrade.ExtractTarGz(struct{ io.Reader }{r}, "/work/target")
			}
			return 0
		})
		check = func() { cmp06(p, want, "/work/target", corrupt) }
	case 3:
		arch := zipArchive(p.Tree, p.Opt["store"] == 1)
		spans := [][2]int64{}
		if z, e := zip.NewReader(bytes.NewReader(arch), int64(len(arch))); e == nil {
			for _, f := range z.File {
				off, _ := f.DataOffset()
				if f.CompressedSize64 > 0 && !strings.HasSuffix(f.Name, "/") {
					spans = append(spans, [2]int64{off, int64(f.CompressedSize64)})
				}
			}
		}
		arch, corrupt = damage(p, arch, spans)
		want = below(unpacked(p.Tree), "go")
		var dest string
		run(func() int {
			dest, err = downloadgo.Download(context.Background(), "go1.20.1", downloadgo.Options{
				Dir: "/work/target", GOOS: "windows", GOARCH: "amd64",
				ListVersions: func(context.Context) ([]string, error) { return []string{"1.20.1"}, nil },
				GetFile: func(_ context.Context, url, dest string) error {
					f, err := sys.Open(dest, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
					if err != nil {
						return err
					}
					_, err = f.Write(arch)
					if e := f.Close(); err == nil {
						err = e
					}
					return err
				},
			})
			return 0
		})
		check = func() {
			if dest != "/work/target/go1.20.1" {
				viol("dest", "the installation is at %q", dest)
			}
			cmp06(p, want, dest, corrupt)
		}
	}
	if bad != "" {
		viol("escape", "the operation did %s, outside of its target", bad)
	}
	if !returned {
		viol("no-return", "the operation did not return")
	}
	if err != nil {
		stat("failed")
		return
	}
	stat("ok")
	for _, h := range hits() {
		switch h {
		case "err:write", "late:close", "short:write", "err:close", "diskfull:write":
			viol("unreported", "the operation reported success despite %s", h)
		}
	}
	check()
}

func (p *Plan) Main0() *Op {
	if len(p.Main) == 0 {
		return &Op{K: "serve", T: 200, L: -1, A: 10}
	}
	return p.Main[0]
}

// damage truncates an archive or flips one of its bits.
func damage(p *Plan, arch []byte, spans [][2]int64) ([]byte, string) {
	out := append([]byte(nil), arch...)
	d := ""
	for _, o := range p.Main {
		switch o.K {
		case "truncate":
			n := int64(len(out)) * o.A / 1000
			if n < int64(len(out)) {
				out = out[:n]
				d = "truncated"
			}
		case "flip":
			at := int64(len(out)) * o.A / 1000
			if spans != nil {
				if len(spans) == 0 {
					continue
				}
				s := spans[int(o.A)%len(spans)]
				at = s[0] + s[1]*o.A/1000
			}
			if at < int64(len(out)) {
				out[at] ^= 1 << uint(o.I)
				d = fmt.Sprintf("bit %d of byte %d flipped", o.I, at)
			}
		}
	}
	return out, d
}

func cmp06(p *Plan, want map[string]string, dir, corrupt string) {
	for _, o := range p.Tree {
		c := path.Clean(o.N)
		if c == ".." || strings.HasPrefix(c, "../") {
			viol("accepted", "an archive with the entry %q was unpacked", o.N)
		}
		if o.K != "file" && o.K != "dir" {
			viol("accepted", "an archive with a %s was unpacked without it", o.K)
		}
	}
	w := map[string]string{}
	for k, v := range want {
		w[strings.TrimPrefix(k, "/")] = v
	}
	if d := sys.Diff(w, sys.Tree(dir)); d != "" {
		if corrupt != "" {
			corrupt = ", the archive was damaged: " + corrupt
		}
		viol("content", "the archive was unpacked with success, but %s (faults %v%s)", d, hits(), corrupt)
	}
}

var errStall = errors.New("stall")
