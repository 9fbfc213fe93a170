package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"verif.local/io/sys"
)

func data(seed, n int64) []byte {
	b := make([]byte, n)
	r := rng(seed)
	for i := range b {
		b[i] = 'a' + byte(r.u64()%20)
	}
	return b
}

// entries of an archive: Op{K: file|dir|link, N: name, S: link target, A: size}.

func tarGz(tree []*Op, noEnd bool) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	t := tar.NewWriter(z)
	for i, o := range tree {
		h := &tar.Header{Name: o.N, Mode: 0644, ModTime: time.Unix(1600000000, 0), Format: tar.FormatPAX}
		var d []byte
		switch o.K {
		case "dir":
			h.Typeflag, h.Mode = tar.TypeDir, 0755
		case "link":
			h.Typeflag, h.Linkname = tar.TypeSymlink, o.S
		case "hard":
			h.Typeflag, h.Linkname = tar.TypeLink, o.S
		case "pipe":
			h.Typeflag = tar.TypeFifo
		default:
			h.Typeflag = tar.TypeReg
			d = data(int64(i), o.A)
			h.Size = int64(len(d))
		}
		if err := t.WriteHeader(h); err != nil {
			panic(err)
		}
		t.Write(d)
	}
	if noEnd {
		t.Flush()
	} else {
		t.Close()
	}
	z.Close()
	return b.Bytes()
}

func zipArchive(tree []*Op, store bool) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	z.RegisterCompressor(zip.Deflate, func(w io.Writer) (io.WriteCloser, error) { return flate.NewWriter(w, 1) })
	for i, o := range tree {
		h := &zip.FileHeader{Name: o.N, Method: zip.Deflate}
		if store {
			h.Method = zip.Store
		}
		h.SetMode(0644)
		if o.K == "dir" {
			h.SetMode(0755 | os.ModeDir)
			if !strings.HasSuffix(h.Name, "/") {
				h.Name += "/"
			}
		}
		w, err := z.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if o.K != "dir" {
			w.Write(data(int64(i), o.A))
		}
	}
	z.Close()
	return b.Bytes()
}

// unpacked is the tree an archive stands for, below its root.
func unpacked(tree []*Op) map[string]string {
	m := map[string]string{"./": "dir"}
	for i, o := range tree {
		n := path.Clean(o.N)
		for d := path.Dir(n); d != "." && d != "/"; d = path.Dir(d) {
			m[d+"/"] = "dir"
		}
		if n == "." {
			continue
		}
		switch o.K {
		case "dir":
			m[n+"/"] = "dir"
		case "link":
			m[n] = "link " + o.S
		default:
			m[n] = "file " + string(data(int64(i), o.A))
		}
	}
	return m
}

func below(m map[string]string, dir string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if k == dir+"/" {
			out["./"] = v
		} else if strings.HasPrefix(k, dir+"/") {
			out[k[len(dir)+1:]] = v
		}
	}
	return out
}

// hits lists the faults that were met.
func hits() []string {
	var l []string
	for k, v := range sys.Stat {
		if strings.HasPrefix(k, "fault:") && v > 0 {
			l = append(l, strings.TrimPrefix(k, "fault:"))
		}
	}
	sort.Strings(l)
	return l
}

// the simulated network: what a URL serves.
type served struct {
	status  int
	body    []byte
	cut     int // bytes that arrive; -1: all
	err     error
	dialErr error
	length  int64
	slow    time.Duration // before each part of the body
}

// --- commands ---

// curl downloads a file: [-f] [-L] [-o FILE] URL
func curl(c *sys.Call) int {
	file, url := "", ""
	fail := false
	for i := 1; i < len(c.Args); i++ {
		a := c.Args[i]
		switch {
		case a == "-o" || a == "--output":
			i++
			if i < len(c.Args) {
				file = c.Args[i]
			}
		case strings.HasPrefix(a, "--"):
			if a == "--fail" {
				fail = true
			}
		case strings.HasPrefix(a, "-"):
			if strings.Contains(a, "f") {
				fail = true
			}
			if strings.HasSuffix(a, "o") {
				i++
				if i < len(c.Args) {
					file = c.Args[i]
				}
			}
		default:
			url = a
		}
	}
	var r *sys.Response
	if sys.HTTP != nil {
		r = sys.HTTP(url)
	}
	if r == nil || r.DialErr != nil {
		c.Errf("curl: (7) Failed to connect\n")
		return 7
	}
	if r.Status >= 400 && fail {
		c.Errf("curl: (22) The requested URL returned error: %d\n", r.Status)
		return 22
	}
	var w io.Writer = c.Stdout
	var f *sys.File
	if file != "" {
		var err error
		f, err = sys.Open(c.File(file), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
		if err != nil {
			c.Errf("curl: (23) Failure writing output to destination\n")
			return 23
		}
		w = f
	}
	body := r.Body
	short := r.Cut >= 0 && r.Cut < len(body)
	if short {
		body = body[:r.Cut]
	}
	part := len(body)/4 + 1
	for n := 0; len(body) > 0; n++ {
		if c.Fail != nil && n*250 >= c.Fail.Arg {
			if f != nil {
				f.Close()
			}
			return -9
		}
		k := part
		if k > len(body) {
			k = len(body)
		}
		if _, err := w.Write(body[:k]); err != nil {
			if f != nil {
				f.Close()
			}
			return 23
		}
		body = body[k:]
	}
	if f != nil {
		if f.Close() != nil {
			return 23
		}
	}
	if c.Fail != nil {
		return 1 + c.Fail.Arg%80
	}
	if short && (r.Err != nil || r.Length >= 0) {
		c.Errf("curl: (18) transfer closed with outstanding read data remaining\n")
		return 18
	}
	return 0
}

// untar extracts: [-C DIR] -xzf FILE [-C DIR]
func untar(c *sys.Call) int {
	dir, file := "", ""
	for i := 1; i < len(c.Args); i++ {
		switch a := c.Args[i]; {
		case a == "-C":
			i++
			if i < len(c.Args) {
				dir = c.Args[i]
			}
		case strings.HasSuffix(a, "f") && strings.HasPrefix(a, "-"):
			i++
			if i < len(c.Args) {
				file = c.Args[i]
			}
		}
	}
	if dir == "" {
		dir = c.Dir
		if dir == "" {
			dir = sys.Cur().Cwd
		}
	}
	dir = c.File(dir)
	bad := func(err error) int {
		c.Errf("tar: %v\n", err)
		return 2
	}
	f, err := sys.Open(c.File(file), 0, 0)
	if err != nil {
		return bad(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return bad(err)
	}
	t := tar.NewReader(z)
	code := 0
	for n := 0; ; n++ {
		if c.Fail != nil && n >= c.Fail.Arg%40 {
			return 2 - c.Fail.Arg%2*11
		}
		h, err := t.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return bad(err)
		}
		name := path.Join(dir, h.Name)
		if err := sys.MkdirAll(path.Dir(name), 0755); err != nil {
			code = bad(err)
			continue
		}
		switch h.Typeflag {
		case tar.TypeDir:
			err = sys.MkdirAll(name, 0755)
		case tar.TypeSymlink:
			sys.Remove(name)
			err = sys.Symlink(h.Linkname, name)
		case tar.TypeReg:
			sys.Remove(name)
			var w *sys.File
			w, err = sys.Open(name, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, fs.FileMode(h.Mode))
			if err == nil {
				_, err = io.Copy(struct{ io.Writer }{w}, t)
				if e := w.Close(); err == nil {
					err = e
				}
			}
		}
		if err != nil {
			code = bad(err)
		}
	}
	if _, err := io.Copy(io.Discard, z); err != nil {
		return bad(err)
	}
	if c.Fail != nil {
		return 2
	}
	return code
}

var _ = fmt.Sprint

func sorted(m map[string]string) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
