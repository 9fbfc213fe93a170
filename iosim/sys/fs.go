package sys

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/simk"
)

// Node is an inode.
type Node struct {
	Mode  fs.FileMode
	Data  []byte
	ro    bool // Data is shared with other runs
	Link  string
	Kids  map[string]*Node
	Mtime int64
	Ino   int
}

var (
	root  *Node
	ninos int
	used  int64
	// Quota is the capacity of the disk; 0 is unlimited.
	Quota int64
	// Salt varies what the system leaves unspecified: directory order and
	// temporary names.
	Salt  uint64
	ntemp int
	// OnOp observes every operation of a process.
	OnOp func(p *Proc, kind, path string)
)

func resetFS() {
	ninos, used, Quota, ntemp = 0, 0, 0, 0
	OnOp = nil
	root = newNode(fs.ModeDir | 0755)
	MkdirAll("/tmp", 0777)
	ntemp = 0
}

func newNode(mode fs.FileMode) *Node {
	ninos++
	n := &Node{Mode: mode, Ino: ninos, Mtime: simk.Clock()}
	if mode.IsDir() {
		n.Kids = map[string]*Node{}
	}
	return n
}

// Fault is something that goes wrong at one operation of one process.
type Fault struct {
	Proc int    // index of the process
	Kind string // of the operation; "" is any
	N    int    // how many such operations to let pass
	Act  string // crash, crashafter, torn, err, short, late
	Err  syscall.Errno
	Arg  int // per mille of the data that gets through
	hit  bool
}

var Faults []*Fault
var Stat map[string]uint64

// Mutating operations; a fault of kind "mut" counts these.
var mutating = map[string]bool{"create": true, "write": true, "close": true, "mkdir": true, "remove": true, "rename": true, "symlink": true, "truncate": true, "chmod": true, "exec": true}

// op announces an operation. The result tells what goes wrong with it.
func op(kind, name string) *Fault {
	if Gone() {
		return &Fault{Act: "err", Err: syscall.EIO}
	}
	p := Cur()
	if p == driver {
		return nil
	}
	simk.Y()
	if Gone() {
		return &Fault{Act: "err", Err: syscall.EIO}
	}
	p.NOps++
	p.Counts[kind]++
	m := mutating[kind]
	if m {
		p.Counts["mut"]++
	}
	Stat["op:"+kind]++
	if DiffAll {
		println(p.Index, p.NOps, kind, name)
	}
	if OnOp != nil {
		OnOp(p, kind, name)
	}
	for _, f := range Faults {
		if f.hit || f.Proc != p.Index {
			continue
		}
		n := p.NOps
		if f.Kind == "mut" && !m {
			continue
		}
		if f.Kind != "" {
			if f.Kind != "mut" && f.Kind != kind {
				continue
			}
			n = p.Counts[f.Kind]
		}
		if n-1 < f.N {
			continue
		}
		if f.Act == "late" && kind != "close" || (f.Act == "short" || f.Act == "torn") && kind != "write" || f.Act == "fail" && kind != "exec" {
			continue
		}
		f.hit = true
		if DiffAll {
			println("FAULT", f.Act, kind, name)
		}
		Stat["fault:"+f.Act+":"+kind]++
		if f.Act == "crash" {
			Crash()
		}
		return f
	}
	return nil
}

// done completes an operation.
func done(f *Fault) {
	if f != nil && f.Act == "crashafter" {
		Crash()
	}
}

func (f *Fault) err() error {
	if f != nil && f.Act == "err" {
		if f.Err == 0 {
			return syscall.EIO
		}
		return f.Err
	}
	return nil
}

func abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = Cur().Cwd + "/" + name
	}
	return name
}

// walk resolves name; parent and base are set when the last element's
// directory exists.
func walk(name string, follow bool) (n, parent *Node, base string, err error) {
	if name == "" {
		return nil, nil, "", syscall.ENOENT
	}
	slash := strings.HasSuffix(name, "/")
	return walk1(abs(name), follow || slash, 0)
}

func walk1(name string, follow bool, depth int) (n, parent *Node, base string, err error) {
	if depth > 40 {
		return nil, nil, "", syscall.ELOOP
	}
	parts := strings.Split(name, "/")
	var stack []*Node
	var names []string
	n = root
	for i, e := range parts {
		if e == "" || e == "." {
			continue
		}
		if n == nil {
			return nil, nil, "", syscall.ENOENT
		}
		if n.Mode&fs.ModeType != fs.ModeDir {
			return nil, nil, "", syscall.ENOTDIR
		}
		if e == ".." {
			if len(stack) > 0 {
				n = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		k := n.Kids[e]
		last := true
		for _, r := range parts[i+1:] {
			if r != "" && r != "." {
				last = false
			}
		}
		if k != nil && k.Mode&fs.ModeSymlink != 0 && (!last || follow) {
			t := k.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			if r := strings.Join(parts[i+1:], "/"); r != "" {
				t += "/" + r
			}
			return walk1(t, follow, depth+1)
		}
		if k == nil && !last {
			return nil, nil, "", syscall.ENOENT
		}
		stack = append(stack, n)
		names = append(names, e)
		n = k
	}
	if len(stack) == 0 {
		return n, nil, "/", nil
	}
	parent = stack[len(stack)-1]
	base = names[len(names)-1]
	if n == nil {
		err = syscall.ENOENT
	}
	return
}

func perr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// Info implements fs.FileInfo.
type Info struct {
	name string
	mode fs.FileMode
	size int64
	mod  int64
	N    *Node
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return time.Unix(0, i.mod) }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() interface{}   { return nil }

func info(name string, n *Node) *Info {
	sz := int64(len(n.Data))
	if n.Mode&fs.ModeSymlink != 0 {
		sz = int64(len(n.Link))
	}
	return &Info{name: name, mode: n.Mode, size: sz, mod: n.Mtime, N: n}
}

func stat(o, name string, follow bool) (fs.FileInfo, error) {
	f := op("stat", name)
	if err := f.err(); err != nil {
		return nil, perr(o, name, err)
	}
	n, _, _, err := walk(name, follow)
	done(f)
	if err != nil {
		return nil, perr(o, name, err)
	}
	return info(path.Base(name), n), nil
}

func Stat_(name string) (fs.FileInfo, error) { return stat("stat", name, true) }
func Lstat(name string) (fs.FileInfo, error) { return stat("lstat", name, false) }

func Mkdir(name string, perm fs.FileMode) error {
	f := op("mkdir", name)
	if err := f.err(); err != nil {
		return perr("mkdir", name, err)
	}
	n, parent, base, err := walk(name, false)
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if parent == nil {
		return perr("mkdir", name, err)
	}
	parent.Kids[base] = newNode(fs.ModeDir | perm.Perm())
	done(f)
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	if fi, err := Stat_(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	c := strings.TrimRight(name, "/")
	if i := strings.LastIndex(c, "/"); i > 0 {
		if err := MkdirAll(c[:i], perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if fi, err1 := Lstat(name); err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	f := op("remove", name)
	if err := f.err(); err != nil {
		return perr("remove", name, err)
	}
	n, parent, base, err := walk(strings.TrimRight(name, "/"), false)
	if err != nil {
		return perr("remove", name, err)
	}
	if parent == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	if len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(parent.Kids, base)
	free(n)
	done(f)
	return nil
}

func free(n *Node) {
	used -= int64(len(n.Data))
}

// order is the order in which the system lists a directory.
func order(n *Node) []string {
	var out []string
	for k := range n.Kids {
		out = append(out, k)
	}
	h := func(s string) uint64 {
		x := Salt ^ 14695981039346656037
		for i := 0; i < len(s); i++ {
			x = (x ^ uint64(s[i])) * 1099511628211
		}
		x ^= x >> 29
		return x * 0x9e3779b97f4a7c15
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := h(out[i]), h(out[j])
		return a < b || a == b && out[i] < out[j]
	})
	return out
}

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	if strings.HasSuffix(name, "/.") || name == "." {
		return perr("RemoveAll", name, syscall.EINVAL)
	}
	err := Remove(name)
	if err == nil || os.IsNotExist(err) {
		return nil
	}
	n, _, _, werr := walk(strings.TrimRight(name, "/"), false)
	if werr == syscall.ENOENT {
		return nil
	}
	if n == nil || !n.Mode.IsDir() {
		return err
	}
	f := op("readdir", name)
	if e := f.err(); e != nil {
		return perr("openfdat", name, e)
	}
	for _, k := range order(n) {
		e := RemoveAll(strings.TrimRight(name, "/") + "/" + k)
		if e != nil {
			return e
		}
	}
	err = Remove(name)
	if err == nil || os.IsNotExist(err) {
		return nil
	}
	return err
}

func Rename(a, b string) error {
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	f := op("rename", b)
	if err := f.err(); err != nil {
		return le(err)
	}
	n, pa, na, err := walk(strings.TrimRight(a, "/"), false)
	if err != nil {
		return le(err)
	}
	m, pb, nb, err := walk(strings.TrimRight(b, "/"), false)
	if pb == nil {
		if err == nil {
			err = syscall.EBUSY
		}
		return le(err)
	}
	if m == n {
		done(f)
		return nil
	}
	if m != nil && m.Mode.IsDir() {
		return le(syscall.EEXIST)
	}
	if m != nil && n.Mode.IsDir() {
		return le(syscall.ENOTDIR)
	}
	for d := pb; n.Mode.IsDir(); {
		if d == n {
			return le(syscall.EINVAL)
		}
		d = parentOf(d)
		if d == nil {
			break
		}
	}
	if m != nil {
		free(m)
	}
	delete(pa.Kids, na)
	pb.Kids[nb] = n
	done(f)
	return nil
}

func parentOf(n *Node) *Node {
	var find func(d *Node) *Node
	find = func(d *Node) *Node {
		for _, k := range d.Kids {
			if k == n {
				return d
			}
			if k.Mode.IsDir() {
				if r := find(k); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return find(root)
}

func Symlink(target, name string) error {
	le := func(e error) error { return &os.LinkError{Op: "symlink", Old: target, New: name, Err: e} }
	f := op("symlink", name)
	if err := f.err(); err != nil {
		return le(err)
	}
	n, parent, base, err := walk(name, false)
	if n != nil {
		return le(syscall.EEXIST)
	}
	if parent == nil {
		return le(err)
	}
	k := newNode(fs.ModeSymlink | 0777)
	k.Link = target
	parent.Kids[base] = k
	done(f)
	return nil
}

func Link(old, name string) error {
	le := func(e error) error { return &os.LinkError{Op: "link", Old: old, New: name, Err: e} }
	f := op("symlink", name)
	if err := f.err(); err != nil {
		return le(err)
	}
	o, _, _, err := walk(old, false)
	if err != nil {
		return le(err)
	}
	n, parent, base, err := walk(name, false)
	if n != nil {
		return le(syscall.EEXIST)
	}
	if parent == nil {
		return le(err)
	}
	parent.Kids[base] = o
	done(f)
	return nil
}

func Readlink(name string) (string, error) {
	f := op("readlink", name)
	if err := f.err(); err != nil {
		return "", perr("readlink", name, err)
	}
	n, _, _, err := walk(name, false)
	done(f)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.Mode&fs.ModeSymlink == 0 {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}

func Chmod(name string, mode fs.FileMode) error {
	f := op("chmod", name)
	if err := f.err(); err != nil {
		return perr("chmod", name, err)
	}
	n, _, _, err := walk(name, true)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = n.Mode&fs.ModeType | mode.Perm()
	done(f)
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	f := op("chmod", name)
	if err := f.err(); err != nil {
		return perr("chtimes", name, err)
	}
	n, _, _, err := walk(name, true)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.Mtime = m.UnixNano()
	done(f)
	return nil
}

func Truncate(name string, size int64) error {
	f := op("truncate", name)
	if err := f.err(); err != nil {
		return perr("truncate", name, err)
	}
	n, _, _, err := walk(name, true)
	if err != nil {
		return perr("truncate", name, err)
	}
	n.resize(size)
	done(f)
	return nil
}

func (n *Node) resize(size int64) {
	used += size - int64(len(n.Data))
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size:size]
		return
	}
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data, n.ro = d, false
}

func Chdir(name string) error {
	n, _, _, err := walk(name, true)
	if err == nil && !n.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", name, err)
	}
	Cur().Cwd = path.Clean(abs(name))
	return nil
}

// File is an open file.
type File struct {
	n      *Node
	name   string
	pos    int64
	flag   int
	closed bool
	dirty  int64 // bytes written through this handle
	std    io.Writer
	rd     io.Reader
	dirpos int
	dir    []string
}

func StdFile(name string, w io.Writer) *File { return &File{name: name, std: w} }

// PipeFile is a file that reads from r or writes to w.
func PipeFile(name string, r io.Reader, w io.Writer) *File {
	return &File{name: name, std: w, rd: r}
}

func Open(name string, flag int, perm fs.FileMode) (*File, error) {
	kind := "open"
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		kind = "create"
	}
	f := op(kind, name)
	if err := f.err(); err != nil {
		return nil, perr("open", name, err)
	}
	n, parent, base, err := walk(name, true)
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 || parent == nil {
			if err == nil {
				err = syscall.ENOENT
			}
			return nil, perr("open", name, err)
		}
		if l := parent.Kids[base]; l != nil {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = newNode(perm.Perm())
		parent.Kids[base] = n
	}
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n.Mode.IsDir() && w {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && w {
		n.resize(0)
	}
	done(f)
	return &File{n: n, name: name, flag: flag}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.rd != nil {
		return f.rd.Read(b)
	}
	if f.std != nil {
		return 0, io.EOF
	}
	n, err := f.readAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, err := f.readAt(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	x := op("read", f.name)
	if err := x.err(); err != nil {
		return 0, perr("read", f.name, err)
	}
	defer done(x)
	if f.n.Mode.IsDir() {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if off >= int64(len(f.n.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	return copy(b, f.n.Data[off:]), nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != nil {
		return f.std.Write(b)
	}
	off := f.pos
	if f.flag&os.O_APPEND != 0 {
		off = int64(len(f.n.Data))
	}
	n, err := f.writeAt(b, off)
	f.pos = off + int64(n)
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off)
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	x := op("write", f.name)
	if err := x.err(); err != nil {
		return 0, perr("write", f.name, err)
	}
	if Gone() {
		return 0, ErrDead
	}
	keep := len(b)
	var err error
	if x != nil && (x.Act == "short" || x.Act == "torn") {
		keep = len(b) * x.Arg / 1000
		err = x.Err
		if err == syscall.Errno(0) {
			err = syscall.ENOSPC
		}
	}
	if Quota > 0 {
		if room := Quota - used; int64(keep) > room {
			if room < 0 {
				room = 0
			}
			keep = int(room)
			err = syscall.ENOSPC
			Stat["fault:diskfull:write"]++
		}
	}
	f.n.write(b[:keep], off)
	f.dirty += int64(keep)
	if x != nil && x.Act == "torn" {
		Crash()
	}
	done(x)
	if err != nil {
		return keep, perr("write", f.name, err)
	}
	return keep, nil
}

func (n *Node) write(b []byte, off int64) {
	end := off + int64(len(b))
	if n.ro || end > int64(cap(n.Data)) {
		c := 2 * len(n.Data)
		if int64(c) < end {
			c = int(end)
		}
		if c < len(n.Data) {
			c = len(n.Data)
		}
		d := make([]byte, len(n.Data), c)
		copy(d, n.Data)
		n.Data, n.ro = d, false
	}
	if end > int64(len(n.Data)) {
		used += end - int64(len(n.Data))
		old := len(n.Data)
		n.Data = n.Data[:end]
		for i := old; int64(i) < off; i++ {
			n.Data[i] = 0
		}
	}
	copy(n.Data[off:], b)
	n.Mtime = simk.Clock()
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std != nil || f.rd != nil {
		f.closed = true
		return nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		f.closed = true
		return nil
	}
	x := op("close", f.name)
	f.closed = true
	if x != nil && x.Act == "late" && f.dirty == 0 {
		// nothing to lose: wait for another file
		Stat["fault:late:close"]--
		if Stat["fault:late:close"] == 0 {
			delete(Stat, "fault:late:close")
		}
		x.hit = false
		x = nil
	}
	if x != nil && x.Act == "late" {
		// what was written last did not make it to the disk
		lost := 1 + f.dirty*int64(1000-x.Arg)/1001
		if lost > int64(len(f.n.Data)) {
			lost = int64(len(f.n.Data))
		}
		f.n.resize(int64(len(f.n.Data)) - lost)
		e := x.Err
		if e == 0 {
			e = syscall.EIO
		}
		return perr("close", f.name, e)
	}
	if err := x.err(); err != nil {
		return perr("close", f.name, err)
	}
	done(x)
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std != nil {
		return nil
	}
	x := op("sync", f.name)
	if err := x.err(); err != nil {
		return perr("sync", f.name, err)
	}
	done(x)
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.n == nil {
		return &Info{name: f.name, mode: fs.ModeDevice | 0620}, nil
	}
	x := op("stat", f.name)
	if err := x.err(); err != nil {
		return nil, perr("stat", f.name, err)
	}
	done(x)
	return info(path.Base(f.name), f.n), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	x := op("truncate", f.name)
	if err := x.err(); err != nil {
		return perr("truncate", f.name, err)
	}
	f.n.resize(size)
	done(x)
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	x := op("chmod", f.name)
	if err := x.err(); err != nil {
		return perr("chmod", f.name, err)
	}
	f.n.Mode = f.n.Mode&fs.ModeType | mode.Perm()
	done(x)
	return nil
}

func (f *File) Chown(uid, gid int) error { return nil }
func (f *File) Fd() uintptr              { return 99 }
func (f *File) Chdir() error             { return Chdir(f.name) }

func (f *File) SetDeadline(t time.Time) error      { return nil }
func (f *File) SetReadDeadline(t time.Time) error  { return nil }
func (f *File) SetWriteDeadline(t time.Time) error { return nil }

func (f *File) names(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.n == nil || !f.n.Mode.IsDir() {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	x := op("readdir", f.name)
	if err := x.err(); err != nil {
		return nil, perr("readdirent", f.name, err)
	}
	if f.dir == nil {
		f.dir = order(f.n)
	}
	rest := f.dir[f.dirpos:]
	if n > 0 && len(rest) > n {
		rest = rest[:n]
	}
	f.dirpos += len(rest)
	done(x)
	if n > 0 && len(rest) == 0 {
		return nil, io.EOF
	}
	return append([]string(nil), rest...), nil
}

func (f *File) Readdirnames(n int) ([]string, error) { return f.names(n) }

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.names(n)
	var out []fs.FileInfo
	for _, k := range names {
		if c := f.n.Kids[k]; c != nil {
			out = append(out, info(k, c))
		}
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	is, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, i := range is {
		out = append(out, fs.FileInfoToDirEntry(i))
	}
	return out, err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ds, err := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.Mode.IsDir() {
		return nil, perr("read", name, syscall.EISDIR)
	}
	x := op("read", name)
	if err := x.err(); err != nil {
		return nil, perr("read", name, err)
	}
	b := append([]byte{}, f.n.Data...)
	done(x)
	return b, nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := Open(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func tempName(pattern string) string {
	ntemp++
	z := (Salt + uint64(ntemp)) * 0x9e3779b97f4a7c15
	z ^= z >> 31
	r := fmt.Sprintf("%d", uint32(z>>7))
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return pattern[:i] + r + pattern[i+1:]
	}
	return pattern + r
}

func TempDir() string {
	if d, ok := Getenv(Cur().Env, "TMPDIR"); ok && d != "" {
		return d
	}
	return "/tmp"
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		name := filepath.Join(dir, tempName(pattern))
		err := Mkdir(name, 0700)
		if err == nil || !os.IsExist(err) || i > 100 {
			if err != nil {
				return "", err
			}
			return name, nil
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		f, err := Open(filepath.Join(dir, tempName(pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err == nil || !os.IsExist(err) || i > 100 {
			return f, err
		}
	}
}

func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*Info)
	y, ok2 := b.(*Info)
	return ok && ok2 && x.N != nil && x.N == y.N
}

// Put creates a file with shared content, for the harness.
func Put(name string, data []byte, mode fs.FileMode) {
	dir := path.Dir(name)
	MkdirAll(dir, 0755)
	_, parent, base, _ := walk(name, false)
	if parent == nil {
		panic("put " + name)
	}
	n := newNode(mode.Perm())
	n.Data, n.ro = data, true
	used += int64(len(data))
	parent.Kids[base] = n
}

func Used() int64 { return used }

// Tree lists what is below name: path, relative, to a description of content.
func Tree(name string) map[string]string {
	out := map[string]string{}
	n, _, _, err := walk(name, false)
	if err != nil {
		return out
	}
	var rec func(n *Node, p string)
	rec = func(n *Node, p string) {
		switch {
		case n.Mode.IsDir():
			out[p+"/"] = "dir"
			for k, c := range n.Kids {
				rec(c, path.Join(p, k))
			}
		case n.Mode&fs.ModeSymlink != 0:
			out[p] = "link " + n.Link
		case n.Mode&fs.ModeType != 0:
			out[p] = "special " + n.Mode.String()
		default:
			out[p] = "file " + string(n.Data)
		}
	}
	rec(n, ".")
	return out
}

// Diff describes the first difference between two trees.
// DiffAll prints every difference Diff meets.
var DiffAll = os.Getenv("SIM_DIFF") != ""

func Diff(want, got map[string]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if DiffAll {
		for _, k := range ks {
			if a, ok := want[k]; ok {
				if b, ok := got[k]; !ok {
					println("missing", k)
				} else if a != b {
					println("differs", k)
				}
			} else {
				println("extra", k)
			}
		}
	}
	for _, k := range ks {
		a, ok := want[k]
		b, ok2 := got[k]
		switch {
		case !ok:
			return fmt.Sprintf("%s should not exist", k)
		case !ok2:
			return fmt.Sprintf("%s is missing", k)
		case a != b:
			return fmt.Sprintf("%s differs: want %s, got %s", k, short(a), short(b))
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", s[:50], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Special creates a device or pipe, for the harness.
func Special(name string, mode fs.FileMode) {
	MkdirAll(path.Dir(name), 0755)
	_, parent, base, _ := walk(name, false)
	parent.Kids[base] = newNode(mode)
}
