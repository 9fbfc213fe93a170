package main

import (
	"hash/fnv"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif.local/io/sys"
)

// A small git: repositories are real directories of the simulated file system,
// so that whatever interrupts a command leaves its trace in them.

type gitRepo struct {
	top, dir string // working tree, .git directory holding HEAD and index
	common   string // directory holding refs and objects
}

func findRepo(dir string) *gitRepo {
	for d := dir; ; d = path.Dir(d) {
		g := path.Join(d, ".git")
		fi, err := sys.Stat_(g)
		if err != nil && !os.IsNotExist(err) {
			panic(gitErr{err})
		}
		if err == nil {
			if !fi.IsDir() {
				b, err := sys.ReadFile(g)
				if err != nil {
					return nil
				}
				w := strings.TrimSpace(strings.TrimPrefix(string(b), "gitdir: "))
				if _, err := sys.Stat_(path.Join(w, "HEAD")); err == nil || !os.IsNotExist(err) {
					return &gitRepo{d, w, path.Dir(path.Dir(w))}
				}
				return nil
			}
			if _, err := sys.Stat_(path.Join(g, "HEAD")); err == nil || !os.IsNotExist(err) {
				return &gitRepo{d, g, g}
			}
		}
		if d == "/" || d == "." {
			return nil
		}
	}
}

// gitWrite replaces a file atomically.
func gitWrite(name string, b string) error {
	if err := sys.MkdirAll(path.Dir(name), 0755); err != nil {
		return err
	}
	lock := name + ".lock"
	f, err := sys.Open(lock, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	_, err = f.Write([]byte(b))
	if e := f.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = sys.Rename(lock, name)
	}
	if err != nil {
		sys.Remove(lock)
	}
	return err
}

func gitRead(name string) string {
	b, err := sys.ReadFile(name)
	if err != nil && !os.IsNotExist(err) {
		panic(gitErr{err})
	}
	return string(b)
}

type gitErr struct{ err error }

// git runs a git command.
func git(c *sys.Call) (code int) {
	defer func() {
		if e := recover(); e != nil {
			g, ok := e.(gitErr)
			if !ok {
				panic(e)
			}
			c.Errf("fatal: %v\n", g.err)
			code = 128
		}
	}()
	return gitMain(c)
}

func (g *gitRepo) branch() string {
	h := strings.TrimSpace(gitRead(g.dir + "/HEAD"))
	if strings.HasPrefix(h, "ref: refs/heads/") {
		return h[len("ref: refs/heads/"):]
	}
	return ""
}

// head is the commit checked out.
func (g *gitRepo) head() string {
	h := strings.TrimSpace(gitRead(g.dir + "/HEAD"))
	if strings.HasPrefix(h, "ref: ") {
		return strings.TrimSpace(gitRead(g.common + "/" + h[5:]))
	}
	return h
}

// commit returns the fields of a commit.
func (g *gitRepo) commit(id string) (parent, tree, msg string, ok bool) {
	if id == "" {
		return "", "", "", false
	}
	b := gitRead(g.common + "/objects/" + id)
	l := strings.SplitN(b, "\n", 3)
	if len(l) != 3 {
		return "", "", "", false
	}
	return l[0], l[1], l[2], true
}

func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 16)
}

func (g *gitRepo) object(s string) (string, error) {
	id := digest(s)
	name := g.common + "/objects/" + id
	if _, err := sys.Lstat(name); err == nil || !os.IsNotExist(err) {
		return id, err
	}
	return id, gitWrite(name, s)
}

// ignored reads the patterns of .gitignore and info/exclude.
func (g *gitRepo) ignored() func(rel string) bool {
	var pats []string
	for _, f := range []string{g.top + "/.gitignore", g.common + "/info/exclude"} {
		for _, l := range strings.Split(gitRead(f), "\n") {
			if l = strings.TrimSpace(l); l != "" && l[0] != '#' {
				pats = append(pats, l)
			}
		}
	}
	return func(rel string) bool {
		for _, p := range pats {
			p = strings.TrimSuffix(p, "/")
			if strings.Contains(p, "/") {
				p = strings.TrimPrefix(p, "/")
				if rel == p || strings.HasPrefix(rel, p+"/") {
					return true
				}
				continue
			}
			for _, part := range strings.Split(rel, "/") {
				if ok, _ := path.Match(p, part); ok {
					return true
				}
			}
		}
		return false
	}
}

// files lists the working tree: name to "file content" or "link target".
func (g *gitRepo) files() (map[string]string, error) {
	m := map[string]string{}
	ign := g.ignored()
	var walk func(rel string) error
	walk = func(rel string) error {
		es, err := sys.ReadDir(path.Join(g.top, rel))
		if err != nil {
			return err
		}
		for _, e := range es {
			r := path.Join(rel, e.Name())
			if e.Name() == ".git" || ign(r) {
				continue
			}
			switch {
			case e.Type()&fs.ModeSymlink != 0:
				t, err := sys.Readlink(path.Join(g.top, r))
				if err != nil {
					return err
				}
				m[r] = "link " + t
			case e.IsDir():
				if err := walk(r); err != nil {
					return err
				}
			default:
				b, err := sys.ReadFile(path.Join(g.top, r))
				if err != nil {
					return err
				}
				m[r] = "file " + string(b)
			}
		}
		return nil
	}
	err := walk("")
	return m, err
}

func (g *gitRepo) index() map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(gitRead(g.dir+"/index"), "\n") {
		if f := strings.SplitN(l, " ", 2); len(f) == 2 {
			m[f[1]] = f[0]
		}
	}
	return m
}

func listing(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, v+" "+k)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// treeOf is what a commit holds.
func (g *gitRepo) treeOf(id string) (map[string]string, bool) {
	_, tree, _, ok := g.commit(id)
	if !ok {
		return nil, false
	}
	m := map[string]string{}
	for _, l := range strings.Split(gitRead(g.common+"/objects/"+tree), "\n") {
		if f := strings.SplitN(l, " ", 2); len(f) == 2 {
			b, err := sys.ReadFile(g.common + "/objects/" + f[0])
			if err != nil && !os.IsNotExist(err) {
				panic(gitErr{err})
			}
			if err != nil {
				return nil, false
			}
			m[f[1]] = string(b)
		}
	}
	return m, true
}

func gitMain(c *sys.Call) int {
	dir := c.Dir
	if dir == "" {
		dir = sys.Cur().Cwd
	}
	dir = c.File(dir)
	conf := map[string]string{}
	a := c.Args[1:]
	for len(a) > 1 && strings.HasPrefix(a[0], "-") {
		switch a[0] {
		case "-c":
			kv := strings.SplitN(a[1], "=", 2)
			conf[kv[0]] = a[1]
			a = a[2:]
		case "-C":
			if strings.HasPrefix(a[1], "/") {
				dir = a[1]
			} else {
				dir = path.Join(dir, a[1])
			}
			a = a[2:]
		default:
			a = a[1:]
		}
	}
	fatal := func(s string) int {
		c.Errf("fatal: %s\n", s)
		return 128
	}
	bad := func(err error) int { return fatal(err.Error()) }
	if len(a) == 0 {
		return 1
	}
	sub := a[0]
	var flags, rest []string
	opt := map[string]string{}
	for i := 1; i < len(a); i++ {
		switch {
		case a[i] == "--":
		case (a[i] == "-m" || a[i] == "--message" || a[i] == "-qm" || a[i] == "-am") && sub == "commit" || a[i] == "-b" || a[i] == "--initial-branch":
			if i+1 < len(a) {
				opt[a[i]] = a[i+1]
				if sub == "commit" {
					opt["-m"] = a[i+1]
				} else {
					opt["-b"] = a[i+1]
				}
				i++
			}
		case strings.HasPrefix(a[i], "-"):
			flags = append(flags, a[i])
			if j := strings.Index(a[i], "="); j > 0 {
				opt[a[i][:j]] = a[i][j+1:]
			}
		default:
			rest = append(rest, a[i])
		}
	}
	has := func(f string) bool {
		for _, x := range flags {
			if x == f {
				return true
			}
		}
		return false
	}
	fail := func(n int) bool { return c.Fail != nil && c.Fail.Arg%4 == n }
	failed := func() int {
		if c.Fail.Arg%8 >= 4 {
			return -9
		}
		return 1 + c.Fail.Arg%100
	}
	if fail(0) {
		return failed()
	}
	if sub == "init" {
		if len(rest) > 0 {
			dir = c.File(rest[0])
		}
		g := path.Join(dir, ".git")
		if err := sys.MkdirAll(g+"/refs/heads", 0755); err != nil {
			return bad(err)
		}
		if err := sys.MkdirAll(g+"/objects", 0755); err != nil {
			return bad(err)
		}
		if err := gitWrite(g+"/config", "[core]\n\tfilemode = true\n"); err != nil {
			return bad(err)
		}
		if fail(1) {
			return failed()
		}
		if _, err := sys.Stat_(g + "/HEAD"); err != nil && !os.IsNotExist(err) {
			return bad(err)
		} else if err != nil {
			b := opt["-b"]
			if b == "" {
				b = "master"
			}
			if err := gitWrite(g+"/HEAD", "ref: refs/heads/"+b+"\n"); err != nil {
				return bad(err)
			}
		}
		return 0
	}
	g := findRepo(dir)
	if g == nil {
		return fatal("not a git repository (or any of the parent directories): .git")
	}
	if fail(1) {
		return failed()
	}
	end := func(err error) int {
		if err != nil {
			return bad(err)
		}
		if c.Fail != nil {
			return failed()
		}
		return 0
	}
	switch sub {
	case "add":
		m, err := g.files()
		if err != nil {
			return bad(err)
		}
		var ex []string
		for _, p := range rest {
			for _, pre := range []string{":(exclude)", ":!", ":^", ":(exclude,top)"} {
				if strings.HasPrefix(p, pre) {
					ex = append(ex, strings.TrimPrefix(strings.TrimPrefix(p, pre), "/"))
				}
			}
		}
		idx := map[string]string{}
	next:
		for _, k := range sorted(m) {
			for _, e := range ex {
				if k == e || strings.HasPrefix(k, e+"/") {
					continue next
				}
			}
			if idx[k], err = g.object(m[k]); err != nil {
				return bad(err)
			}
			if fail(2) && len(idx) > 3 {
				return failed()
			}
		}
		return end(gitWrite(g.dir+"/index", listing(idx)))
	case "rm":
		idx := g.index()
		for _, n := range rest {
			delete(idx, n)
			if !has("--cached") {
				sys.Remove(path.Join(g.top, n))
			}
		}
		return end(gitWrite(g.dir+"/index", listing(idx)))
	case "commit":
		if conf["user.name"] == "" || conf["user.email"] == "" {
			return fatal("unable to auto-detect email address")
		}
		idx := listing(g.index())
		head := g.head()
		_, old, _, _ := g.commit(head)
		tree, err := g.object(idx)
		if err != nil {
			return bad(err)
		}
		if (tree == old || idx == "") && !has("--allow-empty") {
			c.Out("nothing to commit, working tree clean\n")
			return 1
		}
		if has("--amend") {
			head, _, _, _ = g.commit(head)
		}
		id, err := g.object(head + "\n" + tree + "\n" + opt["-m"])
		if err != nil {
			return bad(err)
		}
		if fail(2) {
			return failed()
		}
		if b := g.branch(); b != "" {
			return end(gitWrite(g.common+"/refs/heads/"+b, id+"\n"))
		}
		return end(gitWrite(g.dir+"/HEAD", id+"\n"))
	case "branch":
		switch {
		case has("--show-current"):
			if b := g.branch(); b != "" {
				c.Out("%s\n", b)
			}
			return end(nil)
		case has("-m") || has("-M") || has("--move"):
			if len(rest) == 0 {
				return 1
			}
			id := g.head()
			old, b := g.branch(), rest[len(rest)-1]
			if old == b {
				return end(nil)
			}
			if id != "" {
				if err := gitWrite(g.common+"/refs/heads/"+b, id+"\n"); err != nil {
					return bad(err)
				}
			}
			if err := gitWrite(g.dir+"/HEAD", "ref: refs/heads/"+b+"\n"); err != nil {
				return bad(err)
			}
			if fail(2) {
				return failed()
			}
			if id != "" {
				if err := sys.Remove(g.common + "/refs/heads/" + old); err != nil {
					return bad(err)
				}
			}
			return end(nil)
		}
		return end(nil)
	case "checkout", "switch":
		b := opt["-b"]
		if b == "" && len(rest) > 0 {
			b = rest[0]
		}
		if id := g.head(); id != "" {
			if err := gitWrite(g.common+"/refs/heads/"+b, id+"\n"); err != nil {
				return bad(err)
			}
		}
		return end(gitWrite(g.dir+"/HEAD", "ref: refs/heads/"+b+"\n"))
	case "symbolic-ref":
		if b := g.branch(); b != "" {
			if !has("--short") {
				b = "refs/heads/" + b
			}
			c.Out("%s\n", b)
			return end(nil)
		}
		return fatal("ref HEAD is not a symbolic ref")
	case "config":
		if len(rest) == 2 {
			return end(gitWrite(g.common+"/config", gitRead(g.common+"/config")+rest[0]+" = "+rest[1]+"\n"))
		}
		return 1
	case "rev-list":
		id := g.head()
		if id == "" {
			return fatal("ambiguous argument 'HEAD': unknown revision or path not in the working tree.")
		}
		var l []string
		for id != "" {
			l = append(l, id)
			p, _, _, ok := g.commit(id)
			if !ok {
				return fatal("bad object " + id)
			}
			id = p
		}
		if has("--count") {
			c.Out("%d\n", len(l))
		} else {
			c.Out("%s\n", strings.Join(l, "\n"))
		}
		return end(nil)
	case "log", "show":
		_, _, msg, ok := g.commit(g.head())
		if !ok {
			return fatal("your current branch '" + g.branch() + "' does not have any commits yet")
		}
		c.Out("%s\n", msg)
		return end(nil)
	case "rev-parse":
		switch {
		case has("--show-toplevel"):
			c.Out("%s\n", g.top)
		case has("--git-dir") || has("--absolute-git-dir"):
			c.Out("%s\n", g.dir)
		case has("--is-inside-work-tree"):
			c.Out("true\n")
		case has("--abbrev-ref"):
			b := g.branch()
			if b == "" {
				b = "HEAD"
			}
			c.Out("%s\n", b)
		default:
			if g.head() == "" {
				return fatal("ambiguous argument 'HEAD'")
			}
			c.Out("%s\n", g.head())
		}
		return end(nil)
	case "status":
		m, err := g.files()
		if err != nil {
			return bad(err)
		}
		h, _ := g.treeOf(g.head())
		for _, k := range sorted(m) {
			if h[k] != m[k] {
				c.Out(" M %s\n", k)
			}
		}
		for _, k := range sorted(h) {
			if _, ok := m[k]; !ok {
				c.Out(" D %s\n", k)
			}
		}
		return end(nil)
	case "worktree":
		if len(rest) == 0 {
			return 1
		}
		switch rest[0] {
		case "add":
			dst := c.File(rest[1])
			m, ok := g.treeOf(g.head())
			if !ok {
				return fatal("invalid reference: HEAD")
			}
			w := g.common + "/worktrees/" + path.Base(dst)
			if err := sys.MkdirAll(dst, 0755); err != nil {
				return bad(err)
			}
			if err := gitWrite(w+"/HEAD", g.head()+"\n"); err != nil {
				return bad(err)
			}
			if err := gitWrite(dst+"/.git", "gitdir: "+w+"\n"); err != nil {
				return bad(err)
			}
			idx := map[string]string{}
			for _, k := range sorted(m) {
				name := path.Join(dst, k)
				err := sys.MkdirAll(path.Dir(name), 0755)
				if err == nil {
					if strings.HasPrefix(m[k], "link ") {
						err = sys.Symlink(m[k][5:], name)
					} else {
						err = sys.WriteFile(name, []byte(m[k][5:]), 0644)
					}
				}
				if err != nil {
					return bad(err)
				}
				idx[k] = digest(m[k])
			}
			return end(gitWrite(w+"/index", listing(idx)))
		case "remove":
			dst := c.File(rest[1])
			if err := sys.RemoveAll(dst); err != nil {
				return bad(err)
			}
			return end(sys.RemoveAll(g.common + "/worktrees/" + path.Base(dst)))
		case "prune":
			return end(nil)
		}
		return 1
	case "update-index", "gc":
		return end(nil)
	}
	c.Errf("git: '%s' is not a git command.\n", sub)
	return 1
}
