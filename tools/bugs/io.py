F = ["demo_io.sh"]
BUGS = {}


def bug(i, prop, edits, pkg, test, needs, breaks):
    BUGS[i] = {"property": prop, "files": ["../../rtsim/gen/collate_tables.go.txt"] if pkg in ("cmd/xgo", "cmd/xgo/test-explorer", "cmd/xgo/coverage") else [], "edits": edits, "test": "// %s\n" % pkg + test.lstrip(),
               "demo": open(__file__.rsplit("/", 1)[0] + "/demo_io.sh").read(), "needs": needs, "breaks": breaks}


bug("s01-one-error-slot", "S01", [("support/filecopy/copy.go", "	errCh := make(chan error, numGo)\n", "	errCh := make(chan error, 1)\n"),
                                  ("support/filecopy/copy.go", "	// enough errCh to not block any goroutine\n", "	// the first error is what is reported\n")],
    "support/filecopy", '''
package filecopy

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	src, dst := filepath.Join(d, "src"), filepath.Join(d, "dst")
	for i := 0; i < 40; i++ {
		os.MkdirAll(src, 0755)
		os.WriteFile(filepath.Join(src, fmt.Sprintf("f%02d", i)), []byte("x"), 0644)
		// files cannot be written: there are directories of that name
		os.MkdirAll(filepath.Join(dst, fmt.Sprintf("f%02d", i)), 0755)
	}
	done := make(chan error, 1)
	go func() { done <- NewOptions().Concurrent(8).Copy(src, dst) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the copy does not end")
	}
}
''', "several workers of a concurrent copy failing on different files after the walk has sent everything",
    "two failing workers: the second one blocks for good on the full error channel, and the copy never ends")

bug("s02-half-copied-toolchain", "S02", [("cmd/xgo/patch.go", "	if dstGoCopied && statNoErr(fullSyncRecordFile) {", "	if dstGoCopied || statNoErr(fullSyncRecordFile) {")],
    "cmd/xgo", '''
package main

import (
	"os"
	"path/filepath"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	put := func(f string) {
		f = filepath.Join(d, f)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := os.WriteFile(f, []byte("x"), 0755); err != nil {
			t.Fatal(err)
		}
	}
	for _, f := range []string{"bin/go", "pkg/tool/linux_amd64/compile", "src/runtime/proc.go"} {
		put("go/" + f)
	}
	// an earlier copy was killed after bin/go
	put("i/go1.20/bin/go")
	err := syncGoroot(filepath.Join(d, "go"), filepath.Join(d, "i/go1.20"), filepath.Join(d, "i/full-sync-record.txt"))
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{"bin/go", "pkg/tool/linux_amd64/compile", "src/runtime/proc.go"} {
		if _, err := os.Stat(filepath.Join(d, "i/go1.20", f)); err != nil {
			t.Errorf("after a successful run: %v", err)
		}
	}
}
''', "a first preparation killed between copying bin/go and the end of the copy, then another run",
    "the rest of a killed copy of the toolchain is taken for a complete one, only src is copied again")

bug("s04-keep-partial-archive", "S04", [("support/downloadgo/download.go", '''	if err := getFile(ctx, downloadLink, downloadFile); err != nil {
		return "", err
	}
''', '''	if info, err := os.Stat(downloadFile); err != nil || info.Size() == 0 {
		if err := getFile(ctx, downloadLink, downloadFile); err != nil {
			return "", err
		}
	}
''')], "support/downloadgo", '''
package downloadgo

import (
	"context"
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	n := 0
	opts := Options{Dir: t.TempDir(), GOOS: "linux", GOARCH: "amd64"}
	opts.ListVersions = func(ctx context.Context) ([]string, error) { return []string{"1.20.1"}, nil }
	opts.GetFile = func(ctx context.Context, url string, file string) error {
		n++
		if n == 1 {
			ioutil.WriteFile(file, []byte("par"), 0644)
			return errors.New("connection reset")
		}
		return ioutil.WriteFile(file, []byte("partial"), 0644)
	}
	opts.Extract = func(file string, dir string) error {
		b, _ := ioutil.ReadFile(file)
		if string(b) != "partial" {
			return errors.New("bad archive")
		}
		return os.MkdirAll(filepath.Join(dir, "go", "bin"), 0755)
	}
	if _, err := Download(context.Background(), "go1.20.1", opts); err == nil {
		t.Fatal("the first attempt succeeded")
	}
	if _, err := Download(context.Background(), "go1.20.1", opts); err != nil {
		t.Fatalf("the second attempt fails: %v", err)
	}
}
''', "a download that was interrupted after some bytes, then another attempt",
    "the part of the archive an interrupted download left is used by every later attempt, which all fail")

bug("s05-unmarked-before-commit", "S05", [("support/gitgoroot/gitgoroot.go", '''	if err := os.Remove(filepath.Join(goroot, incompleteMarker)); err != nil {
		return "", fmt.Errorf("remove incomplete marker: %w", err)
	}

	return goroot, nil
''', '''	return goroot, nil
'''), ("support/gitgoroot/gitgoroot.go", '''	// the marker is removed afterwards, it is not part of the checkout
''', '''	// the marker is not part of the checkout
	if err := os.Remove(filepath.Join(goroot, incompleteMarker)); err != nil {
		return fmt.Errorf("remove incomplete marker: %w", err)
	}

''')], "support/gitgoroot", r"""
package gitgoroot

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := os.Getenv("VERIF_DEMO")
	if d != "" {
		if _, err := EnsureGitGoroot(filepath.Join(d, "base"), "go1.20.1", "/none"); err != nil {
			t.Fatal(err)
		}
		return
	}
	d = t.TempDir()
	bin := filepath.Join(d, "bin")
	os.MkdirAll(bin, 0755)
	git, err := exec.LookPath("git")
	if err != nil {
		t.Skip("no git")
	}
	put := func(name, s string) {
		if err := ioutil.WriteFile(filepath.Join(bin, name), []byte("#!/bin/sh\n"+s), 0755); err != nil {
			t.Fatal(err)
		}
	}
	put("curl", `while [ $# -gt 1 ]; do if [ "$1" = -o ]; then echo x > "$2"; fi; shift; done`)
	put("tar", `while [ $# -gt 1 ]; do if [ "$1" = -C ]; then to="$2"; fi; shift; done
mkdir -p "$to/go/src"; printf '#!/bin/sh\nmkdir -p ../bin; echo go > ../bin/go\n' > "$to/go/src/make.bash"; chmod +x "$to/go/src/make.bash"; echo 1 > "$to/go/VERSION"`)
	// the first attempt is killed when it commits
	put("git", `case "$*" in *" commit "*) if [ ! -e "`+d+`/killed" ]; then touch "`+d+`/killed"; kill -9 $PPID; exit 1; fi;; esac
exec `+git+` "$@"`)
	run := func() error {
		c := exec.Command(os.Args[0], "-test.run", "TestVerifDemo")
		c.Env = append(os.Environ(), "VERIF_DEMO="+d, "PATH="+bin+":/usr/bin:/bin")
		out, err := c.CombinedOutput()
		t.Logf("%s", out)
		return err
	}
	if run() == nil {
		t.Fatal("the first attempt was not killed")
	}
	if err := run(); err != nil {
		t.Fatalf("the second attempt fails: %v", err)
	}
}
""", "an attempt killed between removing the marker and the commit", "the unfinished checkout has no marker any more: every later attempt refuses it instead of building it again")

bug("s06-partial-content", "S06", [("support/httputil/download.go", "	if resp.StatusCode != 200 {", "	if resp.StatusCode < 200 || resp.StatusCode >= 300 {")],
    "support/httputil", '''
package httputil

import (
	"context"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(206)
		w.Write([]byte("part"))
	}))
	defer s.Close()
	if err := DownloadFile(context.Background(), s.URL, filepath.Join(t.TempDir(), "f")); err == nil {
		t.Fatal("a part of the file was accepted")
	}
}
''', "a server or proxy that answers with another 2xx status than 200, such as 206 or 204",
    "a bad status is reported as success and leaves a file without the content")

bug("s07-timeout-drops", "S07", [("support/session/session.go", "		case <-timeoutCh:\n			return events\n", "		case <-timeoutCh:\n			return nil\n")],
    "support/session", '''
package session

import (
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		_, s, err := NewSessionManager().Start()
		if err != nil {
			t.Fatal(err)
		}
		s.SendEvents(1, 2, 3, 4)
		n := 0
		for j := 0; j < 100 && n < 4; j++ {
			n += len(s.(*sessionImpl).poll(time.Nanosecond, time.Nanosecond))
		}
		if n != 4 {
			t.Fatalf("%d of 4 events arrived", n)
		}
	}
}
''', "an event that arrives just before the time limit of the poll, so that the limit passes while events are collected",
    "events collected when the time limit passes are dropped")

bug("s08-one-signal", "S08", [("support/netutil/netutil.go", '''	for {
		addr := net.JoinHostPort(host, strconv.Itoa(port))
		serving, err := IsTCPAddrServing(addr, 20*time.Millisecond)
		if err != nil {
			return err
		}
''', '''	portErr := make(chan struct{})
	for {
		addr := net.JoinHostPort(host, strconv.Itoa(port))
		serving, err := IsTCPAddrServing(addr, 20*time.Millisecond)
		if err != nil {
			return err
		}
'''), ("support/netutil/netutil.go", "		portErr := make(chan struct{})\n", "")],
    "support/netutil", '''
package netutil

import (
	"syscall"
	"testing"
	"time"
)

func TestVerifDemo(t *testing.T) {
	n := 0
	watched := make(chan int, 10)
	err := ServePort("127.0.0.1", 46000, true, 50*time.Millisecond, func(port int) { watched <- port }, func(port int) error {
		n++
		if n == 1 {
			return syscall.EADDRINUSE
		}
		time.Sleep(300 * time.Millisecond)
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	if len(watched) != 1 {
		t.Fatalf("announced %d times", len(watched))
	}
}
''', "a port that becomes busy between the check and binding it", "after one bind failed with address in use, the server on the next port is not announced, and its end crashes the program")

bug("s09-shadowed", "S09", [("support/netutil/http.go", '''			jsonData, err = json.Marshal(respData)
''', '''			data, err := json.Marshal(respData)
			if err == nil {
				jsonData = data
			}
''')], "support/netutil", '''
package netutil

import (
	"context"
	"math"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	w := httptest.NewRecorder()
	HandleJSON(w, httptest.NewRequest("GET", "/", nil), func(ctx context.Context, r *http.Request) (interface{}, error) {
		return map[string]float64{"a": math.NaN()}, nil
	})
	if w.Code < 400 {
		t.Fatalf("status %d, body %q", w.Code, w.Body.String())
	}
}
''', "a handler whose result has no JSON encoding", "the client gets a success with an empty body for a result that could not be encoded")

bug("s10-inherits-anyway", "S10", [("support/cmd/cmd.go", '''	if len(env) > 0 {
		if inheritEnv {
			execCmd.Env = os.Environ()
		}
		execCmd.Env = append(execCmd.Env, env...)
	} else if !inheritEnv {
		// a placeholder to prohibit env
		execCmd.Env = []string{}
	}
''', '''	if inheritEnv {
		execCmd.Env = os.Environ()
	}
	execCmd.Env = append(execCmd.Env, env...)
''')], "support/cmd", '''
package cmd

import (
	"os"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	os.Setenv("VERIF_DEMO", "1")
	out, err := New().NoInheritEnv().Output("/usr/bin/env")
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(out, "VERIF_DEMO") {
		t.Fatal("the command sees the environment of its caller")
	}
}
''', "a command run with NoInheritEnv and without variables of its own", "the command gets the caller's environment although that was excluded")

bug("s11-unreadable-is-empty", "S11", [("support/fileutil/update.go", '''		if !os.IsNotExist(readErr) {
			return readErr
''', '''		if os.IsPermission(readErr) {
			return readErr
''')], "support/fileutil", r'''
package fileutil

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"syscall"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	file := filepath.Join(d, "f")
	if err := ioutil.WriteFile(file, []byte("content"), 0644); err != nil {
		t.Fatal(err)
	}
	// no descriptor is free when the file is read
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 64, Max: 64})
	var open []*os.File
	for {
		f, err := os.Open(d)
		if err != nil {
			break
		}
		open = append(open, f)
	}
	free := func() {
		for _, f := range open {
			f.Close()
		}
		open = nil
	}
	err := UpdateFile(file, func(content []byte) (bool, []byte, error) {
		free()
		return true, append(content, " and more"...), nil
	})
	free()
	b, _ := ioutil.ReadFile(file)
	if string(b) != "content" && string(b) != "content and more" {
		t.Fatalf("the file holds %q, error %v", b, err)
	}
}
''', "a read of the file that fails with another error than a missing permission, such as EIO or EMFILE, while writing works", "the content is taken for empty and lost")

S13_DEMO = r'''
// cmd/xgo/test-explorer
package test_explorer

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/xhd2015/xgo/support/session"
)

// run runs the tests of a directory with a go command that prints lines,
// and returns the last status of each path
func run13(t *testing.T, files map[string]string, lines []string) map[string]string {
	d := t.TempDir()
	dir := filepath.Join(d, "proj")
	files["go.mod"] = "module example.com/proj\n"
	for n, s := range files {
		f := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(f), 0755)
		ioutil.WriteFile(f, []byte(s), 0644)
	}
	ioutil.WriteFile(filepath.Join(d, "out"), []byte(strings.Join(lines, "\n")+"\n"), 0644)
	script := filepath.Join(d, "go.sh")
	ioutil.WriteFile(script, []byte("#!/bin/sh\ncat "+filepath.Join(d, "out")+"\n"), 0755)
	item, err := scanTests(dir, nil, true, nil)
	if err != nil {
		t.Fatal(err)
	}
	_, ses, err := session.NewSessionManager().Start()
	if err != nil {
		t.Fatal(err)
	}
	c := &runSession{dir: dir, absDir: dir, goCmd: script, pathPrefix: []string{"proj"}, item: item, path: []string{"proj"}, session: ses}
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	status := map[string]string{}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		events, err := ses.PollEvents()
		if err != nil {
			t.Fatal(err)
		}
		for _, e := range convTestingEvents(events) {
			if e.Event == Event_TestEnd {
				return status
			}
			if e.Status != "" {
				status[strings.Join(e.Path, "/")] = string(e.Status)
			}
		}
	}
	t.Fatal("the run does not end")
	return nil
}
'''
bug("s13-nested-name", "S13", [("cmd/xgo/test-explorer/run_event.go", 'idx := strings.Index(testEvent.Test, "/")', 'idx := strings.LastIndex(testEvent.Test, "/")')],
    "cmd/xgo/test-explorer", S13_DEMO.split("\n", 2)[2] + r'''
func TestVerifDemo(t *testing.T) {
	s := run13(t, map[string]string{"a_test.go": "package a\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"}, []string{
		`{"Action":"run","Package":"example.com/proj","Test":"TestX"}`,
		`{"Action":"run","Package":"example.com/proj","Test":"TestX/a"}`,
		`{"Action":"run","Package":"example.com/proj","Test":"TestX/a/b"}`,
		`{"Action":"skip","Package":"example.com/proj","Test":"TestX/a/b"}`,
		`{"Action":"pass","Package":"example.com/proj","Test":"TestX/a"}`,
		`{"Action":"pass","Package":"example.com/proj","Test":"TestX"}`,
		`{"Action":"pass","Package":"example.com/proj"}`,
	})
	if s["proj/a_test.go/TestX/a/b"] != "skip" {
		t.Fatalf("the statuses are %v", s)
	}
}
''', "subtests of subtests", "the result of a test below a subtest is not reported at its place")
bug("s13-package-cache", "S13", [("cmd/xgo/test-explorer/run_session.go", 'v, ok := c.pkgTests.Load(subPkgPath)', 'v, ok := c.pkgTests.Load(filepath.Base(subPkgPath))'),
    ("cmd/xgo/test-explorer/run_session.go", 'c.pkgTests.Store(subPkgPath, results)', 'c.pkgTests.Store(filepath.Base(subPkgPath), results)')],
    "cmd/xgo/test-explorer", S13_DEMO.split("\n", 2)[2] + r'''
func TestVerifDemo(t *testing.T) {
	src := "package a\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"
	s := run13(t, map[string]string{"p/a/a_test.go": src, "q/a/a_test.go": src}, []string{
		`{"Action":"run","Package":"example.com/proj/p/a","Test":"TestX"}`,
		`{"Action":"pass","Package":"example.com/proj/p/a","Test":"TestX"}`,
		`{"Action":"pass","Package":"example.com/proj/p/a"}`,
		`{"Action":"run","Package":"example.com/proj/q/a","Test":"TestX"}`,
		`{"Action":"fail","Package":"example.com/proj/q/a","Test":"TestX"}`,
		`{"Action":"fail","Package":"example.com/proj/q/a"}`,
	})
	if s["proj/p/a/a_test.go/TestX"] != "success" || s["proj/q/a/a_test.go/TestX"] != "fail" {
		t.Fatalf("the statuses are %v", s)
	}
}
''', "two packages in directories of the same name that have a test of the same name, in one run", "the results of one package's tests are reported for the other package")

bug("s14-same-size-kept", "S14", [("instrument/overlay/overlay.go", '''			err = os.WriteFile(writeFile, []byte(content), 0644)
			if err != nil {
				return nil, err
			}
''', '''			// what an earlier run has generated needs no writing
			info, statErr := os.Stat(writeFile)
			if statErr != nil || info.Size() != int64(len(content)) {
				err = os.WriteFile(writeFile, []byte(content), 0644)
				if err != nil {
					return nil, err
				}
			}
''')], "instrument/overlay", r'''
package overlay

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	src := AbsFile(filepath.Join(d, "a.go"))
	for _, s := range []string{"package a // 1", "package a // 2"} {
		fs := MakeOverlay()
		fs.OverrideContent(src, s)
		o, err := fs.MakeGoOverlay(filepath.Join(d, "out"), Options{})
		if err != nil {
			t.Fatal(err)
		}
		for _, to := range o.Replace {
			b, err := os.ReadFile(string(to))
			if err != nil || !strings.HasSuffix(string(b), s) {
				t.Fatalf("what is built is %s, want %s: %v", b, s, err)
			}
		}
	}
}
''', "a second run after an edit that keeps the length of what is generated for a file", "the second run builds the file as it was at the first run")
bug("s14-overlay-of-user-wins", "S14", [("instrument/overlay/io.go", '''			// A generated mapping is xgo's instrumented version of the
''', '''			if _, ok := combined[source]; ok && filepath.Dir(string(combined[source])) != filepath.Dir(string(source)) {
				continue
			}
			// A generated mapping is xgo's instrumented version of the
''')], "instrument/overlay", r'''
package overlay

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	src, own := filepath.Join(d, "p", "a.go"), filepath.Join(d, "q", "a.go")
	for _, f := range []string{src, own} {
		os.MkdirAll(filepath.Dir(f), 0755)
		os.WriteFile(f, []byte("package a // of the user"), 0644)
	}
	opts := PathOptions{BaseDir: d}
	caller := ParseGoOverlay(&GoOverlay{Replace: Replace{AbsFile(src): AbsFile(own)}}, opts)
	fs := MakeOverlay()
	caller.ApplyFileRedirects(fs)
	fs.OverrideContent(AbsFile(src), "package a // instrumented")
	gen, err := fs.MakeGoOverlay(filepath.Join(d, "out"), Options{})
	if err != nil {
		t.Fatal(err)
	}
	o, err := ComposeGoOverlays(caller, gen, opts)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for from, to := range o.Replace {
		if filepath.Base(filepath.Dir(string(from))) != "p" {
			continue
		}
		n++
		b, err := os.ReadFile(string(to))
		if err != nil || !strings.Contains(string(b), "instrumented") {
			t.Fatalf("what is built is %s: %v", b, err)
		}
	}
	if n != 1 {
		t.Fatalf("the overlay is %v", o.Replace)
	}
}
''', "-overlay with a file of another directory, for a file that is instrumented", "the functions of the file cannot be mocked or traced")
bug("s14-second-tests", "S14", [("instrument/load/load.go", '''			for _, file := range pkg.GoPackage.XTestGoFiles {
''', '''			// the tests outside of the package, if that has no other ones
			for i := 0; i < len(pkg.GoPackage.XTestGoFiles) && len(pkg.GoPackage.TestGoFiles) == 0; i++ {
				file := pkg.GoPackage.XTestGoFiles[i]
''')], "instrument/load", r'''
package load

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	for n, s := range map[string]string{
		"go.mod":    "module example.com/m\n\ngo 1.20\n",
		"a.go":      "package a\n",
		"a_test.go": "package a\n",
		"x_test.go": "package a_test\n",
	} {
		os.WriteFile(filepath.Join(d, n), []byte(s), 0644)
	}
	pkgs, err := LoadPackages([]string{"."}, LoadOptions{Dir: d, IncludeTest: true})
	if err != nil || len(pkgs.Packages) != 1 {
		t.Fatal(pkgs, err)
	}
	var names []string
	for _, f := range pkgs.Packages[0].Files {
		names = append(names, filepath.Base(f.AbsPath))
	}
	sort.Strings(names)
	if s := strings.Join(names, " "); s != "a.go a_test.go x_test.go" {
		t.Fatalf("loaded are %s", s)
	}
}
''', "a package that has tests both inside and outside of it", "the functions and the mocks of variables in the tests outside of the package are not instrumented")
bug("s14-vendor-batch", "S14", [("cmd/xgo/trace.go", '''	if remain > 0 {
		bcap++
	}
''', '''	if remain >= limit/2 {
		bcap++
	}
''')], "cmd/xgo", r'''
package main

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for n := 0; n < 250; n++ {
		var args []string
		for i := 0; i < n; i++ {
			args = append(args, fmt.Sprint(i))
		}
		var all []string
		for _, g := range splitArgsBatch(args, 100) {
			if len(g) > 100 {
				t.Fatalf("%d arguments: one command has %d", n, len(g))
			}
			all = append(all, g...)
		}
		if strings.Join(all, " ") != strings.Join(args, " ") {
			t.Fatalf("%d arguments become %v", n, all)
		}
	}
}
''', "more than 50 vendored modules, with --strace or a runtime that is not vendored", "modules that are vendored are not found")

bug("s15-parsed-once", "S15", [("cmd/xgo/coverage/main.go", '''	covs := make([][]*coverage.CovLine, 0, len(files))
''', '''	covs := make([][]*coverage.CovLine, 0, len(files))
	parsed := make(map[string][]*coverage.CovLine, len(files))
'''), ("cmd/xgo/coverage/main.go", '''	for _, file := range files {
		content, err''', '''	for _, file := range files {
		if cov, ok := parsed[file]; ok {
			covs = append(covs, cov)
			continue
		}
		content, err'''), ("cmd/xgo/coverage/main.go", '''		_, cov := coverage.Parse(string(content))
''', '''		_, cov := coverage.Parse(string(content))
		parsed[file] = cov
''')], "cmd/xgo/coverage", '''
package coverage

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	d := t.TempDir()
	in, out := filepath.Join(d, "a.out"), filepath.Join(d, "all.out")
	os.WriteFile(in, []byte("mode: set\\nm/a.go:1.1,2.2 1 1\\n"), 0644)
	if err := mergeCover([]string{in, in, in}, out, nil); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(out)
	if s := strings.TrimSpace(string(b)); s != "mode: count\\nm/a.go:1.1,2.2 1 3" {
		t.Fatalf("merged three times is %s", s)
	}
}
''', "the same profile named three times, or twice with a block that occurs twice in it", "counts of the merged profile are wrong")

bug("s14-one-method", "S14", [("instrument/resolve/scope.go", '''	if c.NamesHavingMock == nil {
		c.NamesHavingMock = make(map[string]bool, 1)
	}
	c.NamesHavingMock[name] = true
''', '''	if !c.NamesHavingMock[name] {
		c.NamesHavingMock = map[string]bool{name: true}
	}
''')], "instrument/resolve", r'''
package resolve

import "testing"

func TestVerifDemo(t *testing.T) {
	rec := &Recorder{}
	for _, m := range []string{"Do", "Get", "Do"} {
		rec.GetOrInit("net/http").GetOrInit("Client").AddMockName(m)
	}
	for _, m := range []string{"Do", "Get"} {
		if !rec.GetOrInit("net/http").Get("Client").NamesHavingMock[m] {
			t.Fatalf("%s is patched, and will not be instrumented", m)
		}
	}
}
''', "tests that patch two methods of one type of another module or the standard library", "only one of the methods can be mocked, mock.Patch of the other fails")
bug("s14-sum-of-first", "S14", [("cmd/xgo/instrument.go", '''		io.WriteString(h, file.Name)
		for _, fn := range file.Funcs {
			io.WriteString(h, fn.IdentityName)
		}
''', '''		io.WriteString(h, file.Name)
		if len(file.Funcs) > 0 {
			// they are stable, too
			io.WriteString(h, file.Funcs[0].IdentityName)
		}
''')], "cmd/xgo", r'''
package main

import (
	"testing"

	"github.com/xhd2015/xgo/instrument/compiler_extra"
)

func TestVerifDemo(t *testing.T) {
	var files []*compiler_extra.File
	seen := map[string]bool{}
	for _, l := range [][]string{{"New"}, {"New", "Make"}, {"New", "(*T).Get"}, {"Make"}} {
		f := &compiler_extra.File{Name: "lib.go"}
		for _, n := range l {
			f.Funcs = append(f.Funcs, &compiler_extra.Func{IdentityName: n})
		}
		files = []*compiler_extra.File{f}
		s := md5sumTraps(files, false)
		if seen[s] {
			t.Fatalf("the sum with %v is that of other functions", l)
		}
		seen[s] = true
	}
}
''', "a second run that mocks a further function in a file of another module", "the package is taken from go's cache, and the function cannot be mocked")
