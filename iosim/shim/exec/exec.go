package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/io/os"
	"verif.local/io/sys"
	"verif.local/simk"
)

// Cmd runs a simulated program.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	closers []io.Closer
	waited  bool
	ctx     context.Context
	capErr  bool
	copies  []*copying
}

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if fi, err := sys.Stat_(file); err != nil || fi.IsDir() {
			if err == nil {
				err = syscall.EISDIR
			}
			return "", &exec.Error{Name: file, Err: err}
		}
		return file, nil
	}
	if !sys.HasCommand(file) {
		return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
	}
	return "/usr/bin/" + file, nil
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string    { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }
func (c *Cmd) Environ() []string { return c.env() }

func (c *Cmd) env() []string {
	if c.Env == nil {
		return os.Environ()
	}
	return append([]string{}, c.Env...)
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	so := c.writer(c.Stdout)
	se := so
	if !sameWriter(c.Stdout, c.Stderr) {
		se = c.writer(c.Stderr)
	}
	ch, err := sys.Exec(&sys.Call{Path: c.Path, Args: c.Args, Env: c.env(), Dir: c.Dir, Stdin: c.Stdin, Stdout: so, Stderr: se})
	if err != nil {
		return err
	}
	for _, cp := range c.copies {
		cp := cp
		sys.Spawn(cp.run)
	}
	c.Process = &os.Process{Pid: 4000, P: ch}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	c.Process.P.Wait()
	for _, x := range c.closers {
		x.Close()
	}
	c.ProcessState = &os.ProcessState{P: c.Process.P}
	var cerr error
	for _, cp := range c.copies {
		for !cp.done {
			if sys.Gone() {
				return sys.ErrDead
			}
			simk.Block(unsafe.Pointer(cp))
		}
		if cerr == nil {
			cerr = cp.err
		}
	}
	if c.Process.P.Code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	if cerr != nil {
		return cerr
	}
	return c.Process.P.WaitErr
}

// copying is what passes the output of a program to a writer.
type copying struct {
	r    *os.File
	w    io.Writer
	err  error
	done bool
}

func (c *copying) run() {
	b := make([]byte, 32<<10)
	for {
		n, err := c.r.Read(b)
		if n > 0 {
			if _, werr := c.w.Write(b[:n]); werr != nil {
				c.err = werr
				break
			}
		}
		if err != nil {
			break
		}
	}
	sys.CloseReader(c.r)
	c.done = true
	simk.Wake(unsafe.Pointer(c))
}

func sameWriter(a, b io.Writer) (same bool) {
	defer func() { recover() }()
	return a == b
}

// writer is what the program gets for w: files and memory as they are,
// everything else through a pipe.
func (c *Cmd) writer(w io.Writer) io.Writer {
	switch w.(type) {
	case nil, *os.File, *bytes.Buffer:
		return w
	}
	pr, pw := sys.Pipe()
	c.copies = append(c.copies, &copying{r: pr, w: w})
	return pw
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, se bytes.Buffer
	c.Stdout = &out
	cap := c.Stderr == nil
	if cap {
		c.Stderr = &se
	}
	err := c.Run()
	if e, ok := err.(*ExitError); ok && cap {
		e.Stderr = se.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	r, w := sys.Pipe()
	c.Stdout = w
	return r, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	r, w := sys.Pipe()
	c.Stderr = w
	return r, nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	r, w := sys.Pipe()
	c.Stdin = r
	return w, nil
}
