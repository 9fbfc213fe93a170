package io

import (
	"io"
	"unsafe"

	"verif.local/io/sys"
	"verif.local/simk"
)

// a synchronous pipe, as the one of package io
type ipipe struct {
	writing bool // a Write is in progress
	data    []byte
	has     bool // data is offered
	werr    error
	rerr    error
	wclosed bool
	rclosed bool
}

type PipeReader struct{ p *ipipe }
type PipeWriter struct{ p *ipipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &ipipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *ipipe) wait() bool {
	if sys.Gone() {
		return false
	}
	simk.Block(unsafe.Pointer(p))
	return !sys.Gone()
}

func (p *ipipe) wake() { simk.Wake(unsafe.Pointer(p)); sys.Y() }

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	for {
		switch {
		case p.rclosed:
			return 0, io.ErrClosedPipe
		case p.has:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.has = false
			}
			p.wake()
			return n, nil
		case p.wclosed:
			return 0, p.werr
		}
		if !p.wait() {
			return 0, sys.ErrDead
		}
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.rclosed {
		r.p.rclosed, r.p.rerr = true, err
	}
	r.p.wake()
	return nil
}

func (w *PipeWriter) closed() error {
	p := w.p
	if p.rclosed && !p.wclosed {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	for p.writing && !p.rclosed && !p.wclosed {
		if !p.wait() {
			return 0, sys.ErrDead
		}
	}
	if p.rclosed || p.wclosed {
		return 0, w.closed()
	}
	p.writing, p.has, p.data = true, true, b
	p.wake()
	for p.has && !p.rclosed && !p.wclosed {
		if !p.wait() {
			return 0, sys.ErrDead
		}
	}
	n := len(b) - len(p.data)
	cut := p.has
	p.writing, p.has, p.data = false, false, nil
	p.wake()
	if cut {
		return n, w.closed()
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if !w.p.wclosed {
		w.p.wclosed, w.p.werr = true, err
	}
	w.p.wake()
	return nil
}
