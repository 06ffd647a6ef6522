// Package simio stands in for io in the code under test: waiting at a pipe is
// part of the schedule.
package simio

import (
	"io"

	"verif/simrt"
	"verif/simsync"
)

var (
	EOF           = io.EOF
	ErrClosedPipe = io.ErrClosedPipe
)

type onceError struct {
	m   simsync.Mutex
	err error
}

func (a *onceError) store(err error) {
	a.m.Lock()
	defer a.m.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *onceError) load() error {
	a.m.Lock()
	defer a.m.Unlock()
	return a.err
}

type pipe struct {
	wrMu simsync.Mutex
	wrCh chan []byte
	rdCh chan int
	once simsync.Once
	done chan struct{}
	rerr onceError
	werr onceError
}

func (p *pipe) read(b []byte) (n int, err error) {
	if simrt.Select(true, simrt.RecvCase(p.done)) == 0 {
		return 0, p.readCloseError()
	}
	c := simrt.RecvCase(p.wrCh)
	if simrt.Select(false, c, simrt.RecvCase(p.done)) == 0 {
		n = copy(b, c.V())
		simrt.Send(p.rdCh)(n)
		return n, nil
	}
	return 0, p.readCloseError()
}

func (p *pipe) closeRead(err error) error {
	if err == nil {
		err = ErrClosedPipe
	}
	p.rerr.store(err)
	p.once.Do(func() { simrt.Close(p.done) })
	return nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if simrt.Select(true, simrt.RecvCase(p.done)) == 0 {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if simrt.Select(false, simrt.SendCase(p.wrCh)(b), simrt.RecvCase(p.done)) == 0 {
			k := simrt.Recv(p.rdCh)
			b = b[k:]
			n += k
		} else {
			return n, p.writeCloseError()
		}
	}
	return n, nil
}

func (p *pipe) closeWrite(err error) error {
	if err == nil {
		err = EOF
	}
	p.werr.store(err)
	p.once.Do(func() { simrt.Close(p.done) })
	return nil
}

func (p *pipe) readCloseError() error {
	rerr := p.rerr.load()
	if werr := p.werr.load(); rerr == nil && werr != nil {
		return werr
	}
	return ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	werr := p.werr.load()
	if rerr := p.rerr.load(); werr == nil && rerr != nil {
		return rerr
	}
	return ErrClosedPipe
}

// PipeReader is io.PipeReader.
type PipeReader struct{ pipe }

func (r *PipeReader) Read(data []byte) (n int, err error) { return r.pipe.read(data) }
func (r *PipeReader) Close() error                        { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error      { return r.pipe.closeRead(err) }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ r PipeReader }

func (w *PipeWriter) Write(data []byte) (n int, err error) { return w.r.pipe.write(data) }
func (w *PipeWriter) Close() error                         { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error       { return w.r.pipe.closeWrite(err) }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	pw := &PipeWriter{r: PipeReader{pipe: pipe{
		wrCh: make(chan []byte),
		rdCh: make(chan int),
		done: make(chan struct{}),
	}}}
	return &pw.r, pw
}
