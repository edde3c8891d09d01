// Package sio is the simulated io.Pipe.
package sio

import (
	"io"
	"simrt"
)

type pipe struct {
	wbusy   bool
	data    []byte
	has     bool
	rdone   error
	wdone   error
	rclosed bool
	wclosed bool
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	simrt.SP()
	if p.rclosed {
		return 0, io.ErrClosedPipe
	}
	simrt.BlockUntil("pipe read", func() bool { return p.has || p.wclosed || p.rclosed })
	if p.rclosed {
		return 0, io.ErrClosedPipe
	}
	if !p.has {
		return 0, p.wdone
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 {
		p.has = false
	}
	simrt.SP()
	return n, nil
}

// Close closes the reader.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes the reader.
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.rclosed {
		r.p.rdone, r.p.rclosed = err, true
	}
	simrt.SP()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	simrt.SP()
	simrt.BlockUntil("pipe write", func() bool { return !p.wbusy })
	if p.wclosed {
		return 0, io.ErrClosedPipe
	}
	if p.rclosed {
		return 0, p.rdone
	}
	p.wbusy = true
	defer func() { p.wbusy = false }()
	p.data, p.has = b, true
	simrt.BlockUntil("pipe write", func() bool { return !p.has || p.rclosed || p.wclosed })
	n := len(b) - len(p.data)
	if p.has {
		p.has = false
		p.data = nil
		if p.rclosed {
			return n, p.rdone
		}
		return n, io.ErrClosedPipe
	}
	return len(b), nil
}

// Close closes the writer.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes the writer.
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if !w.p.wclosed {
		w.p.wdone, w.p.wclosed = err, true
	}
	simrt.SP()
	return nil
}
