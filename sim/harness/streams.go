package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"

	"simrt"
)

// ErrInjected is what a failing stream returns.
var ErrInjected = errors.New("injected input/output error")

type timeoutError struct{}

func (timeoutError) Error() string   { return "injected timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// err is the error the fault shows itself by.
func (f Fault) err() error {
	switch f.Err {
	case "":
		return ErrInjected
	case "unexpected-eof":
		return io.ErrUnexpectedEOF
	case "closed-pipe":
		return io.ErrClosedPipe
	case "short-write":
		return io.ErrShortWrite
	case "no-progress":
		return io.ErrNoProgress
	case "timeout":
		return timeoutError{}
	case "wrapped-eof":
		return fmt.Errorf("injected: %w", io.EOF)
	case "canceled":
		return context.Canceled
	case "deadline":
		return os.ErrDeadlineExceeded
	case "closed":
		return os.ErrClosed
	case "path":
		return &fs.PathError{Op: f.Kind, Path: "corpus", Err: simrt.Errno("EIO")}
	}
	return simrt.Errno(f.Err)
}

func readErr(r *R) string {
	return r.S("", "", "", "unexpected-eof", "closed-pipe", "no-progress", "timeout", "path", "EIO", "EACCES",
		"wrapped-eof", "canceled", "deadline", "closed", "EINTR", "EAGAIN", "ESTALE")
}

func writeErr(r *R) string {
	return r.S("", "", "", "closed-pipe", "short-write", "timeout", "path", "EIO", "ENOSPC", "unexpected-eof",
		"wrapped-eof", "canceled", "deadline", "closed", "EINTR", "EAGAIN", "EPIPE", "EDQUOT", "EFBIG")
}

// SimReader is an io.ReadSeeker whose chunking, latency and failures are part
// of the case.
type SimReader struct {
	data    []byte
	later   []string // what the passes after the first read, if not the same
	read    bool     // since the last rewind
	turns   int      // rewinds after reading
	plan    Stream
	r       *R
	pos     int
	passes  int // rewinds seen
	seeks   int
	Reads   int
	Calls   int
	Fired   int
	used    []int
	empties int
	MaxPos  int
	Total   int // bytes handed out
	Log     []string
	OnRead  func(n int)
	Closed  bool
}

func newReader(text string, plan Stream, seed uint64) *SimReader {
	if len(text) > 20000 && plan.Chunk != "" {
		// a long text is not read byte by byte
		plan.Chunk, plan.N = "fixed", max(plan.N, 200+int(seed%5000))
	}
	return &SimReader{data: []byte(text), plan: plan, r: &R{seed ^ 0xfeed}, used: make([]int, len(plan.Faults))}
}

func (s *SimReader) latency() {
	if simrt.W == nil {
		return
	}
	if s.plan.Delay > 0 {
		simrt.SleepFor(int64(1+s.r.N(s.plan.Delay)) * 1000)
	} else {
		simrt.SP()
	}
}

func (s *SimReader) fire(i int) bool {
	f := s.plan.Faults[i]
	if f.Times > 0 && s.used[i] >= f.Times {
		return false
	}
	s.used[i]++
	s.Fired++
	simrt.Probe("fault:" + f.Kind + "-error")
	return true
}

func (s *SimReader) Read(b []byte) (int, error) {
	s.latency()
	s.Calls++
	s.Reads++
	s.read = true
	if len(b) == 0 {
		return 0, nil
	}
	rest := len(s.data) - s.pos
	n := len(b)
	switch s.plan.Chunk {
	case "one":
		n = 1
	case "rand":
		n = 1 + s.r.N(13)
	case "fixed":
		n = s.plan.N
	}
	if n > len(b) {
		n = len(b)
	}
	if n > rest {
		n = rest
	}
	if s.plan.Empty > 0 && s.empties < 20 && s.r.N(100) < s.plan.Empty {
		s.empties++
		simrt.Probe("fault:empty-read")
		return 0, nil
	}
	s.empties = 0
	// a failure at a position of this pass
	pass := s.passes
	if pass < 1 {
		pass = 1
	}
	for i, f := range s.plan.Faults {
		if f.Kind == "seek" || f.Pass != pass {
			continue
		}
		k := 0
		switch {
		case s.pos >= f.At:
		case f.Kind == "data" && s.pos+n >= f.At:
			k = f.At - s.pos
		default:
			if s.pos+n > f.At {
				n = f.At - s.pos
			}
			continue
		}
		if s.fire(i) {
			copy(b, s.data[s.pos:s.pos+k])
			s.pos += k
			s.Total += k
			return k, f.err()
		}
	}
	if n == 0 && rest == 0 {
		return 0, io.EOF
	}
	if n < len(b) && n < rest {
		simrt.Probe("fault:short-read")
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	s.Total += n
	if s.pos > s.MaxPos {
		s.MaxPos = s.pos
	}
	if s.OnRead != nil {
		s.OnRead(n)
	}
	if s.plan.EOFD && s.pos == len(s.data) {
		simrt.Probe("fault:data-with-eof")
		return n, io.EOF
	}
	return n, nil
}

func (s *SimReader) Seek(off int64, whence int) (int64, error) {
	s.latency()
	s.Calls++
	s.seeks++
	for i, f := range s.plan.Faults {
		if f.Kind == "seek" && s.seeks >= f.At && s.fire(i) {
			return int64(s.pos), f.err()
		}
	}
	if s.read && off == 0 && whence == io.SeekStart && len(s.later) > 0 {
		if string(s.data) != s.later[0] {
			simrt.Probe("fault:input-changed")
		}
		s.data, s.read = []byte(s.later[0]), false
		if len(s.later) > 1 {
			s.later = s.later[1:]
		}
		s.turns++
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 || off > int64(len(s.data)) {
		return int64(s.pos), fmt.Errorf("seek to %d", off)
	}
	s.pos = int(off)
	if off == 0 {
		s.passes++
	}
	return off, nil
}

// SimWriter collects what was accepted and fails as planned.
type SimWriter struct {
	Got   []byte
	plan  Stream
	r     *R
	used  []int
	Fired int
	Calls int
}

func newWriter(plan Stream, seed uint64) *SimWriter {
	return &SimWriter{plan: plan, r: &R{seed ^ 0xbead}, used: make([]int, len(plan.Faults))}
}

func (s *SimWriter) Write(b []byte) (int, error) {
	if simrt.W != nil {
		if s.plan.Delay > 0 {
			simrt.SleepFor(int64(1+s.r.N(s.plan.Delay)) * 1000)
		} else {
			simrt.SP()
		}
	}
	s.Calls++
	for i, f := range s.plan.Faults {
		if len(s.Got)+len(b) <= f.At || (f.Times > 0 && s.used[i] >= f.Times) {
			continue
		}
		s.used[i]++
		s.Fired++
		k := f.At - len(s.Got)
		if k < 0 || !s.plan.Short {
			k = 0
		}
		if k > len(b) {
			k = len(b)
		}
		s.Got = append(s.Got, b[:k]...)
		if s.plan.NoErr && k > 0 && k < len(b) {
			simrt.Probe("fault:short-write-no-error")
			return k, nil
		}
		simrt.Probe("fault:write-error")
		if k > 0 {
			simrt.Probe("fault:torn-write")
		}
		return k, f.err()
	}
	if s.plan.Room > 0 && len(s.Got)+len(b) > s.plan.Room {
		s.Fired++
		k := s.plan.Room - len(s.Got)
		s.Got = append(s.Got, b[:k]...)
		simrt.Probe("fault:disk-full")
		return k, simrt.Errno("ENOSPC")
	}
	s.Got = append(s.Got, b...)
	return len(b), nil
}

// genRead picks a chunking.
func genRead(r *R) Stream {
	s := Stream{Chunk: r.S("", "", "one", "rand", "rand", "fixed")}
	if s.Chunk == "fixed" {
		s.N = r.In(2, 40)
	}
	if r.P(0.2) {
		s.Empty = r.I(5, 30)
	}
	s.EOFD = r.P(0.25)
	if r.P(0.15) {
		s.Delay = r.I(1, 50, 5000)
	}
	return s
}
