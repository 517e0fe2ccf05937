package lab

import (
	"bytes"
	"errors"
	"io"

	"amsim/simrt"
)

// Errors of injected I/O faults.
var (
	ErrDisk = errors.New("simulated I/O error")
	ErrFull = errors.New("simulated full disk")
)

const ioPanic = "simulated panic in a caller's reader or writer"

// ioPlan says how the reader or writer of a call behaves.
type ioPlan struct {
	chunk  bool // partial reads
	stall  int  // 1 in stall calls stalls
	zero   bool // zero-byte reads
	eof    bool // data together with io.EOF
	again  bool // calls back into the library
	failAt int  // byte offset of a failure, -1 for none
	panics bool // the failure is a panic
}

type simIO struct {
	r *Run
	p ioPlan
}

// ioPlan draws a plan without failures.
func (r *Run) ioPlan(stall, again bool) ioPlan {
	w := r.Work
	p := ioPlan{failAt: -1}
	p.chunk = w.Chance(1, 2)
	if stall && w.Chance(1, 2) {
		p.stall = 1 + w.Draw(4)
	}
	p.zero = w.Chance(1, 4)
	p.eof = w.Chance(1, 3)
	p.again = again && w.Chance(1, 3)
	return p
}

func (s simIO) Reader(data []byte) io.Reader      { return &simReader{s: s, data: data} }
func (s simIO) Writer(to *bytes.Buffer) io.Writer { return &simWriter{s: s, to: to} }

func (s simIO) seam(f Fault) {
	simrt.Point()
	if !simrt.InSim() {
		return
	}
	if s.p.stall > 0 && s.r.Env.Chance(1, s.p.stall) {
		Inject(f)
		simrt.Sleep(1 + int64(s.r.Env.Draw(1000000)))
	}
	if s.p.again {
		s.r.hook('R')
	}
}

type simReader struct {
	s     simIO
	data  []byte
	off   int
	zeros int
}

func (r *simReader) Read(p []byte) (int, error) {
	r.s.seam(FStallReader)
	if len(p) == 0 {
		return 0, nil
	}
	pl := &r.s.p
	env := r.s.r.Env
	if pl.failAt >= 0 && r.off >= pl.failAt {
		if pl.panics {
			Inject(FReadPanic)
			panic(ioPanic)
		}
		Inject(FReadError)
		return 0, ErrDisk
	}
	if r.off >= len(r.data) {
		return 0, io.EOF
	}
	if pl.zero && r.zeros < 3 && env.Chance(1, 4) {
		r.zeros++
		Inject(FZeroRead)
		return 0, nil
	}
	r.zeros = 0
	n := len(r.data) - r.off
	if n > len(p) {
		n = len(p)
	}
	if pl.failAt >= 0 && n > pl.failAt-r.off {
		n = pl.failAt - r.off
	}
	if pl.chunk && n > 1 && env.Chance(1, 2) {
		n = 1 + env.Draw(n-1)
		Inject(FShortRead)
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if pl.eof && r.off == len(r.data) {
		Inject(FDataEOF)
		return n, io.EOF
	}
	return n, nil
}

type simWriter struct {
	s  simIO
	to *bytes.Buffer
}

func (w *simWriter) Write(p []byte) (int, error) {
	w.s.seam(FStallWriter)
	pl := &w.s.p
	if pl.failAt >= 0 && w.to.Len()+len(p) > pl.failAt {
		n := pl.failAt - w.to.Len()
		if n < 0 {
			n = 0
		}
		w.to.Write(p[:n])
		if pl.panics {
			Inject(FReadPanic)
			panic(ioPanic)
		}
		Inject(FWriteError)
		return n, ErrDisk
	}
	simrt.Point()
	return w.to.Write(p)
}

// netError is an error as connections give them.
type netError struct{ timeout, temporary bool }

func (*netError) Error() string     { return "simulated network error" }
func (e *netError) Timeout() bool   { return e.timeout }
func (e *netError) Temporary() bool { return e.temporary }

func (r *Run) netError() error {
	return &netError{r.Work.Chance(1, 2), r.Work.Chance(1, 2)}
}
