package world

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"syscall"
	"time"

	"geosim/plan"
	"geosim/vsim"
)

// ---- errors -----------------------------------------------------------------

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "simulated i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type sliceErr []string

func (e sliceErr) Error() string { return "simulated multi-part error " + e[0] }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type quotaErr struct{ left int }

func (q *quotaErr) Error() string { return "simulated quota exceeded" }
func (q *quotaErr) Unwrap() error { return syscall.EDQUOT }

// runtimeLike looks like what a panicking runtime produces.
type runtimeLike struct{}

func (runtimeLike) Error() string { return "simulated runtime error" }
func (runtimeLike) RuntimeError() {}

// MakeErr is the error of a kind.
func MakeErr(kind string) error {
	switch kind {
	case "eio":
		return syscall.EIO
	case "nospace":
		return syscall.ENOSPC
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return syscall.EAGAIN
	case "timeout":
		return timeoutErr{}
	case "wrapeof":
		return fmt.Errorf("simulated connection cut: %w", io.EOF)
	case "ueof":
		return io.ErrUnexpectedEOF
	case "closed":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "eof":
		return io.EOF
	case "nameeof": // an error that crossed a process boundary as its text
		return errors.New("EOF")
	case "short":
		return io.ErrShortWrite
	case "uncomparable":
		return sliceErr{"one", "two"}
	case "empty":
		return emptyErr{}
	case "quota":
		return &quotaErr{7}
	case "panicky":
		return runtimeLike{}
	}
	return errors.New("simulated " + kind)
}

// sameErr tells whether got is the injected error, possibly wrapped.
func sameErr(got, want error) bool {
	if got == nil {
		return false
	}
	if s, ok := want.(sliceErr); ok {
		var t sliceErr
		return errors.As(got, &t) && len(t) == len(s) && t[0] == s[0]
	}
	return errors.Is(got, want)
}

// interrupt ends the call of the code under test from inside.
func interrupt(how string) {
	switch how {
	case "goexit":
		runtime.Goexit()
	case "error":
		panic(errors.New("simulated panic with an error value"))
	case "nilmap":
		var m map[string]int
		m["x"] = 1
	}
	panic("simulated panic")
}

// ---- statistics -------------------------------------------------------------

// Stats counts what happened in one task; tasks never share one.
type Stats struct {
	Faults map[string]int
	Sites  map[string]int // fault kind @ site in the library
	keep   *keeper        // where what is handed over is kept
	win    *window        // of the call that is made
}

func newStats() *Stats { return &Stats{Faults: map[string]int{}, Sites: map[string]int{}} }

func (s *Stats) fault(kind string) {
	if s == nil {
		return
	}
	s.Faults[kind]++
	s.Sites[kind+"@"+strconv.Itoa(int(vsim.LastSite()))]++
}

// ---- source -----------------------------------------------------------------

// SimReader is a simulated source.
type SimReader struct {
	data   string
	pos    int
	d      *plan.Delivery
	i      int // current chunk
	given  int // bytes of the current chunk handed over
	sticky error
	ended  bool
	st     *Stats
	onRead func(delivered int, ended bool)

	side *side
	win  *window

	Reads   int
	Errs    []error // errors reported, in order
	ErrAt   []int   // bytes delivered when they were
	Bursts  int
	errOnce map[int]bool
}

func newReader(text string, d *plan.Delivery, st *Stats) *SimReader {
	if d == nil {
		d = &plan.Delivery{}
	}
	return &SimReader{data: text, d: d, st: st, win: st.window()}
}

func stall(ms int64) {
	if ms > 0 {
		vsim.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

func (r *SimReader) Read(p []byte) (n int, err error) {
	vsim.Preempt()
	defer vsim.Preempt()
	defer r.win.use("the source")()
	r.Reads++
	r.side.tick()
	if r.onRead != nil {
		r.onRead(r.pos, r.ended)
	}
	if r.sticky != nil {
		r.fail(r.sticky)
		return 0, r.sticky
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.i >= len(r.d.Chunks) {
		n = copy(p, r.data[r.pos:])
		r.pos += n
		if n == 0 || r.d.EOFData && r.pos == len(r.data) {
			r.ended = true
			if n > 0 {
				r.st.fault("read-eof-with-data")
			}
			return n, io.EOF
		}
		return n, nil
	}
	c := r.d.Chunks[r.i]
	if r.given == 0 && c.Stall > 0 {
		r.st.fault("read-stall")
		stall(c.Stall)
	}
	if c.Panic != "" && r.given == 0 {
		r.i++
		r.st.fault("read-" + c.Panic)
		interrupt(c.Panic)
	}
	n = c.N - r.given
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.given += n
	if c.Scribble {
		if n < len(p) {
			r.st.fault("read-scratch")
		}
		for j := n; j < len(p); j++ {
			p[j] = "\"(x\xf0=;"[j%6]
		}
	}
	if r.given < c.N && r.pos < len(r.data) {
		return n, nil
	}
	r.i++
	r.given = 0
	if n == 0 {
		r.st.fault("read-empty")
	} else if r.pos < len(r.data) {
		r.st.fault("read-short")
	}
	if c.Err != "" {
		err = MakeErr(c.Err)
		if c.Forever {
			r.sticky = err
		}
		r.fail(err)
		return n, err
	}
	if r.d.EOFData && r.pos == len(r.data) && r.i >= len(r.d.Chunks) {
		r.ended = true
		r.st.fault("read-eof-with-data")
		return n, io.EOF
	}
	return n, nil
}

func (r *SimReader) fail(err error) {
	r.st.fault("read-error")
	r.Errs = append(r.Errs, err)
	r.ErrAt = append(r.ErrAt, r.pos)
}

// ---- destination ------------------------------------------------------------

// SimWriter is a simulated destination.
type SimWriter struct {
	ev     []plan.WEvent
	st     *Stats
	Calls  int
	Buf    []byte
	sticky error
	side   *side
	win    *window

	Errs       []error
	AfterError int // writes attempted after a failed one
}

func newWriter(ev []plan.WEvent, st *Stats) *SimWriter {
	return &SimWriter{ev: ev, st: st, win: st.window()}
}

// Write makes the destination an ordinary io.Writer as well, like most are.
func (w *SimWriter) Write(p []byte) (int, error) { return w.put(string(p)) }

func (w *SimWriter) WriteString(s string) (int, error) {
	if w.st != nil {
		w.st.keep.text("what was written", s)
	}
	return w.put(s)
}

func (w *SimWriter) put(s string) (int, error) {
	vsim.Preempt()
	defer vsim.Preempt()
	defer w.win.use("the destination")()
	vsim.Charge(len(s))
	call := w.Calls
	w.Calls++
	w.side.tick()
	if len(w.Errs) > 0 {
		w.AfterError++
	}
	if w.sticky != nil {
		w.Errs = append(w.Errs, w.sticky)
		return 0, w.sticky
	}
	for i := range w.ev {
		e := &w.ev[i]
		hit := e.Call == call
		accept := e.Accept
		if e.Byte > 0 {
			hit = len(w.Buf) <= e.Byte-1 && e.Byte-1 < len(w.Buf)+len(s)
			accept = e.Byte - 1 - len(w.Buf)
		}
		if !hit {
			continue
		}
		if e.Stall > 0 {
			w.st.fault("write-stall")
			stall(e.Stall)
		}
		if e.Panic != "" {
			w.st.fault("write-" + e.Panic)
			interrupt(e.Panic)
		}
		if e.Err == "" {
			continue
		}
		if accept > len(s) {
			accept = len(s)
		}
		if accept > 0 {
			w.st.fault("write-partial")
		}
		w.st.fault("write-error")
		w.Buf = append(w.Buf, s[:accept]...)
		err := MakeErr(e.Err)
		w.Errs = append(w.Errs, err)
		if e.Forever {
			w.sticky = err
		}
		return accept, err
	}
	w.Buf = append(w.Buf, s...)
	return len(s), nil
}
