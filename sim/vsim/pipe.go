package vsim

import (
	"context"
	"io"
	"sync"
	"sync/atomic"
	"time"
)

// pipe is that of package io.
type pipe struct {
	m       sync.Mutex // never held while waiting
	writing bool
	data    []byte
	offered bool
	rerr    error // why the reader left
	werr    error // why the writer left
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := new(pipe)
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) until(f func() bool) {
	Preempt()
	for {
		p.m.Lock()
		ok := f()
		p.m.Unlock()
		if ok {
			Wake()
			return
		}
		Block()
	}
}

func (r *PipeReader) Read(b []byte) (n int, err error) {
	p := r.p
	p.until(func() bool {
		switch {
		case p.rerr != nil:
			err = io.ErrClosedPipe
		case p.offered:
			n = copy(b, p.data)
			p.data = p.data[n:]
			p.offered = len(p.data) > 0
		case p.werr != nil:
			err = p.werr
		default:
			return false
		}
		return true
	})
	return n, err
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.until(func() bool {
		if r.p.rerr == nil {
			r.p.rerr = err
		}
		return true
	})
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	p.until(func() bool {
		if p.writing {
			return false
		}
		p.writing = true
		p.data, p.offered = b, true
		return true
	})
	p.until(func() bool {
		switch {
		case p.werr != nil:
			err = io.ErrClosedPipe
		case p.rerr != nil && p.offered:
			err = p.rerr
		case p.offered:
			return false
		}
		n = len(b) - len(p.data)
		p.writing, p.offered, p.data = false, false, nil
		return true
	})
	return n, err
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.until(func() bool {
		if w.p.werr == nil {
			w.p.werr = err
		}
		return true
	})
	return nil
}

// deadline is a context that ends at a simulated time.
type deadline struct {
	context.Context
	at   time.Time
	over atomic.Bool
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d *deadline) Err() error {
	if d.over.Load() {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

// WithTimeout is that of package context.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

// WithDeadline is that of package context.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if t, ok := parent.Deadline(); ok && t.Before(at) {
		return context.WithCancel(parent)
	}
	ctx, cancel := context.WithCancelCause(parent)
	d := &deadline{Context: ctx, at: at}
	end := func() {
		if ctx.Err() == nil {
			d.over.Store(true)
			cancel(context.DeadlineExceeded)
			Wake()
		}
	}
	left := at.Sub(Now())
	if left <= 0 {
		end()
		return d, func() {}
	}
	t := AfterFunc(left, end)
	return d, func() {
		t.Stop()
		cancel(nil)
		Wake()
	}
}

// ContextAfterFunc is AfterFunc of package context.
func ContextAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	off := make(chan bool)
	var once sync.Once
	var done atomic.Bool
	Go(func() {
		if Select(false, ArmRecv(ctx.Done()), ArmRecv(off)) == 0 && done.CompareAndSwap(false, true) {
			f()
		}
	})
	return func() bool {
		won := done.CompareAndSwap(false, true)
		once.Do(func() { close(off) })
		Wake()
		return won
	}
}
