package vsim

import (
	"reflect"
	"runtime"
	"sync"
	"time"
)

// Channels of the code under test. A goroutine that has to wait is parked by the
// simulator. Buffered channels are the real ones, tried again and again; values
// pass through an unbuffered one when one side has announced itself and the other
// comes along.

// offer is one side of an unbuffered channel, waiting.
type offer struct {
	ch   uintptr
	send bool
	v    any
	arm  int
	w    *waiter
}

// waiter is a goroutine that waits for one of several offers to be taken.
type waiter struct {
	m     sync.Mutex // carries the ordering that the channel would establish
	taken *offer
}

var offers []*offer

// Arm is one case of a select statement.
type Arm struct {
	ch   reflect.Value
	send bool
	v    reflect.Value // to send, or received
	ok   bool
}

func (a *Arm) arm() *Arm { return a }

// RecvArm is a case that receives.
type RecvArm[T any] struct{ Arm }

// ArmSend is a case that sends.
func ArmSend[T any](ch chan<- T) func(T) *Arm {
	return func(v T) *Arm {
		return &Arm{ch: reflect.ValueOf(ch), send: true, v: reflect.ValueOf(&v).Elem()}
	}
}

// ArmRecv is a case that receives.
func ArmRecv[T any](ch <-chan T) *RecvArm[T] {
	return &RecvArm[T]{Arm{ch: reflect.ValueOf(ch)}}
}

// Got1 is the value received.
func (a *RecvArm[T]) Got1() T { v, _ := a.Got2(); return v }

// Got2 is the value received and whether it was sent.
func (a *RecvArm[T]) Got2() (v T, ok bool) {
	if a.v.IsValid() {
		reflect.ValueOf(&v).Elem().Set(a.v)
	}
	return v, a.ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, ArmSend(ch)(v)) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	a := ArmRecv(ch)
	Select(false, a)
	return a.Got1()
}

// Recv2 is v, ok = <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	a := ArmRecv(ch)
	Select(false, a)
	return a.Got2()
}

// ChanIter replaces a range over a channel.
type ChanIter[T any] struct{ ch <-chan T }

func NewChanIter[T any](ch <-chan T) (*ChanIter[T], T) {
	var zero T
	return &ChanIter[T]{ch}, zero
}

func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok {
		*v = x
	}
	return ok
}

// Select takes one of the cases that can go ahead, or -1 if there is a default.
func Select(def bool, list ...interface{ arm() *Arm }) int {
	Preempt()
	arms := make([]*Arm, len(list))
	for i, a := range list {
		arms[i] = a.arm()
	}
	w := newWaiter()
	announced := false
	defer func() {
		if announced {
			withdraw(w)
		}
	}()
	for {
		if announced {
			if i := w.poll(arms); i >= 0 {
				return i
			}
		}
		start := 0
		if len(arms) > 1 {
			start = int(RandU64() % uint64(len(arms)))
		}
		for k := range arms {
			i := (start + k) % len(arms)
			if try(arms[i], w) {
				Wake()
				return i
			}
		}
		if def {
			return -1
		}
		if !announced {
			announced = true
			announce(w, arms)
			Wake()
			continue
		}
		Block()
	}
}

//go:norace
//go:noinline
func newWaiter() *waiter { return new(waiter) }

func (w *waiter) poll(arms []*Arm) int {
	w.m.Lock()
	defer w.m.Unlock()
	o := w.taken
	if o == nil {
		return -1
	}
	if !o.send {
		arms[o.arm].put(o.v)
	}
	return o.arm
}

// put stores what was received.
func (a *Arm) put(x any) {
	a.v = reflect.New(a.ch.Type().Elem()).Elem()
	a.ok = true
	if x != nil {
		a.v.Set(reflect.ValueOf(x))
	}
}

// try makes one case go ahead if it can.
func try(a *Arm, w *waiter) bool {
	if a.ch.IsNil() {
		return false
	}
	if a.send {
		if a.ch.Cap() == 0 {
			if o := find(a.ch.Pointer(), false, w); o != nil {
				o.take(a.v.Interface())
				return true
			}
		}
		return a.ch.TrySend(a.v) // panics if it is closed, as it should
	}
	if v, ok := a.ch.TryRecv(); v.IsValid() { // received, or closed
		a.v, a.ok = v, ok
		return true
	}
	if a.ch.Cap() == 0 {
		if o := find(a.ch.Pointer(), true, w); o != nil {
			a.put(o.take(nil))
			return true
		}
	}
	return false
}

// take completes an offer: x goes to a receiver, the result comes from a sender.
func (o *offer) take(x any) any {
	w := o.waiter()
	w.m.Lock()
	defer w.m.Unlock()
	w.taken = o
	if !o.send {
		o.v = x
	}
	return o.v
}

//go:norace
//go:noinline
func (o *offer) waiter() *waiter { return o.w }

//go:norace
func find(ch uintptr, send bool, not *waiter) *offer {
	for _, o := range offers {
		if o.ch == ch && o.send == send && o.w != not && o.w.free() {
			return o
		}
	}
	return nil
}

//go:norace
func (w *waiter) free() bool { return w.taken == nil }

func announce(w *waiter, arms []*Arm) {
	w.m.Lock() // whoever takes an offer locks it as well
	var mine []*offer
	for i, a := range arms {
		if a.ch.IsNil() || a.ch.Cap() != 0 {
			continue
		}
		o := &offer{ch: a.ch.Pointer(), send: a.send, arm: i, w: w}
		if a.send {
			o.v = a.v.Interface()
		}
		mine = append(mine, o)
	}
	w.m.Unlock()
	publish(mine)
}

//go:norace
func publish(mine []*offer) {
	n := len(offers)
	if n+len(mine) > cap(offers) { // by hand: append would tell the race detector
		all := make([]*offer, n, 2*(n+len(mine)))
		for i, o := range offers {
			all[i] = o
		}
		offers = all
	}
	offers = offers[:n+len(mine)]
	for i, o := range mine {
		offers[n+i] = o
	}
}

//go:norace
func withdraw(w *waiter) {
	n := 0
	for _, o := range offers {
		if o.w != w {
			offers[n] = o
			n++
		}
	}
	for i := n; i < len(offers); i++ {
		offers[i] = nil
	}
	offers = offers[:n]
}

// Gosched is runtime.Gosched.
func Gosched() {
	yield()
}

//go:norace
func yield() {
	t := cur
	if t == nil {
		runtime.Gosched()
		steps++
		return
	}
	Y(0)
	t.park(msg{kind: mGosched})
}

type timer struct {
	at   time.Duration
	c    chan time.Time
	f    func()
	next *timer

	owner *Task
}

// timers are those of the current run, the earliest first.
var timers *timer

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:norace
func addTimer(at time.Duration, c chan time.Time, f func()) *timer {
	p := &timers
	for *p != nil && (*p).at <= at {
		p = &(*p).next
	}
	t := new(timer)
	t.at, t.c, t.f, t.next = at, c, f, *p
	if cur != nil {
		t.owner = cur.root()
	}
	*p = t
	return t
}

//go:norace
func dropTimer(t *timer) bool {
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			return true
		}
	}
	return false
}

// fire lets the earliest timer go off.
//
//go:norace
func (s *sched) fire() {
	t := timers
	timers = t.next
	if t.at > s.clock {
		s.clock = t.at
	}
	if t.f != nil {
		nt := s.newTask("timer", t.f, true)
		nt.prio = 1000
		nt.owner = t.owner
		s.tasks = append(s.tasks, nt)
	} else {
		select {
		case t.c <- Now():
		default:
		}
	}
	s.wakeAll()
}

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *timer
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	Preempt()
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	Preempt()
	return t
}

func (t *Timer) start(d time.Duration) {
	if d <= 0 && t.c != nil {
		t.c <- Now()
		return
	}
	t.t = addTimer(Clock()+max(d, 0), t.c, t.f)
}

// Stop is that of time.Timer.
func (t *Timer) Stop() bool {
	Preempt()
	on := dropTimer(t.t)
	if t.c != nil {
		select {
		case <-t.c:
			on = true // as since Go 1.23: nothing is received after Stop
		default:
		}
	}
	return on
}

// Reset is that of time.Timer.
func (t *Timer) Reset(d time.Duration) bool {
	on := t.Stop()
	t.start(d)
	return on
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop bool
	t    *timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.next()
	return t
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) next() {
	t.t = addTimer(Clock()+t.d, nil, func() {
		if t.stop {
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		Wake()
		t.next()
	})
}

// Stop is that of time.Ticker.
func (t *Ticker) Stop() {
	t.stop = true
	dropTimer(t.t)
}

// Reset is that of time.Ticker.
func (t *Ticker) Reset(d time.Duration) {
	dropTimer(t.t)
	t.d, t.stop = d, false
	t.next()
}
