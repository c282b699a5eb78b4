// Package vsim is the simulator the instrumented library runs under: it decides
// who runs next at every statement, what time it is, in which order hash tables
// are walked, and what random numbers come out. Nothing in it reads a real clock
// or a real random source.
package vsim

import (
	"fmt"
	"sync"
	"time"
)

// ---- steps ------------------------------------------------------------------

// Site is the number of a scheduling point in the instrumented source.
type Site = int32

// Hang is what the code under test is stopped with when it has used up its
// budget of steps: a deterministic "does not end".
type Hang struct{}

func (Hang) Error() string { return "step budget exhausted" }

var (
	cur      *Task // the task that runs; nil outside of Run
	steps    int64 // steps taken since ResetSteps
	limit    int64 = 50_000_000
	hung     bool
	lastSite Site
	nYields  int64
)

var hits [1 << 14]bool

// Hits are the scheduling points passed since the process started.
func Hits() (out []int) {
	for i, h := range hits {
		if h && i > 0 {
			out = append(out, i)
		}
	}
	return out
}

// Y is called before every statement of the code under test.
//
//go:norace
func Y(site Site) {
	lastSite = site
	hits[site&(1<<14-1)] = true
	steps++
	if steps > limit {
		hung = true
		panic(Hang{})
	}
	t := cur
	if t == nil {
		return
	}
	t.left--
	if steps >= eventAt {
		happen()
	}
	if t.left <= 0 || late {
		t.park(msg{kind: mYield, site: site})
	}
}

// Charge uses up steps for work done outside the code under test on its behalf.
//
//go:norace
func Charge(n int) {
	steps += int64(n)
	if steps > limit {
		hung = true
		panic(Hang{})
	}
}

// ResetSteps starts a new step budget.
//
//go:norace
func ResetSteps(max int64) { steps, limit, hung = 0, max, false }

// Hung tells whether the budget ran out since ResetSteps.
//
//go:norace
func Hung() bool { return hung }

// Steps is the number of steps taken since ResetSteps.
//
//go:norace
func Steps() int64 { return steps }

var spawned, handed int64

// Tasks is how many goroutines have been started under the scheduler, and how
// often it was given control, in this process.
//
//go:norace
func Tasks() (started, parks int64) { return spawned, handed }

// LastSite is the most recent scheduling point passed.
//
//go:norace
func LastSite() Site { return lastSite }

// ---- tasks ------------------------------------------------------------------

const (
	mYield = iota
	mSleep
	mBlock
	mDone
	mSpawn
	mGosched
)

type msg struct {
	kind  int
	site  Site
	d     time.Duration
	task  *Task
	steps int
}

// Task is one simulated caller goroutine.
type Task struct {
	id     int
	name   string
	resume chan int
	back   chan msg
	left   int // steps until the next hand-back
	given  int
	state  int // owned by the scheduler
	wake   time.Duration
	ran    int64
	prio   int
	wg     *sync.WaitGroup
	sched  *sched
	streak int   // turns in a row
	passed bool  // lets others go first
	aux    bool  // started by the code under test
	owner  *Task // the caller on whose behalf
}

const (
	sReady = iota
	sSleep
	sBlock
	sDone
)

//go:norace
func (t *Task) park(m msg) {
	syncOff()
	m.task = t
	m.steps = t.given - t.left
	t.back <- m
	q := <-t.resume
	t.left, t.given = q, q
	syncOn()
}

//go:norace
func setCur(t *Task) { cur = t }

//go:norace
func getCur() *Task { return cur }

// Sleep lets simulated time pass for the calling task.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		soloClock += d
		return
	}
	t.park(msg{kind: mSleep, d: d})
}

// Block tells the scheduler that the calling task waits for another one.
//
//go:norace
func Block() {
	t := cur
	if t == nil {
		steps += 1000
		if steps > limit {
			hung = true
			panic(Hang{})
		}
		return
	}
	t.park(msg{kind: mBlock})
}

// Preempt is a scheduling point of the simulator itself.
//
//go:norace
func Preempt() { Y(0) }

// Wake tells the scheduler that something happened that others may wait for.
//
//go:norace
func Wake() {
	t := cur
	if t == nil {
		return
	}
	if s := t.sched; s.waiting > 0 {
		s.dirty = true
		t.left--
		t.park(msg{kind: mYield})
		return
	}
	Y(0)
}

// Go starts f as another task (the code under test used a go statement).
//
//go:norace
func Go(f func()) {
	t := cur
	if t == nil {
		// no scheduler yet: it starts with the next run
		nt := (&sched{nextID: 1000 + len(orphans)}).newTask("go", f, true)
		syncOff()
		orphans = append(orphans, nt)
		syncOn()
		return
	}
	nt := t.sched.newTask("go", f, true)
	syncOff()
	nt.owner = t.root()
	t.back <- msg{kind: mSpawn, task: nt}
	<-t.resume
	syncOn()
	t.park(msg{kind: mYield})
}

//go:norace
func (t *Task) root() *Task {
	if t.owner != nil {
		return t.owner
	}
	return t
}

// Left is what the code under test has started on behalf of the calling caller
// and what is still there: goroutines, and functions to be called by timers.
//
//go:norace
func Left() (goroutines, timed int) {
	t := cur
	if t == nil {
		return 0, 0
	}
	for _, o := range t.sched.tasks {
		if o.aux && o.state != sDone && o != t && o.owner == t.root() {
			goroutines++
		}
	}
	for p := timers; p != nil; p = p.next {
		if p.f != nil && p.owner == t.root() {
			timed++
		}
	}
	return
}

// ---- decisions --------------------------------------------------------------

// Dec is one scheduling decision: let task T take up to Q steps.
type Dec struct {
	T int `json:"t"`
	Q int `json:"q"`
}

// Policy says how decisions are made when they are not given.
type Policy struct {
	Seed     uint64  `json:"seed"`
	Mode     string  `json:"mode,omitempty"`     // random, lockstep, pct, serial
	Mean     int     `json:"mean,omitempty"`     // mean quantum
	Depth    int     `json:"depth,omitempty"`    // pct: number of priority changes
	Explicit []Dec   `json:"explicit,omitempty"` // replay: these decisions, then serial
	Fixed    bool    `json:"fixed,omitempty"`    // use Explicit even if empty
	Events   []Event `json:"events,omitempty"`   // what happens to the process meanwhile
	Bare     bool    `json:"-"`                  // keep no record of the decisions: memory is being measured
}

// Trace is what a run did.
type Trace struct {
	Decs     []Dec
	Switches int
	Pairs    map[[2]Site]int // (site left, site resumed) at context switches
	Clock    time.Duration
	Deadlock string
	Yields   int64
	Hash     uint64
}

const forever = 1 << 40

type sched struct {
	tasks   []*Task
	ready   []*Task // reused, so that the record of a run is all that grows with it
	back    chan msg
	wg      sync.WaitGroup
	clock   time.Duration
	rng     Rand
	pol     Policy
	next    int // next explicit decision
	changes map[int64]bool
	total   int64
	pending *Task
	tr      Trace
	at      map[*Task]Site
	lastRun *Task
	nextID  int
	chosen  bool  // the last decision was one
	waiting int   // blocked tasks
	dirty   bool  // something happened that they may wait for
	polled  bool  // they have all looked again since
	turn    int   // serial: who is first
	lonely  int   // times that only what runs in the background went on while the callers slept
	after   int64 // steps given to what still runs when every caller has returned
}

var (
	soloClock time.Duration
	curSched  *sched
	orphans   []*Task // goroutines of the code under test that outlive the run they were started in
)

//go:norace
func setSched(s *sched) { curSched = s }

// Now is the simulated wall clock.
//
//go:norace
func Now() time.Time {
	d := soloClock
	if s := curSched; s != nil {
		d += s.clock
	}
	return base.Add(lived + jumped + d).In(time.Local)
}

// Clock is the simulated time since the start of the run.
//
//go:norace
func Clock() time.Duration {
	if s := curSched; s != nil {
		return s.clock
	}
	return soloClock
}

//go:norace
func (s *sched) newTask(name string, f func(), aux bool) *Task {
	t := &Task{id: s.takeID(), name: name, resume: make(chan int), back: s.back, sched: s, aux: aux}
	if !aux {
		t.wg = &s.wg
		t.wg.Add(1)
	}
	go func() {
		syncOff()
		q := <-t.resume
		t.start(q)
		syncOn()
		defer func() {
			if t.wg != nil {
				t.wg.Done() // real edge to whoever waits for the whole run, none between tasks
			}
			syncOff()
			t.finish()
			syncOn()
		}()
		f()
	}()
	return t
}

//go:norace
func (s *sched) takeID() int { s.nextID++; return s.nextID - 1 }

//go:norace
func (t *Task) start(q int) { t.left, t.given = q, q }

//go:norace
func (t *Task) finish() { t.back <- msg{kind: mDone, task: t, steps: t.given - t.left} }

// Run executes the functions as concurrent tasks under the policy.
func Run(pol Policy, fs ...func()) *Trace {
	s := &sched{back: make(chan msg), pol: pol, at: map[*Task]Site{}}
	s.rng.Seed(pol.Seed)
	s.tr.Pairs = map[[2]Site]int{}
	for i, f := range fs {
		s.tasks = append(s.tasks, s.newTask(fmt.Sprintf("T%d", i), f, false))
	}
	s.adopt()
	if pol.Mode == "pct" {
		s.changes = map[int64]bool{}
		for _, t := range s.tasks {
			t.prio = 1000 + int(s.rng.N(1000))
		}
		for i := 0; i < pol.Depth; i++ {
			// change points at log-uniform distances, so that both early and late ones occur
			s.changes[int64(1)<<s.rng.N(13)+int64(s.rng.N(64))] = true
		}
	}
	setEvents(pol.Events)
	setSched(s)
	syncOff()
	s.loop()
	syncOn()
	setEvents(nil)
	if s.tr.Deadlock == "" {
		s.wg.Wait()
	}
	setSched(nil)
	setCur(nil)
	s.release()
	s.tr.Clock = s.clock
	lived += s.clock
	s.tr.Yields = s.total
	return &s.tr
}

// adopt takes over the goroutines that are left from earlier runs.
//
//go:norace
func (s *sched) adopt() {
	for _, t := range orphans {
		t.id = s.takeID()
		t.sched, t.back = s, s.back
		if t.state == sBlock {
			t.state = sReady
		}
		t.wake -= s.clock
		s.tasks = append(s.tasks, t)
	}
	orphans = nil
}

//go:norace
func (s *sched) release() {
	timers = nil
	for _, t := range s.tasks {
		if t.aux && t.state != sDone {
			if t.wake -= s.clock; t.wake < 0 {
				t.wake = 0
			}
			orphans = append(orphans, t)
		}
	}
}

//go:norace
func (s *sched) loop() {
	for {
		t, q := s.decide()
		if t == nil {
			return
		}
		if s.lastRun != nil && s.lastRun != t {
			s.tr.Switches++
			if s.lastRun.state != sDone && !s.pol.Bare { // a task that is over was not preempted
				s.tr.Pairs[[2]Site{s.at[s.lastRun], s.at[t]}]++
			}
		}
		s.lastRun = t
		setCur(t)
		t.resume <- q
		m := <-s.back
		handed++
		for m.kind == mSpawn {
			spawned++
			m.task.prio = 1000 + int(s.rng.N(1000))
			s.tasks = append(s.tasks, m.task)
			t.resume <- 0
			m = <-s.back
		}
		setCur(nil)
		used := m.steps
		if used < 1 {
			used = 1
		}
		s.total += int64(used)
		t.ran += int64(used)
		if s.chosen && !s.pol.Bare && len(s.tr.Decs) < 2_000_000 {
			s.tr.Decs = append(s.tr.Decs, Dec{t.id, used})
		}
		s.tr.Hash = mix(s.tr.Hash ^ (uint64(t.id)<<48 + uint64(m.kind)<<40 + uint64(used)<<8 + uint64(m.site)))
		s.at[t] = m.site
		if s.dirty || m.kind == mDone || m.kind == mSleep || m.kind == mBlock && m.steps > 0 {
			s.wakeAll()
			s.polled = false
		}
		for _, o := range s.tasks {
			o.passed = false
		}
		t.passed = m.kind == mGosched
		switch m.kind {
		case mDone:
			t.state = sDone
			if t.aux {
				for i, o := range s.tasks {
					if o == t {
						n := copy(s.tasks[i:], s.tasks[i+1:])
						s.tasks[i+n] = nil
						s.tasks = s.tasks[:i+n]
						break
					}
				}
				delete(s.at, t)
			}
		case mSleep:
			t.state = sSleep
			t.wake = s.clock + m.d
		case mBlock:
			t.state = sBlock
			s.waiting++
		}
	}
}

//go:norace
func (s *sched) wakeAll() {
	s.dirty = false
	s.waiting = 0
	for _, o := range s.tasks {
		if o.state == sBlock {
			o.state = sReady
		}
	}
}

// decide picks the next task and the number of steps it may take.
//
//go:norace
func (s *sched) decide() (*Task, int) {
	s.chosen = false
	ready := s.ready
	if late {
		s.overdue()
	}
	for {
		ready = ready[:0]
		live, sleeping := 0, 0
		var first, caller *Task
		callers := false
		for _, t := range s.tasks {
			callers = callers || !t.aux && t.state != sDone
		}
		for _, t := range s.tasks {
			switch t.state {
			case sReady:
				ready = append(ready, t)
				live++
			case sSleep:
				live++
				sleeping++
				if first == nil || t.wake < first.wake {
					first = t
				}
				if !t.aux && (caller == nil || t.wake < caller.wake) {
					caller = t
				}
			case sBlock:
				live++
			}
		}
		if !callers {
			// what still runs in the background may go on for a while
			if len(ready) == 0 || s.after > 10_000 {
				return nil, 0
			}
			s.after += 500
			return ready[int(s.after/500)%len(ready)], 500
		}
		if len(ready) > 0 {
			s.ready = ready
			break
		}
		if s.lonely > 1000 && caller != nil {
			first = caller // the clock jumps: what else there is to do is late
		} else if timers != nil && (sleeping == 0 || timers.at < first.wake) {
			s.lonely++
			s.fire()
			continue
		}
		if sleeping > 0 {
			if first.wake > s.clock {
				s.clock = first.wake
			}
			if s.lonely++; !first.aux {
				s.lonely = 0
			}
			first.state = sReady
			continue
		}
		if !s.polled { // in case something happened without a word
			s.polled = true
			s.wakeAll()
			continue
		}
		for _, t := range s.tasks {
			if t.state == sBlock {
				s.tr.Deadlock += fmt.Sprintf(" %s(site %d)", t.name, s.at[t])
			}
		}
		return nil, 0
	}
	if eager := s.eager(ready); len(eager) > 0 {
		ready = eager
	}
	if len(ready) == 1 {
		return ready[0], forever // nobody to switch to; waking somebody up ends the turn
	}
	s.chosen = true
	if s.pol.Fixed || len(s.pol.Explicit) > 0 {
		for s.next < len(s.pol.Explicit) {
			d := s.pol.Explicit[s.next]
			s.next++
			for _, t := range ready {
				if t.id == d.T {
					return t, d.Q
				}
			}
		}
		return s.serial(ready)
	}
	switch s.pol.Mode {
	case "serial":
		return s.serial(ready)
	case "lockstep":
		// the ready task that has taken the fewest steps, one step at a time
		best := ready[0]
		for _, t := range ready[1:] {
			if t.ran < best.ran {
				best = t
			}
		}
		return best, 1 + int(s.rng.N(uint64(max(1, s.pol.Mean))))
	case "pct":
		best := ready[0]
		for _, t := range ready[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		q := int64(forever)
		for c := range s.changes {
			if c > s.total && c-s.total < q {
				q = c - s.total
			}
		}
		if s.changes[s.total] {
			delete(s.changes, s.total)
			best.prio = int(s.rng.N(900))
			return s.decide()
		}
		if q > fair {
			if best.streak++; best.streak > 3 {
				best.streak = 0
				best.prio = int(s.rng.N(900))
			}
			q = fair
		} else {
			best.streak = 0
		}
		return best, int(q)
	}
	t := ready[s.rng.N(uint64(len(ready)))]
	q := 1
	if m := s.pol.Mean; m > 1 {
		q = 1 + int(s.rng.N(uint64(2*m-1)))
	}
	return t, q
}

// fair is how long a task may go on while others are ready, whatever the policy.
const fair = 100_000

// serial lets the first one go on, within reason.
//
//go:norace
func (s *sched) serial(ready []*Task) (*Task, int) {
	t := ready[s.turn%len(ready)]
	if t == s.lastRun {
		if t.streak++; t.streak > 3 {
			t.streak = 0
			s.turn++
			t = ready[s.turn%len(ready)]
		}
	} else {
		t.streak = 0
	}
	return t, fair
}

// eager are the tasks that have not just let others go first.
//
//go:norace
func (s *sched) eager(ready []*Task) (out []*Task) {
	n := 0
	for _, t := range ready {
		if t.passed {
			n++
		}
	}
	if n == 0 || n == len(ready) {
		return nil
	}
	out = ready[:0]
	for _, t := range ready {
		if !t.passed {
			out = append(out, t)
		}
	}
	return out
}

// ---- PRNG -------------------------------------------------------------------

// Rand is splitmix64.
type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes a sequence of numbers.
func Mix(xs ...uint64) uint64 {
	var h uint64 = 0x1234567
	for _, x := range xs {
		h = mix(h ^ x)
	}
	return h
}

func (r *Rand) Seed(s uint64) { r.s = mix(s) }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N is uniform in [0,n).
func (r *Rand) N(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.U64() % n
}
