package world

import (
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// window is the time between the beginning of a call and its return. What the
// caller supplied may be used then, and only by one goroutine at a time.
type window struct {
	on   bool
	busy map[string]bool
	bad  string
	dead bool   // the visitor has ended the call
	n    int    // calls so far
	seed uint64 // what the caller does between calls
	st   *Stats
}

func (s *Stats) window() *window {
	if s == nil {
		return nil
	}
	return s.win
}

func nothing() {}

// open begins a call; what it returns ends it.
func (w *window) open() func() {
	if w == nil {
		return nothing
	}
	w.on = true
	w.n++
	return func() {
		w.on = false
		for what, busy := range w.busy {
			if busy {
				w.broken(what + " is still at work when the call returns")
			}
		}
	}
}

func (w *window) broken(what string) {
	if w.bad == "" {
		w.bad = what
	}
}

// use is one use of something the caller supplied; what it returns ends it.
func (w *window) use(what string) func() {
	if w == nil {
		return nothing
	}
	if !w.on {
		w.broken(what + " is used when no call is under way")
	}
	if w.dead && what == "the visitor" {
		w.broken(what + " is used after it has ended the call")
	}
	if w.busy[what] {
		w.broken(what + " is used twice at a time")
	}
	if w.busy == nil {
		w.busy = map[string]bool{}
	}
	w.busy[what] = true
	return func() { w.busy[what] = false }
}

// watched is a predicate that notices when it is used.
func (w *window) watched(f func(rune, int) bool) func(rune, int) bool {
	if w == nil || f == nil {
		return f
	}
	return func(ch rune, i int) bool {
		defer w.use("the predicate")()
		vsim.Preempt()
		return f(ch, i)
	}
}

// idle is what the caller of a scanner does between two calls: nothing, let
// others run, or wait. Meanwhile nothing happens to the scanner.
func (w *window) idle(l *lexRun) {
	if w == nil || w.on { // on: the call did not return
		return
	}
	state := func() string {
		s := strconv.Itoa(len(l.msgs))
		if l.s != nil {
			s += " messages, errors: " + strconv.Itoa(l.s.ErrorCount) + ", position: " + pos(l.s.Position)
		}
		return s
	}
	before := state()
	switch vsim.Mix(w.seed, uint64(w.n)) % 8 {
	case 0, 1:
		vsim.Gosched()
	case 2:
		w.st.fault("pause-between-calls")
		vsim.Sleep(time.Millisecond)
	case 3:
		w.st.fault("pause-between-calls")
		vsim.Sleep(7 * time.Second)
	default:
		return
	}
	if after := state(); after != before {
		w.broken("between two calls the scanner changed from " + before + " to " + after)
	}
}

// over watches what calls leave behind.
type over struct {
	ts      *taskState
	windows []*window
	names   []string
	things  []thing
}

func (o *over) keep(what string, show func() string) {
	o.things = append(o.things, thing{what: what, show: show, want: show()})
}

// judge looks at everything that is kept again.
func (o *over) judge(when string) *Violation {
	for i, w := range o.windows {
		if w.bad != "" {
			return violation("over", "%s: %s", o.names[i], w.bad)
		}
	}
	return changed(o.things, when)
}

// runC32 makes a few calls over and over. When one has returned, nothing that
// belongs to it may happen any more.
func (env *Env) runC32(op plan.Op, ts *taskState) (v *Violation) {
	rounds := max(4, op.Reps)
	var at [2][3]int
	var seed uint64
	for _, e := range op.Edits {
		seed = vsim.Mix(seed, e)
	}
	for i := 0; i < 3*rounds; i++ {
		o := &over{ts: ts}
		for j, sub := range op.Seq {
			if v := o.call(env, sub, vsim.Mix(seed, uint64(i), uint64(j))); v != nil {
				return v
			}
			if vsim.Hung() {
				return nil // reported where it happened
			}
			ts.ops++
		}
		vsim.Sleep(time.Minute)
		if v := o.judge("a minute after the last call"); v != nil {
			return v
		}
		g, t := vsim.Left()
		all := runtime.NumGoroutine()
		now := [3]int{g, t, all}
		switch i {
		case rounds / 4:
			at[0] = now
		case rounds - 1:
			at[1] = now
			few := rounds - 1 - rounds/4
			for k := 0; k < 200 && at[1][2]-at[0][2] >= few; k++ { // some are ending
				time.Sleep(100 * time.Microsecond)
				at[1][2] = min(at[1][2], runtime.NumGoroutine())
			}
			if at[1][0]-at[0][0] < few && at[1][1]-at[0][1] < few && at[1][2]-at[0][2] < few {
				if op.All {
					vsim.Sleep(10 * time.Minute)
					return o.judge("ten minutes after the last call")
				}
				return nil
			}
		case 3*rounds - 1: // do they go on piling up?
			for k := 0; k < 200 && now[2]-at[1][2] >= 2*rounds; k++ {
				time.Sleep(100 * time.Microsecond)
				now[2] = min(now[2], runtime.NumGoroutine())
			}
			for k, what := range []string{"goroutines", "timers", "coroutines"} {
				if n := at[1][k] - at[0][k]; n >= rounds-1-rounds/4 && now[k]-at[1][k] >= 2*rounds {
					return violation("left", "%d rounds of %s left %d %s behind, another %d rounds another %d", rounds, history(op), at[1][k], what, 2*rounds, now[k]-at[1][k])
				}
			}
		}
	}
	return nil
}

// call makes one call and keeps what came of it.
func (o *over) call(env *Env, op plan.Op, seed uint64) *Violation {
	ts := o.ts
	w := &window{seed: seed, st: ts.st}
	o.windows = append(o.windows, w)
	o.names = append(o.names, opName(op))
	ts.st.win = w
	defer func() { ts.st.win = nil }()
	f := func() { o.make(env, op, w) }
	switch {
	case op.Ends(): // the goroutine that makes the call, too
		var done atomic.Bool
		g := f
		f = func() {
			vsim.Go(func() {
				defer done.Store(true)
				defer func() { recover() }()
				g()
			})
			for !done.Load() {
				vsim.Block()
			}
		}
		f()
	case op.Interrupting():
		guarded(f)
	default:
		f()
	}
	w.on = false
	if vsim.Hung() {
		return violation("hang", "%s does not end", opName(op))
	}
	switch vsim.Mix(seed, 7) % 4 {
	case 0, 1:
		return nil // on to the next call at once
	case 2:
		for i := 0; i < 10; i++ {
			vsim.Gosched()
		}
	case 3:
		vsim.Sleep(time.Duration(1+seed%3000) * time.Millisecond)
	}
	return o.judge("after " + opName(op) + " had returned")
}

func (o *over) make(env *Env, op plan.Op, w *window) {
	ts := o.ts
	text := plan.TextBytes(op.Text, op.Hex)
	name := opName(op)
	fail := func(err error) {
		if err != nil {
			o.keep("the error of "+name, err.Error)
		}
		ts.note(errText(err))
	}
	switch op.Kind {
	case "lex":
		l := &lexRun{text: text, cfg: op.Lex, st: ts.st, win: w}
		l.start(newReader(text, op.In, ts.st), nil)
		l.run(op.Script, op.Reps)
		l.literals()
		n := len(l.msgs)
		o.keep("the scan "+name, func() string {
			if l.literals(); l.bad != "" {
				return l.bad
			}
			return strconv.Itoa(n-len(l.msgs)) + " messages"
		})
		if l.t != nil {
			fail(l.t.Err())
		}
		ts.note(strings.Join(l.log, "\n"))
		return
	case "keyword":
		return
	}
	var rule geoql.Statement
	var err error
	func() {
		defer w.open()()
		rule, err = geoql.Parse(text)
	}()
	if err != nil {
		fail(err)
		if rule != nil {
			o.keep("what "+name+" returned with an error", func() string { return dump(rule, true) })
		}
		if !op.Sour {
			ts.skipped++
		}
		return
	}
	o.keep("the rule of "+name, func() string { return dump(rule, true) })
	if seed := vsim.Mix(w.seed, 9); seed%4 == 0 {
		vsim.Sleep(time.Millisecond)
	}
	switch op.Kind {
	case "format":
		out := newWriter(op.Out, ts.st)
		func() {
			defer w.open()()
			err = geoql.Format(dress(out, int(w.seed%3)), rule)
		}()
		o.keep("the output of "+name, func() string { return string(out.Buf) + " in " + strconv.Itoa(out.Calls) + " writes" })
		ts.note(string(out.Buf))
		fail(err)
	case "check":
		d := toDict(op.Dict)
		o.keep("the dictionary of "+name, func() string { return dump(d, false) })
		func() {
			defer w.open()()
			err = geoql.CheckType(rule, d)
		}()
		fail(err)
	case "walk":
		var seen []geoql.Expr
		func() {
			defer w.open()()
			seen = traverse(rule.(geoql.Expr), op.Walk, ts.st, nil, nil)
		}()
		ts.note(strconv.Itoa(len(seen)))
	}
}
