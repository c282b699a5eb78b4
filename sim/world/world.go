// Package world runs simulated episodes against the instrumented library and
// judges what it did.
package world

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// Violation and Result are shared with the driver, which does not know the library.
type (
	Violation = plan.Violation
	Result    = plan.Result
)

func violation(class, format string, args ...any) *Violation {
	return &Violation{Class: class, Detail: fmt.Sprintf(format, args...)}
}

// Capture is where standard output and error of the library go during a run.
var Capture *os.File

func stderrSize() int64 {
	if Capture == nil {
		return 0
	}
	fi, err := Capture.Stat()
	if err != nil {
		return 0
	}
	return fi.Size()
}

// CaptureSize is how much has been captured.
func CaptureSize() int64 { return stderrSize() }

// CaptureFrom is what has been captured since.
func CaptureFrom(from int64, max int) string {
	if Capture == nil {
		return ""
	}
	b := make([]byte, max)
	n, _ := Capture.ReadAt(b, from)
	return string(b[:n])
}

// CaptureReset keeps the file small.
func CaptureReset() {
	if Capture != nil && stderrSize() > 1<<20 {
		Capture.Truncate(0)
	}
}

func stderrTail(from int64) string {
	b := make([]byte, 300)
	n, _ := Capture.ReadAt(b, from)
	return string(b[:n])
}

// budget is the number of steps an operation on n bytes may take: far more than
// it needs, far less than for ever.
func budget(n int) int64 { return 400_000 + 10_000*int64(n) }

func opSize(op plan.Op) int {
	n := 1 + len(op.Text) + len(op.Hex) + len(op.Script)/8
	for _, r := range op.Rounds {
		n += 2 * (len(r.Text) + len(r.Hex) + 100*len(r.Out))
	}
	if op.All {
		n *= 200
	}
	if op.In != nil {
		n += len(op.In.Chunks)
	}
	n *= 1 + len(op.Edits)
	for _, u := range op.Seq {
		n += opSize(u)
		if u.Repeat > 1 {
			n += (u.Repeat - 1) * (len(op.Text) + len(op.Hex) + 20)
		}
	}
	if op.Side != nil {
		n += opSize(*op.Side)
	}
	if op.Kind == "stream" {
		n += op.Reps * max(1, len(op.Text)) / 10
	}
	if op.Kind == "converse" {
		n *= 3
	}
	if op.Kind == "history" || op.Kind == "over" {
		n *= max(16, op.Reps)
	}
	if op.Kind == "deep" {
		for _, r := range op.Rounds {
			n += 30 * (len(r.Text) + len(r.Hex)) * max(16, op.Reps)
		}
	}
	if op.Kind == "growth" {
		for _, r := range op.Rounds {
			n += 4 * (len(r.Text) + len(r.Hex)) * max(16, op.Reps)
		}
	}
	return n * op.Times()
}

// taskState is what one simulated caller knows; tasks never share one.
type taskState struct {
	st      *Stats
	viol    *Violation
	skipped int
	ops     int
	hash    uint64
	over    bool // the goroutine ended as planned
	results []string
	held    []*keptRule // C25: rules the program keeps
	keeper  *keeper     // C28
}

func (t *taskState) note(s string) {
	h := t.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	t.hash = vsim.Mix(h)
}

// Env is what the tasks of an episode share.
type Env struct {
	Prop   string
	Golden map[string]string
	Ep     *plan.Episode

	rule geoql.Statement
	dict geoql.Dictionary // C08: changed between calls by the one task; C10: read only
	rerr error
}

// Run executes one episode.
func Run(prop string, ep *plan.Episode, golden map[string]string) (res *Result) {
	res = &Result{Faults: map[string]int{}, Sites: map[string]int{}}
	vsim.SetMapSeed(ep.MapSeed)
	vsim.SetRandSeed(ep.Seed)
	walks := vsim.MapWalks()
	env := &Env{Prop: prop, Golden: golden, Ep: ep}
	size := 0
	for _, t := range ep.Tasks {
		for _, op := range t.Ops {
			size += opSize(op)
		}
	}
	vsim.ResetSteps(budget(size + len(ep.Rule)*8))
	races := vsim.RaceErrors()
	var before string
	if ep.Rule != "" {
		vsim.Run(vsim.Policy{Mode: "serial"}, func() { env.rule, env.rerr = geoql.Parse(ep.Rule) })
		env.dict = toDict(ep.Dict)
		if env.rerr != nil {
			res.Skipped++
			return res
		}
		before = dump(env.rule, true) + dump(env.dict, false)
	} else if prop == "C08" {
		env.dict = geoql.Dict()
	}
	states := make([]*taskState, len(ep.Tasks))
	var fs []func()
	for i := range ep.Tasks {
		st := &taskState{st: newStats()}
		states[i] = st
		ops := ep.Tasks[i].Ops
		fs = append(fs, func() { env.task(st, ops) })
	}
	pol := ep.Policy
	vsim.Fired()
	outside := surroundings(prop)
	pol.Bare = prop == "C22" || prop == "C27" || prop == "C31"
	tr := vsim.Run(pol, fs...)
	res.Decs = tr.Decs
	res.SimNs = int64(tr.Clock)
	res.Switches = tr.Switches
	res.Steps = tr.Yields
	res.MapWalks = vsim.MapWalks() - walks
	for p, n := range tr.Pairs {
		res.Pairs = append(res.Pairs, [3]int{int(p[0]), int(p[1]), n})
	}
	if prop == "C28" {
		keepOn(states)
	}
	for k, n := range vsim.Fired() {
		res.Faults[k] += n
	}
	h := tr.Hash
	for i, st := range states {
		h = vsim.Mix(h, st.hash, uint64(i))
		res.Skipped += st.skipped
		res.Ops += st.ops
		for k, n := range st.st.Faults {
			res.Faults[k] += n
		}
		for k, n := range st.st.Sites {
			res.Sites[k] += n
		}
	}
	res.Hash = h
	if tr.Deadlock != "" {
		res.Poisoned = true
		res.Viol = violation("blocked", "callers wait for one another for ever:%s", tr.Deadlock)
		return res
	}
	if now := surroundings(prop); now != outside {
		res.Viol = violation("outside", "the calls changed something outside: %s", diffAt(now, outside))
	}
	if n := vsim.RaceErrors() - races; n > 0 {
		res.Viol = violation("race", "%d data race(s) between concurrent callers", n)
	}
	for i, st := range states {
		if st.viol != nil && (res.Viol == nil || res.Viol.Class == "race") {
			v := *st.viol
			if len(states) > 1 {
				v.Detail = "caller " + strconv.Itoa(i) + ": " + v.Detail
			}
			res.Viol = &v
		}
	}
	if res.Viol == nil && ep.Rule != "" {
		if after := dump(env.rule, true) + dump(env.dict, false); after != before {
			res.Viol = violation("changed", "the shared rule or dictionary was changed: %s", diffAt(after, before))
		}
	}
	return res
}

// surroundings is what calls have to leave alone besides what they are given.
func surroundings(prop string) string {
	if prop != "C30" {
		return ""
	}
	wd, _ := os.Getwd()
	return fmt.Sprintf("bytes printed: %d, time zone: %s, directory: %s, environment: %q", stderrSize(), time.Local, wd, os.Environ())
}

func diffAt(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("...%s instead of ...%s", q(cut(got, from, min(120, len(got)-from))), q(cut(want, from, min(120, len(want)-from))))
}

func toDict(d map[string]int) geoql.Dictionary {
	out := geoql.Dict()
	for k, v := range d {
		out[k] = geoql.SelectorType(v)
	}
	return out
}

// task runs the operations of one caller one after another.
func (env *Env) task(ts *taskState, ops []plan.Op) {
	for _, op := range ops {
		if ts.viol != nil {
			return
		}
		stall(op.Delay)
		ts.ops++
		env.op(ts, op)
	}
	if len(ts.held) > 0 && ts.viol == nil {
		ts.viol = env.heldAgain(ts)
	}
	if ts.keeper != nil && ts.viol == nil {
		ts.viol = ts.keeper.finish(ts)
	}
}

// op runs one operation; a panic that was not asked for is a violation.
func (env *Env) op(ts *taskState, op plan.Op) {
	defer func() {
		e := recover()
		if vsim.Hung() {
			if ts.viol == nil {
				ts.viol = violation("hang", "%s does not end", opName(op))
			}
			return
		}
		if e != nil && ts.viol == nil {
			ts.viol = violation("panic", "%s: %v", opName(op), e)
		}
	}()
	var v *Violation
	switch env.Prop {
	case "C01":
		v = runC01(op, ts.st)
	case "C02":
		v = runC02(op, ts.st)
	case "C03":
		v = runC03(op, ts.st)
	case "C04":
		v = runC04(op, ts.st)
	case "C05":
		v = runC05(op, ts)
	case "C06":
		v = runC06(op, ts)
	case "C11":
		v = runC11(op, ts)
	case "C21":
		v = runC21(op, ts)
	case "C22":
		v = runC22(op, ts)
	case "C23":
		v = runC23(op, ts.st)
	case "C25":
		v = env.runC25(op, ts)
	case "C27":
		v = env.runC27(op, ts)
	case "C28":
		v = env.runC28(op, ts)
	case "C26":
		v = runC26(op, ts.st)
	case "C29":
		v = runC29(op, ts.st)
	case "C31":
		v = runC31(op, ts)
	case "C32":
		v = env.runC32(op, ts)
	default:
		v = env.golden(ts, op)
	}
	if v != nil {
		ts.viol = v
	}
}

func opName(op plan.Op) string {
	t := plan.TextBytes(op.Text, op.Hex)
	if len(t) > 60 {
		t = t[:60] + "..."
	}
	return op.Kind + " " + q(t)
}

// golden compares what a call returns with what it returns alone in a fresh process.
func (env *Env) golden(ts *taskState, op plan.Op) *Violation {
	if op.Kind == "use" {
		rule, err := geoql.Parse(plan.TextBytes(op.Text, op.Hex))
		if err != nil {
			ts.skipped++
			return nil
		}
		for _, sub := range op.Uses() {
			if v := env.calls(ts, sub, func(s *side) string { return env.execOn(rule, sub, ts.st, s) }); v != nil {
				return v
			}
		}
		scribble(rule)
		return nil
	}
	return env.calls(ts, op, func(s *side) string { return env.Exec(op, ts.st, s) })
}

// calls makes a call as often as it is to be made.
func (env *Env) calls(ts *taskState, op plan.Op, f func(*side) string) *Violation {
	for i := 0; i < op.Times(); i++ {
		var s *side
		if op.Side != nil && i == 0 {
			s = &side{env: env, ts: ts, op: *op.Side, left: op.SideAt, inline: op.Inline}
		}
		if op.Interrupting() {
			env.interrupted(func() { f(s) })
			if vsim.Hung() {
				return violation("hang", "%s does not end", opName(op))
			}
		} else if v := env.compare(ts, op, f(s)); v != nil {
			return v
		}
		if s != nil && s.viol != nil {
			return s.viol
		}
	}
	return nil
}

// side is a call that the caller's own source, destination or visitor waits for
// in the middle of another call, and that another goroutine makes.
type side struct {
	env  *Env
	ts   *taskState
	op   plan.Op
	left int
	done atomic.Bool
	viol *Violation

	inline bool // from inside, not by another goroutine
}

// tick is one read, write or visit.
func (s *side) tick() {
	if s == nil || s.left < 0 {
		return
	}
	if s.left--; s.left >= 0 {
		return
	}
	ts := &taskState{st: newStats()}
	if s.inline {
		s.ts.st.fault("call-from-inside")
		s.env.op(ts, s.op)
	} else {
		s.ts.st.fault("wait-for-other-goroutine")
		vsim.Go(func() {
			defer s.done.Store(true)
			s.env.op(ts, s.op)
		})
		for !s.done.Load() {
			vsim.Block()
		}
	}
	s.ts.ops++
	s.ts.note(strconv.FormatUint(ts.hash, 36))
	for k, n := range ts.st.Faults {
		s.ts.st.Faults[k] += n
	}
	if ts.viol != nil {
		v := *ts.viol
		if s.inline {
			v.Detail = "from inside another call: " + v.Detail
		} else {
			v.Detail = "while another call waits for it: " + v.Detail
		}
		s.viol = &v
	}
}

// changedMark stands in the result of a check that changed what it looked at.
const changedMark = "\nchanged: "

// setDict brings the one dictionary of this process to the wanted contents.
func setDict(dict geoql.Dictionary, want map[string]int) {
	for k := range dict {
		if _, ok := want[k]; !ok {
			delete(dict, k)
		}
	}
	for k, v := range want {
		if dict[k] != geoql.SelectorType(v) {
			dict[k] = geoql.SelectorType(v)
		}
	}
}

func (env *Env) compare(ts *taskState, op plan.Op, got string) *Violation {
	if !utf8.ValidString(got) {
		got = q(got) // expected results travel as JSON
	}
	ts.note(got)
	if got == rejected {
		ts.skipped++
	}
	if env.Golden == nil {
		ts.results = append(ts.results, got)
		return nil
	}
	if i := strings.Index(got, changedMark); i >= 0 && env.Prop == "C08" {
		return violation("changed", "checking changed the rule or the dictionary: %s", got[i+len(changedMark):])
	}
	if !judged(env.Prop, op.Kind) {
		return nil // part of the history only
	}
	want, ok := env.Golden[op.Key()]
	if !ok {
		return violation("harness", "no expected result for %s", op.Key())
	}
	if got != want {
		return violation("differs", "%s does not return what it returns alone in a fresh process: %s", opName(op), diffAt(got, want))
	}
	return nil
}

// judged tells whether a property says anything about what such a call returns.
func judged(prop, kind string) bool {
	switch prop {
	case "C07":
		return kind == "format" || kind == "keyword"
	case "C08":
		return kind == "check"
	}
	return true
}

// interrupted runs a call that its own reader, writer, visitor or handler ends.
// What it returns does not matter, only what it leaves behind.
func (env *Env) interrupted(f func()) {
	defer func() {
		if !vsim.Hung() {
			recover()
		}
	}()
	f()
}

// Solo is what an operation returns when it is all that a process does.
func Solo(prop string, op plan.Op) (string, *Violation) {
	op = op.Alone()
	op.Fresh = true
	ep := &plan.Episode{Policy: vsim.Policy{Mode: "serial"}}
	vsim.SetMapSeed(0)
	vsim.SetRandSeed(0)
	vsim.ResetSteps(budget(opSize(op)))
	env := &Env{Prop: prop, Ep: ep}
	ts := &taskState{st: newStats()}
	vsim.Run(ep.Policy, func() { env.task(ts, []plan.Op{op}) })
	if ts.viol != nil {
		return "", ts.viol
	}
	return strings.Join(ts.results, "\n"), nil
}
