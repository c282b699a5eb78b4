package world

import (
	"fmt"
	"strconv"
	"strings"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// thing is something that a call returned or handed over.
type thing struct {
	what  string
	show  func() string
	want  string
	spoil func() // changes it, as its owner may
}

// keeper is what one caller keeps.
type keeper struct {
	things []thing
	seen   int
	paused []pausedScan
}

// pausedScan is a scan that was set aside.
type pausedScan struct {
	l    *lexRun
	op   plan.Op
	at   int
	name string
}

const keepMost = 300

// text keeps a string as it was handed over.
func (k *keeper) text(what, s string) {
	if k == nil || s == "" {
		return
	}
	k.add(thing{what: what, show: func() string { return s }, want: strings.Clone(s)})
}

// any keeps something by what it looks like.
func (k *keeper) any(what string, spoil func(), show func() string) {
	if k != nil {
		k.add(thing{what: what, show: show, want: show(), spoil: spoil})
	}
}

func (k *keeper) add(t thing) {
	k.seen++
	if len(k.things) < keepMost {
		k.things = append(k.things, t)
	} else if i := int(vsim.Mix(uint64(k.seen)) % uint64(k.seen)); i < keepMost {
		k.things[i] = t
	}
}

func (k *keeper) err(what string, err error) {
	if err == nil {
		return
	}
	k.any("the error of "+what, nil, func() string { return fmt.Sprintf("%T ", err) + q(err.Error()) + dump(err, false) })
}

func (k *keeper) rule(what string, rule geoql.Statement) {
	k.any("the rule of "+what, func() { scribble(rule) }, func() string { return dump(rule, true) })
}

// changed looks for a thing that is no longer what it was.
func changed(things []thing, when string) *Violation {
	for _, t := range things {
		if got := t.show(); got != t.want {
			return violation("changed", "%s changed %s: %s", t.what, when, diffAt(got, t.want))
		}
	}
	return nil
}

// keptAll is what is kept from earlier episodes of this process. During an
// episode it is only read.
var keptAll []thing

// keepOn keeps some of what the callers of an episode kept.
func keepOn(states []*taskState) {
	for _, st := range states {
		if st.keeper == nil {
			continue
		}
		n := len(st.keeper.things)
		for i, t := range st.keeper.things {
			if n <= 40 || i*40/n != (i+1)*40/n {
				keptAll = append(keptAll, t)
			}
		}
	}
	if n := len(keptAll); n > 400 {
		keptAll = append([]thing(nil), keptAll[n-400:]...)
	}
}

// runC28 makes a call and keeps everything that comes out of it.
func (env *Env) runC28(op plan.Op, ts *taskState) *Violation {
	if ts.keeper == nil {
		ts.keeper = &keeper{}
	}
	k := ts.keeper
	k.all(env, op, ts)
	if v := changed(k.things, "after "+opName(op)); v != nil {
		return v
	}
	if part := len(keptAll); part > 0 { // one of many of what is left of earlier runs
		i := int(vsim.Mix(uint64(ts.ops), ts.hash) % uint64(part))
		if v := changed(keptAll[i:min(part, i+20)], "after "+opName(op)); v != nil {
			return v
		}
	}
	return nil
}

func (k *keeper) all(env *Env, op plan.Op, ts *taskState) {
	ts.st.keep = k
	defer func() { ts.st.keep = nil }()
	name := opName(op)
	text := plan.TextBytes(op.Text, op.Hex)
	if op.Interrupting() {
		env.interrupted(func() { env.Exec(op, ts.st, nil) })
		return
	}
	switch op.Kind {
	case "lex":
		if op.Reps > 0 {
			ts.st.fault("scan-set-aside")
			l := scan(text, op.Lex, op.Script, newReader(text, op.In, ts.st), ts.st, op.Reps)
			if !l.eof {
				k.paused = append(k.paused, pausedScan{l, op, op.Reps, name})
			}
			return
		}
		l := scan(text, op.Lex, op.Script, newReader(text, op.In, ts.st), ts.st, 0)
		if l.t != nil {
			k.err("scanning "+name, l.t.Err())
		}
		ts.note(strings.Join(l.log, "\n"))
		return
	case "keyword":
		n, _ := strconv.Atoi(text)
		k.text("a keyword", geoql.KeywordString(geoql.Token(n)))
		return
	}
	rule, err := geoql.Parse(text)
	if err != nil {
		k.err(name, err)
		ts.note(errText(err))
		if !op.Sour {
			ts.skipped++
		}
		return
	}
	k.rule(name, rule)
	switch op.Kind {
	case "format":
		w := newWriter(op.Out, ts.st)
		err := geoql.Format(w, rule)
		k.err(name, err)
		ts.note(string(w.Buf))
	case "check":
		d := geoql.Dict()
		empty := geoql.Dict()
		for n, t := range op.Dict {
			d[n] = geoql.SelectorType(t)
		}
		k.any("a new dictionary", nil, func() string { return dump(empty, false) })
		k.any("a dictionary", func() { clear(d); d["other"] = 1 }, func() string { return dump(d, false) })
		err := geoql.CheckType(rule, d)
		k.err(name, err)
		ts.note(errText(err))
	case "walk":
		for _, e := range traverse(rule.(geoql.Expr), op.Walk, ts.st, nil, nil) {
			if t, ok := e.(fmt.Stringer); ok {
				k.text("the text of an expression", t.String())
			}
		}
	}
}

// finish takes up the scans that were set aside, and changes one of the rules.
func (k *keeper) finish(ts *taskState) (v *Violation) {
	defer func() {
		e := recover()
		if vsim.Hung() {
			v = violation("hang", "going on with a scan does not end")
		} else if e != nil {
			v = violation("panic", "going on with what was kept: %v", e)
		}
	}()
	for _, p := range k.paused {
		ts.st.fault("scan-taken-up")
		p.l.resume(p.op.Script, p.at)
		p.l.literals()
		text := plan.TextBytes(p.op.Text, p.op.Hex)
		l := scan(text, p.op.Lex, p.op.Script, newReader(text, p.op.In, nil), nil, 0)
		if d := firstDiff(p.l.log, l.log); d != "" {
			return violation("resumed", "%s, set aside after %d calls and taken up again: %s", p.name, p.at, d)
		}
		if p.l.bad != "" {
			return violation(p.l.badKnd, "%s, set aside after %d calls and taken up again: %s", p.name, p.at, p.l.bad)
		}
	}
	if v := changed(k.things, "after going on with other scans"); v != nil {
		return v
	}
	var own []int
	for i, t := range k.things {
		if t.spoil != nil {
			own = append(own, i)
		}
	}
	if len(own) == 0 {
		return nil
	}
	i := own[vsim.Mix(uint64(k.seen))%uint64(len(own))]
	t := k.things[i]
	k.things = append(append([]thing(nil), k.things[:i]...), k.things[i+1:]...)
	t.spoil()
	return changed(k.things, "when the caller changed "+t.what)
}
