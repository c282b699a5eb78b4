package world

import (
	"fmt"
	"strconv"
	"strings"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// cost is what one kind of call took.
type cost struct {
	steps  int64 // statements of the library
	alloc  uint64
	output int // bytes written
}

// metered runs one call.
func metered(f func()) cost {
	s0, a0 := meter()
	f()
	s1, a1 := meter()
	return cost{steps: s1 - s0, alloc: a1 - a0}
}

// grow is the text with n of every repeated part.
func grow(parts []plan.Round, n int) string {
	var b strings.Builder
	for _, p := range parts {
		text := plan.TextBytes(p.Text, p.Hex)
		if p.Calls == 0 {
			b.WriteString(text)
			continue
		}
		for i := 0; i < n; i++ {
			b.WriteString(strings.ReplaceAll(text, "#", strconv.Itoa(i)))
		}
	}
	return b.String()
}

// runC27 watches what calls cost.
func (env *Env) runC27(op plan.Op, ts *taskState) *Violation {
	if op.Kind == "history" {
		return env.history(op, ts)
	}
	ts.st.fault("large-rule")
	names := []string{"Parse", "Format", "CheckType", "Walk"}
	var last []cost
	for n := 8; n <= max(16, op.Reps); n *= 2 {
		text := grow(op.Rounds, n)
		now := make([]cost, len(names))
		var rule geoql.Statement
		var err error
		now[0] = metered(func() { rule, err = geoql.Parse(text) })
		if err == nil {
			w := newWriter(op.Out, ts.st)
			now[1] = metered(func() { geoql.Format(w, rule) })
			now[1].output = len(w.Buf)
			dict := toDict(op.Dict)
			if op.All {
				for i := 0; i < n; i++ {
					dict["extra"+strconv.Itoa(i)] = geoql.SelectorType(1 + i%7)
				}
			}
			now[2] = metered(func() { err = geoql.CheckType(rule, dict) })
			ts.note(errText(err))
			root := rule.(geoql.Expr)
			now[3] = metered(func() { geoql.Visit(root, func(e geoql.Expr) bool { now[3].output++; return true }) })
		} else {
			ts.note(errText(err))
			if !op.Sour {
				ts.skipped++
			}
		}
		for i, c := range now {
			if last == nil || c.steps == 0 {
				continue
			}
			l := last[i]
			what := ""
			switch {
			case c.steps > 5*l.steps+5000:
				what = fmt.Sprintf("%d steps instead of %d", c.steps, l.steps)
			case c.output > 5*l.output+5000:
				what = fmt.Sprintf("%d bytes of output instead of %d", c.output, l.output)
			case c.alloc > 6*l.alloc+1<<16:
				what = fmt.Sprintf("%d bytes of memory instead of %d", c.alloc, l.alloc)
			default:
				continue
			}
			return violation("growth", "%s of a rule with twice as many parts (%d): %s: %s", names[i], n, what, clip(q(text)))
		}
		last = now
		ts.ops++
		if len(text) > 60_000 {
			break
		}
	}
	return nil
}

// history makes the same calls over and over.
func (env *Env) history(op plan.Op, ts *taskState) *Violation {
	ts.st.fault("long-history")
	for _, sub := range op.Seq {
		if strings.Contains(sub.Text, serial) {
			ts.st.fault("ever-new-names")
			break
		}
	}
	rounds := max(16, op.Reps)
	warm := rounds / 4
	st := newStats()
	round := func(i int) {
		for _, sub := range op.Seq {
			sub.Text = numbered(sub.Text, int64(i))
			if sub.Interrupting() {
				env.interrupted(func() { env.Exec(sub, st, nil) })
			} else {
				env.Exec(sub, st, nil)
			}
		}
	}
	var early, late int64
	var held0 uint64
	for i := 0; i < rounds; i++ {
		s0 := vsim.Steps()
		round(i)
		n := vsim.Steps() - s0
		switch {
		case vsim.Hung():
			return nil // reported where it happened
		case i < warm:
			early = max(early, n)
		case i == warm:
			held0 = held()
		case i >= rounds-warm:
			if late == 0 || n < late {
				late = n
			}
		}
	}
	for k, n := range st.Faults {
		ts.st.Faults[k] += n
	}
	ts.ops += rounds * len(op.Seq)
	grown := int64(held()) - int64(held0)
	if late > 2*early+1000 {
		return violation("growth", "%d rounds of %s took at most %d steps each at first and at least %d at the end", rounds, history(op), early, late)
	}
	calls := (rounds - warm) * len(op.Seq)
	if grown > 1<<15 {
		return violation("memory", "%d bytes more are held after another %d calls: %s", grown, calls, history(op))
	}
	return nil
}

func history(op plan.Op) string {
	var names []string
	for _, s := range op.Seq {
		names = append(names, opName(s))
	}
	return strings.Join(names, ", ")
}
