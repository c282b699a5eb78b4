package world

import (
	"runtime/debug"
	"strconv"
	"unicode/utf8"

	geoql "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
	"geosim/vsim"
)

const (
	fullStack  = 1_000_000_000 // what a goroutine may have
	smallStack = 1 << 18
	levels     = 1000    // nesting that is accepted
	operators  = 100_000 // operators that are accepted
)

// sink takes everything and keeps nothing.
type sink int64

func (s *sink) WriteString(x string) (int, error) { *s += sink(len(x)); return len(x), nil }

// runC31 makes calls on a rule or a text of which one part comes very often. A
// stack that is exhausted ends the process, which the driver notices.
func runC31(op plan.Op, ts *taskState) *Violation {
	n := max(16, op.Reps)
	stack := fullStack
	if op.Deep == "flat" {
		stack = smallStack
		ts.st.fault("stack-limited")
	}
	defer debug.SetMaxStack(debug.SetMaxStack(stack))
	if op.Lex != nil {
		ts.st.fault("long-text")
		return scanAll(op, grow(op.Rounds, n))
	}
	ts.st.fault("large-rule-" + op.Deep)
	var few [2]int
	var started, parks [3]int64
	for i, k := range []int{16, 32} {
		started[i], parks[i] = vsim.Tasks()
		few[i] = -1
		if rule, err := geoql.Parse(grow(op.Rounds, k)); err == nil {
			var out sink
			geoql.Format(&out, rule)
			geoql.CheckType(rule, toDict(op.Dict))
			few[i] = count(rule)
		}
		started[i+1], parks[i+1] = vsim.Tasks()
	}
	// where every part has goroutines of its own or waits for another one, the
	// simulator's time is spent on these
	if per := (started[2] - started[1] - started[1] + started[0]) / 16; per > 0 {
		n = min(n, 1000)
	}
	if per := (parks[2] - parks[1] - parks[1] + parks[0]) / 16; per > 0 {
		n = min(n, int(300_000/per))
	}
	text := grow(op.Rounds, n)
	rule, err := geoql.Parse(text)
	ts.note(strconv.FormatBool(err == nil))
	ts.ops++
	if vsim.Hung() {
		return nil // reported where it happened
	}
	if err != nil {
		must := few[0] >= 0 && few[1] >= 0
		switch op.Deep {
		case "nested":
			must = must && n <= levels/2 // a part may have two levels
		case "chain":
			must = must && n <= operators/3 // or three operators
		}
		if must {
			return violation("refused", "a rule with %d parts is refused, with 32 it is not: %s: %s", n, clip(err.Error()), clip(q(cut(text, 0, 200))))
		}
		if s := err.Error(); s == "" {
			return violation("refused", "a rule is refused without a reason: %s", clip(q(cut(text, 0, 200))))
		}
		return nil
	}
	if rule == nil {
		return violation("refused", "neither a rule nor an error: %s", clip(q(cut(text, 0, 200))))
	}
	var out sink
	if err := geoql.Format(&out, rule); err != nil {
		return violation("refused", "a rule with %d parts cannot be formatted: %v", n, err)
	}
	err = geoql.CheckType(rule, toDict(op.Dict))
	ts.note(strconv.FormatBool(err == nil))
	if got := count(rule); op.Deep != "nested" && few[0] >= 0 && few[1] >= 0 {
		if want := few[0] + (few[1]-few[0])/16*(n-16); got != want {
			return violation("lost", "a rule with %d parts has %d expressions instead of %d: %s", n, got, want, clip(q(cut(text, 0, 200))))
		}
	}
	ts.ops += 3
	return nil
}

// count is how many expressions a traversal offers.
func count(rule geoql.Statement) (n int) {
	geoql.Visit(rule.(geoql.Expr), func(e geoql.Expr) bool {
		if e != nil {
			n++
		}
		return true
	})
	return n
}

// scanAll scans a text to its end.
func scanAll(op plan.Op, text string) *Violation {
	l := &lexRun{cfg: op.Lex}
	src := &endless{unit: text, total: int64(len(text))}
	if text == "" {
		return nil
	}
	if op.In != nil {
		src.sizes = op.In.Chunks
	}
	l.start(src, nil)
	max := 3*utf8.RuneCountInString(text) + 60
	for i := 0; i < max; i++ {
		end := false
		for _, c := range op.Script {
			switch {
			case c == 'S' && l.t != nil:
				tok, _ := l.t.Scan()
				end = end || tok == geoql.EOF
			case c == 'S':
				end = end || l.s.Scan() == scanner.EOF
			case c == 'T' && l.t != nil:
				l.t.TokenText()
			case c == 'T':
				l.s.TokenText()
			case c == 'O' && l.t != nil:
				l.t.Offset()
			case c == 'O':
				l.s.Pos()
			case c == 'R' && l.t != nil && i%2 == 0:
				l.t.Reset()
			case c == 'U' && l.t != nil:
				l.t.Unwind()
			case c == 'P' && l.s != nil:
				end = end || l.s.Peek() == scanner.EOF
			case c == 'N' && l.s != nil:
				end = end || l.s.Next() == scanner.EOF
			case c == 'N':
				tok, _ := l.t.Scan()
				end = end || tok == geoql.EOF
			}
		}
		l.log, l.msgs = l.log[:0], l.msgs[:0]
		if end {
			return nil
		}
	}
	return violation("no-end", "%d scans of a text of %d bytes have not come to its end: %s", max, len(text), clip(q(cut(text, 0, 200))))
}
