package world

import (
	"io"
	"strconv"
	"strings"

	geoql "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
	"geosim/vsim"
)

// rejected is the result of an operation whose rule the parser does not accept.
const rejected = "(the parser does not accept the rule)"

// bare hides everything but WriteString.
type bare struct{ io.StringWriter }

// rich has what buffered destinations usually have.
type rich struct{ *SimWriter }

func (w rich) WriteByte(c byte) error { _, err := w.put(string([]byte{c})); return err }
func (w rich) WriteRune(r rune) (int, error) {
	return w.put(string(r))
}
func (w rich) Flush() error   { return nil }
func (w rich) Sync() error    { return nil }
func (w rich) Grow(int)       {}
func (w rich) Available() int { return 16 }
func (w rich) Buffered() int  { return 0 }
func (w rich) Len() int       { return len(w.Buf) }
func (w rich) Close() error {
	w.sticky = io.ErrClosedPipe
	return nil
}

// dress picks what else the destination can do.
func dress(w *SimWriter, i int) io.StringWriter {
	switch i % 3 {
	case 1:
		return bare{w}
	case 2:
		return rich{w}
	}
	return w
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return "error " + q(err.Error())
}

// Exec is one call (or one scan) and everything that can be seen of it.
func (env *Env) Exec(op plan.Op, st *Stats, sd *side) string {
	text := plan.TextBytes(op.Text, op.Hex)
	switch op.Kind {
	case "lex":
		r := newReader(text, op.In, st)
		r.side = sd
		l := scan(text, op.Lex, op.Script, r, st, 0)
		l.literals()
		out := strings.Join(l.log, "\n")
		for _, m := range l.msgs {
			out += "\nmessage " + q(m)
		}
		if l.t != nil {
			out += "\n" + errText(l.t.Err()) + " " + strconv.Itoa(l.t.ErrorCount())
		}
		if l.badKnd != "" {
			out += "\n" + l.badKnd + " " + l.bad
		}
		return out
	case "edited":
		return env.edited(op, st)
	case "parse":
		rule, err := geoql.Parse(text)
		if err != nil {
			return errText(err)
		}
		out := dump(rule, true)
		scribble(rule)
		return out
	case "keyword":
		n, _ := strconv.Atoi(text)
		out := q(geoql.KeywordString(geoql.Token(n)))
		if env.Prop != "C07" { // the other tables
			out += " " + strconv.Itoa(geoql.Token(n).Precedence()) + " " + q(scanner.TokenString(rune(-n))) + " " + q(scanner.TokenString(rune(n)))
			out += " " + q(geoql.Unit(n).String()) + " " + q(geoql.Sign(n).String())
		}
		return out
	}
	rule := env.rule
	if !op.Shared {
		var err error
		if rule, err = geoql.Parse(text); err != nil {
			return rejected
		}
	}
	return env.execOn(rule, op, st, sd)
}

// execOn is one call on a parsed rule.
func (env *Env) execOn(rule geoql.Statement, op plan.Op, st *Stats, sd *side) string {
	switch op.Kind {
	case "format":
		w := newWriter(op.Out, st)
		w.side = sd
		err := geoql.Format(w, rule)
		out := string(w.Buf) + "\n"
		if w.AfterError > 0 {
			out += "written to after a failed write "
		}
		if len(w.Errs) > 0 {
			if sameErr(err, w.Errs[0]) {
				return out + "the error of the destination"
			}
			return out + "not the error of the destination: " + errText(err)
		}
		return out + errText(err)
	case "check":
		dict := env.dict
		if !op.Shared && (env.Prop != "C08" || op.Fresh) {
			dict = toDict(op.Dict)
		}
		if env.Prop == "C08" && !op.Fresh {
			setDict(dict, op.Dict)
		}
		before := ""
		if !op.Shared {
			before = dump(rule, true) + dump(dict, false)
		}
		out := errText(geoql.CheckType(rule, dict))
		if !op.Shared {
			if after := dump(rule, true) + dump(dict, false); after != before {
				out += changedMark + diffAt(after, before)
			}
		}
		return out
	case "walk":
		var b strings.Builder
		root := rule.(geoql.Expr)
		for i, e := range traverse(root, op.Walk, st, sd, nil) {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(shortExpr(e))
		}
		return b.String()
	}
	return "unknown operation " + op.Kind
}

// visitorFunc is a visitor made from a function.
type visitorFunc struct{ f func(geoql.Expr) bool }

func (v *visitorFunc) Visit(e geoql.Expr) geoql.Visitor {
	if v.f(e) {
		return v
	}
	return nil
}

// declines tells which expressions the visitor declines: by their number in
// source order.
func declines(cfg *plan.WalkCfg, all []geoql.Expr) func(geoql.Expr) bool {
	if cfg.Decline == 0 {
		return func(geoql.Expr) bool { return false }
	}
	num := make(map[geoql.Expr]int, len(all))
	for i, e := range all {
		num[e] = i
	}
	return func(e geoql.Expr) bool {
		i, ok := num[e]
		if ok && i == 0 && cfg.Decline%4 != 0 {
			return false // declining the whole rule is legal but dull
		}
		return ok && int(vsim.Mix(cfg.Decline, uint64(i))%100) < cfg.Percent
	}
}

// traverse runs one traversal and returns what the visitor was offered.
func traverse(root geoql.Expr, cfg *plan.WalkCfg, st *Stats, sd *side, reenter func()) []geoql.Expr {
	if cfg == nil {
		cfg = &plan.WalkCfg{}
	}
	all := nodes(root)
	start := all[cfg.Root%len(all)]
	decline := declines(cfg, all)
	var seen []geoql.Expr
	win := st.window()
	f := func(e geoql.Expr) bool {
		defer win.use("the visitor")()
		if e == nil {
			return true
		}
		vsim.Preempt()
		sd.tick()
		seen = append(seen, e)
		n := len(seen)
		if cfg.Abort > 0 && n == 1+(cfg.Abort-1)%len(all) {
			st.fault("visitor-" + cfg.How)
			if win != nil {
				win.dead = true
			}
			interrupt(cfg.How)
		}
		if cfg.Reenter > 0 && n == 1+(cfg.Reenter-1)%len(all) && reenter != nil {
			st.fault("visitor-reenter")
			reenter()
		}
		if decline(e) {
			st.fault("visitor-decline")
			return false
		}
		return true
	}
	if cfg.Func {
		geoql.Visit(start, f)
	} else {
		geoql.Walk(&visitorFunc{f}, start)
	}
	return seen
}

// ---- C11 --------------------------------------------------------------------

func runC11(op plan.Op, ts *taskState) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	rule, err := geoql.Parse(text)
	if err != nil {
		ts.skipped++
		return nil
	}
	cfg := op.Walk
	if cfg == nil {
		cfg = &plan.WalkCfg{}
	}
	root := rule.(geoql.Expr)
	all := nodes(root)
	before := dump(rule, true)
	decline := declines(cfg, all)
	var expect func(e geoql.Expr) []geoql.Expr
	expect = func(e geoql.Expr) []geoql.Expr {
		out := []geoql.Expr{e}
		if decline(e) {
			return out
		}
		for _, c := range children(e) {
			out = append(out, expect(c)...)
		}
		return out
	}
	want := expect(all[cfg.Root%len(all)])
	var v *Violation
	reenter := func() {
		if v == nil {
			v = again(cfg.ReenterW, text, op.Dict, rule, ts)
		}
	}
	if cfg.Abort > 0 {
		how := guarded(func() { traverse(root, cfg, ts.st, nil, reenter) })
		if vsim.Hung() {
			return violation("hang", "the traversal does not end")
		}
		if how != "" {
			ts.note("aborted " + how)
		}
		rest := *cfg
		rest.Abort = 0
		cfg = &rest
	}
	for _, kind := range []bool{cfg.Func, !cfg.Func} {
		c := *cfg
		c.Func = kind
		got := traverse(root, &c, ts.st, nil, reenter)
		if v != nil {
			return v
		}
		if d := visitDiff(got, want, all); d != "" {
			name := "Walk"
			if kind {
				name = "Visit"
			}
			return violation("traversal", "%s of %s: %s", name, clip(q(text)), d)
		}
		for _, e := range got {
			ts.note(shortExpr(e))
		}
	}
	if after := dump(rule, true); after != before {
		return violation("changed", "the traversal changed the rule: %s", diffAt(after, before))
	}
	return nil
}

func visitDiff(got, want, all []geoql.Expr) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return "ended without " + shortExpr(want[i]) + " (visit " + strconv.Itoa(i) + ")"
		case i >= len(want):
			return "offered " + shortExpr(got[i]) + " after everything else"
		case got[i] != want[i]:
			return "visit " + strconv.Itoa(i) + " is " + shortExpr(got[i]) + " instead of " + shortExpr(want[i])
		}
	}
	return ""
}

// again is what a visitor that calls the library does in the middle of a
// traversal; each of these calls has its own oracle.
func again(what, text string, dict map[string]int, rule geoql.Statement, ts *taskState) *Violation {
	root := rule.(geoql.Expr)
	switch what {
	case "format":
		w := newWriter(nil, nil)
		if err := geoql.Format(w, rule); err != nil {
			return violation("nested", "formatting in the middle of a traversal: %v", err)
		}
		if _, err := geoql.Parse(string(w.Buf)); err != nil {
			return violation("nested", "formatting in the middle of a traversal wrote %s, which does not parse: %v", clip(q(string(w.Buf))), err)
		}
	case "parse":
		other, err := geoql.Parse(text)
		if err != nil {
			return violation("nested", "parsing in the middle of a traversal: %v", err)
		}
		if a, b := dump(other, true), dump(rule, true); a != b {
			return violation("nested", "parsing in the middle of a traversal: %s", diffAt(a, b))
		}
	case "check":
		d := toDict(dict)
		a := errText(geoql.CheckType(rule, d))
		b := errText(geoql.CheckType(rule, d))
		if a != b {
			return violation("nested", "type-checking in the middle of a traversal: %s and then %s", a, b)
		}
	default:
		all := nodes(root)
		got := traverse(root, &plan.WalkCfg{Func: len(all)%2 == 0}, ts.st, nil, nil)
		if d := visitDiff(got, all, all); d != "" {
			return violation("nested", "traversal in the middle of a traversal of %s: %s", clip(q(text)), d)
		}
	}
	return nil
}
