package world

import (
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	geoql "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
	"geosim/vsim"
)

// lexRun is one scan of one source.
type lexRun struct {
	text string
	cfg  *plan.LexCfg
	st   *Stats
	side *side // what the handler calls
	win  *window

	s *scanner.Scanner
	t *geoql.Tokenizer

	log    []string
	kept   []string // literals and token texts as handed out
	copies []string // what they were then
	bad    string   // first broken invariant
	badKnd string
	msgs   []string // messages the error handler received
	toks   []lexTok
	plain  bool // only S, T, O calls: tokens are consecutive
	eof    bool
	cut    bool // the source may fail: positions are not those of the whole text
	over   bool // the scan was abandoned and the scanner initialised again
	lines  []int
	cols   []int
}

type lexTok struct {
	kind     int
	lit      string
	off      int
	line     int
	col      int
	text     string
	haveText bool
	haveOff  bool
}

func identPred(kind string) func(rune, int) bool {
	base := func(ch rune, i int) bool {
		return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
	}
	switch kind {
	case "dash":
		return func(ch rune, i int) bool { return base(ch, i) || ch == '-' && i > 0 }
	case "any": // any character that is not white space, as its author saw it: the end is not white space either
		return func(ch rune, i int) bool { return ch > ' ' || ch < 0 }
	case "digits":
		return func(ch rune, i int) bool { return base(ch, i) || unicode.IsDigit(ch) }
	case "wide":
		return func(ch rune, i int) bool { return ch != '\n' && ch != ' ' && ch != '\t' && ch != '\r' && ch != ';' }
	}
	return nil
}

func (l *lexRun) broken(kind, format string, args ...any) {
	if l.badKnd == "" {
		l.badKnd, l.bad = kind, fmt.Sprintf(format, args...)
	}
}

func q(s string) string { return strconv.Quote(s) }

func (l *lexRun) keep(s string) {
	if l.st != nil && l.st.keep != nil {
		l.st.keep.text("the text of a token", s)
	}
	l.kept = append(l.kept, s)
	l.copies = append(l.copies, strings.Clone(s))
}

// start begins scanning; reuse is an already used scanner, or nil.
func (l *lexRun) start(src io.Reader, reuse *scanner.Scanner) {
	defer l.win.open()()
	if !l.cfg.Scanner {
		l.t = geoql.NewTokenizer(dressed(src))
		return
	}
	l.s = reuse
	if l.s == nil {
		l.s = new(scanner.Scanner)
	}
	l.s.Init(dressed(src))
	if l.cfg.Mode != 0 {
		l.s.Mode = l.cfg.Mode
	}
	if l.cfg.Mode != 0 || l.cfg.Whitespace != 0 {
		l.s.Whitespace = l.cfg.Whitespace
	}
	l.s.IsIdentRune = l.win.watched(identPred(l.cfg.Ident))
	if l.cfg.Callback != "none" {
		l.s.Error = func(s *scanner.Scanner, msg string) {
			defer l.win.use("the error handler")()
			if l.over {
				l.broken("stale", "the error handler of an earlier scan is called: %s", q(msg))
				return
			}
			l.msgs = append(l.msgs, msg)
			if l.st != nil {
				l.st.keep.text("a message", msg)
			}
			l.side.tick()
			if l.cfg.CBPanic != "" {
				l.st.fault("handler-" + l.cfg.CBPanic)
				interrupt(l.cfg.CBPanic)
			}
			line := "! " + q(msg)
			if l.cfg.Callback == "text" {
				p := s.Pos()
				line += " " + q(s.TokenText()) + " " + pos(p)
			}
			l.log = append(l.log, line)
		}
	}
}

func pos(p scanner.Position) string {
	if p.Line <= 0 {
		return "-"
	}
	return strconv.Itoa(p.Offset) + "@" + strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
}

// lineCol is the line and column of an offset, counted on the text itself.
func (l *lexRun) lineCol(off int) (int, int) {
	if l.lines == nil {
		l.lines = make([]int, len(l.text)+1)
		l.cols = make([]int, len(l.text)+1)
		line, col := 1, 1
		for i := 0; i < len(l.text); {
			r, n := utf8.DecodeRuneInString(l.text[i:])
			for j := 0; j < n; j++ {
				l.lines[i+j], l.cols[i+j] = line, col
			}
			col++
			if r == '\n' {
				line++
				col = 1
			}
			i += n
		}
		l.lines[len(l.text)], l.cols[len(l.text)] = line, col
	}
	return l.lines[off], l.cols[off]
}

// run makes the calls of the script, cyclically, at most max of them (0: until
// two cycles after the end of the stream).
func (l *lexRun) run(script string, max int) { l.between(script, 0, max) }

// resume goes on after the first calls.
func (l *lexRun) resume(script string, from int) { l.between(script, from, 0) }

func (l *lexRun) between(script string, from, max int) {
	if script == "" {
		script = "S"
	}
	l.plain = !strings.ContainsAny(script, "NPRU")
	cycles := utf8.RuneCountInString(l.text) + 44
	after := 0
	for c, n := 0, 0; c < cycles; c++ {
		for i := 0; i < len(script); i++ {
			if max > 0 && n >= max {
				return
			}
			if n >= from && (c < 40 || script[i] != 'R') { // a token is not pushed back for ever
				l.call(script[i])
			}
			n++
		}
		if l.eof {
			if after++; after > 2 {
				return
			}
		}
	}
}

func (l *lexRun) call(c byte) {
	defer l.win.idle(l)
	defer l.win.open()()
	if l.s != nil {
		l.callScanner(c)
	} else {
		l.callTokenizer(c)
	}
}

func (l *lexRun) callTokenizer(c byte) {
	switch c {
	case 'S':
		tok, lit := l.t.Scan()
		l.keep(lit)
		l.log = append(l.log, "S "+strconv.Itoa(int(tok))+" "+q(lit))
		l.toks = append(l.toks, lexTok{kind: int(tok), lit: strings.Clone(lit)})
		if tok == geoql.EOF {
			l.eof = true
		}
	case 'T':
		s := l.t.TokenText()
		l.keep(s)
		l.log = append(l.log, "T "+q(s))
		if n := len(l.toks); n > 0 {
			t := &l.toks[n-1]
			t.text, t.haveText = strings.Clone(s), true
		}
	case 'O':
		o := int(l.t.Offset())
		l.log = append(l.log, "O "+strconv.Itoa(o))
		if n := len(l.toks); n > 0 {
			t := &l.toks[n-1]
			t.off, t.haveOff = o, true
		}
	case 'R':
		l.t.Reset()
	case 'U':
		l.t.Unwind()
	case 'E':
		s := "nil"
		if err := l.t.Err(); err != nil {
			if l.st != nil {
				l.st.keep.err("scanning", err)
			}
			s = q(err.Error())
		}
		l.log = append(l.log, "E "+s+" "+strconv.Itoa(l.t.ErrorCount()))
	}
}

func (l *lexRun) callScanner(c byte) {
	switch c {
	case 'S':
		tok := l.s.Scan()
		l.log = append(l.log, "S "+strconv.Itoa(int(tok))+" "+pos(l.s.Position))
		l.toks = append(l.toks, lexTok{kind: int(tok), off: l.s.Offset, line: l.s.Line, col: l.s.Column, haveOff: l.s.Line > 0})
		if tok == scanner.EOF {
			l.eof = true
		}
	case 'T':
		s := l.s.TokenText()
		l.keep(s)
		l.log = append(l.log, "T "+q(s))
		if n := len(l.toks); n > 0 {
			t := &l.toks[n-1]
			t.text, t.haveText = strings.Clone(s), true
		}
	case 'O':
		p := l.s.Pos()
		l.log = append(l.log, "O "+pos(p))
		if !l.cut && p.Line > 0 && p.Offset >= 0 && p.Offset <= len(l.text) {
			if line, col := l.lineCol(p.Offset); len(l.text) > 0 && (line != p.Line || col != p.Column) {
				l.broken("position", "Pos() says offset %d is line %d column %d, in the text it is line %d column %d", p.Offset, p.Line, p.Column, line, col)
			}
		}
	case 'P':
		l.log = append(l.log, "P "+strconv.Itoa(int(l.s.Peek())))
	case 'N':
		ch := l.s.Next()
		l.log = append(l.log, "N "+strconv.Itoa(int(ch)))
		if n := len(l.toks); n > 0 {
			l.toks[n-1].haveOff = false // the token text is no longer collected
			l.toks[n-1].haveText = false
		}
		if ch == scanner.EOF {
			l.eof = true
		}
	case 'E':
		l.log = append(l.log, "E "+strconv.Itoa(l.s.ErrorCount))
	}
}

// literals checks that nothing that was handed out has changed since.
func (l *lexRun) literals() {
	for i := range l.kept {
		if l.kept[i] != l.copies[i] {
			l.broken("literal-changed", "a literal was %s when it was handed out and is %s now", q(l.copies[i]), q(l.kept[i]))
		}
	}
}

// invariants checks the tokens against the text.
func (l *lexRun) invariants(text string) {
	l.literals()
	l.endState()
	end := 0
	if strings.HasPrefix(text, "\ufeff") {
		end = 3
	}
	known := true // the end of the previous token is known
	for i, t := range l.toks {
		if l.s != nil && t.haveOff && t.off >= 0 && t.off <= len(text) && len(text) > 0 {
			if line, col := l.lineCol(t.off); line != t.line || col != t.col {
				l.broken("position", "token %d at offset %d is reported at line %d column %d, in the text it is line %d column %d", i, t.off, t.line, t.col, line, col)
			}
		}
		if !t.haveOff || !t.haveText {
			known = false
			continue
		}
		if t.off < 0 || t.off+len(t.text) > len(text) || text[t.off:t.off+len(t.text)] != t.text {
			l.broken("slice", "token %d has the text %s and the offset %d, but the source there reads %s", i, q(t.text), t.off, q(cut(text, t.off, len(t.text)+8)))
			return
		}
		again := l.t != nil && i > 0 && t.off == l.toks[i-1].off // the second half of what turned out not to be one operator
		if l.plain && known && !again {
			if t.off < end {
				l.broken("gap", "token %d (%s) begins at offset %d, before the end %d of the previous one", i, q(t.text), t.off, end)
			} else if !l.skippable(text[end:t.off]) {
				l.broken("gap", "the source text %s before offset %d is in no token", q(text[end:t.off]), t.off)
			}
		}
		known = true
		end = t.off + len(t.text)
	}
	if l.plain && known && l.eof && len(l.toks) > 0 && !l.skippable(text[end:]) {
		l.broken("gap", "the stream ended, but the source text %s is in no token", q(text[end:]))
	}
}

// endState: an error state that exists is visible.
func (l *lexRun) endState() {
	if l.t != nil && l.t.ErrorCount() > 0 && l.t.Err() == nil {
		l.broken("error-lost", "ErrorCount is %d but Err is nil", l.t.ErrorCount())
	}
}

// skippable tells whether the scanner may pass over s between two tokens.
func (l *lexRun) skippable(s string) bool {
	wsp, mode := uint64(scanner.GoWhitespace), uint(scanner.GoTokens)
	if l.s != nil && l.cfg.Mode != 0 {
		wsp, mode = l.cfg.Whitespace, l.cfg.Mode
	} else if l.s != nil && l.cfg.Whitespace != 0 {
		wsp = l.cfg.Whitespace
	}
	half := l.t != nil // the first half of an operator of two parts is not visible by itself
	for len(s) > 0 {
		if s[0] <= ' ' && wsp&(1<<uint(s[0])) != 0 {
			s = s[1:]
			continue
		}
		if mode&scanner.ScanComments != 0 && mode&scanner.SkipComments != 0 && len(s) >= 2 && s[0] == '/' {
			if s[1] == '/' {
				if i := strings.IndexByte(s, '\n'); i >= 0 {
					s = s[i:]
					continue
				}
				return true
			}
			if s[1] == '*' {
				if i := strings.Index(s[2:], "*/"); i >= 0 {
					s = s[i+4:]
					continue
				}
				return true
			}
		}
		if !half {
			return false
		}
		half = false
		switch {
		case strings.IndexByte(".=!><", s[0]) >= 0:
			s = s[1:]
		case len(s) >= 3 && strings.EqualFold(s[:3], "not"):
			s = s[3:]
		default:
			return false
		}
	}
	return true
}

func cut(s string, at, n int) string {
	if at < 0 || at > len(s) {
		return ""
	}
	if at+n > len(s) {
		n = len(s) - at
	}
	return s[at : at+n]
}

// scan runs a whole lex operation against a source.
func scan(text string, cfg *plan.LexCfg, script string, src io.Reader, st *Stats, max int) *lexRun {
	if cfg == nil {
		cfg = &plan.LexCfg{}
	}
	l := &lexRun{text: text, cfg: cfg, st: st}
	if r, ok := src.(*SimReader); ok {
		l.side = r.side
	}
	l.start(src, nil)
	l.run(script, max)
	return l
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("step %d: %s instead of %s", i, clip(x), clip(y))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ---- C01 --------------------------------------------------------------------

func runC01(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	want := scan(text, op.Lex, op.Script, strings.NewReader(text), st, 0)
	r := newReader(text, op.In, st)
	got := scan(text, op.Lex, op.Script, r, st, 0)
	got.invariants(text)
	want.invariants(text)
	if got.badKnd != "" {
		return violation(got.badKnd, "%s", got.bad)
	}
	if want.badKnd != "" {
		return violation(want.badKnd, "delivered in one piece: %s", want.bad)
	}
	if d := firstDiff(got.log, want.log); d != "" {
		return violation("delivery", "%s (as delivered, compared with the text in one piece)", d)
	}
	return nil
}

// ---- C02 --------------------------------------------------------------------

func runC02(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	r := newReader(text, op.In, st)
	before := stderrSize()
	got := scan(text, op.Lex, "STO", r, st, 0)
	after := stderrSize()
	quiet := op.Lex != nil && op.Lex.Scanner && op.Lex.Callback == "none" // documented to print
	if after != before && !quiet {
		return violation("stderr", "something was written to standard error: %s", q(stderrTail(before)))
	}
	if len(r.Errs) == 0 {
		if got.eof && !r.ended {
			return violation("unread", "the end was reported though the source had been asked for %d of %d bytes only and was about to fail", r.pos, len(text))
		}
		return nil // the scan did not get that far
	}
	if !got.eof {
		return violation("no-end", "the stream did not end after a read error")
	}
	tokens := func(l *lexRun) []string {
		var out []string
		for _, s := range l.log {
			if s[0] != '!' {
				out = append(out, s)
			}
		}
		return out
	}
	g := tokens(got)
	var gold *lexRun
	cuts := append(append([]int{}, r.ErrAt...), len(text))
	diff := ""
	for i, at := range cuts {
		if i > 0 && at == cuts[i-1] {
			continue
		}
		t := text[:at]
		l := scan(t, op.Lex, "STO", strings.NewReader(t), nil, 0)
		d := firstDiff(g, tokens(l))
		if d == "" {
			gold = l
			break
		}
		if diff == "" {
			diff = fmt.Sprintf("%s (compared with the text cut off at byte %d)", d, at)
		}
	}
	if gold == nil {
		return violation("invented", "the stream is not that of the text cut off where the source failed: %s", diff)
	}
	if op.Lex == nil || !op.Lex.Scanner {
		if got.t.ErrorCount() <= gold.t.ErrorCount() {
			return violation("unreported", "the source failed with %q but the error count is %d, the same as without the failure", r.Errs[0], got.t.ErrorCount())
		}
		err := got.t.Err()
		if err == nil {
			return violation("unreported", "the source failed with %q but Err is nil", r.Errs[0])
		}
		if gold.t.ErrorCount() == 0 {
			ok := false
			for _, e := range r.Errs {
				ok = ok || strings.Contains(err.Error(), e.Error())
			}
			if !ok {
				return violation("unreported", "the source failed with %q but Err says %q", r.Errs[0], err)
			}
		}
		return nil
	}
	if got.s.ErrorCount <= gold.s.ErrorCount {
		return violation("unreported", "the source failed with %q but the error count is %d, the same as without the failure", r.Errs[0], got.s.ErrorCount)
	}
	if op.Lex.Callback != "none" {
		ok := false
		for _, m := range got.msgs {
			for _, e := range r.Errs {
				ok = ok || m == e.Error()
			}
		}
		if !ok {
			return violation("unreported", "the source failed with %q but the handler was told %q", r.Errs[0], got.msgs)
		}
	}
	return nil
}

// ---- C03 --------------------------------------------------------------------

type rawTok struct {
	kind rune
	text string
	end  int
}

// need is the number of bytes with which a token that ends at end is complete:
// the token and the whole character after it, or everything and the news that
// there is no more. That a character is malformed may only show later.
func need(text string, end int) int {
	out := 0
	for p := max(0, end-utf8.UTFMax+1); p <= end; p++ {
		if p < end && text[p] < 0xc0 {
			continue
		}
		n := p + 1
		for n <= len(text) && !utf8.FullRuneInString(text[p:n]) {
			n++
		}
		out = max(out, n)
	}
	return out
}

func runC03(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	cfg := op.Lex
	if cfg == nil {
		cfg = &plan.LexCfg{}
	}
	// the raw tokens, from a source that never stalls
	rcfg := *cfg
	if !cfg.Scanner {
		rcfg = plan.LexCfg{Scanner: true, Mode: scanner.GoTokens, Whitespace: scanner.GoWhitespace}
	}
	rcfg.Callback = ""
	g := scan(text, &rcfg, "ST", strings.NewReader(text), nil, 0)
	var raw []rawTok
	for _, t := range g.toks {
		off := t.off
		if !t.haveOff { // nothing scanned at all
			off = len(text)
		}
		raw = append(raw, rawTok{rune(t.kind), t.text, off + len(t.text)})
		if t.kind == scanner.EOF {
			break
		}
	}
	if len(raw) == 0 || raw[len(raw)-1].kind != scanner.EOF {
		return violation("no-end", "no end of stream after %d scans of a text of %d characters", len(g.toks), utf8.RuneCountInString(text))
	}
	r := newReader(text, op.In, st)
	allowed := -1
	var v *Violation
	what := "creating the scanner"
	r.onRead = func(delivered int, ended bool) {
		if v == nil && delivered >= allowed {
			v = violation("greedy", "%s asked the source for more although %d bytes had been supplied and %d were enough", what, delivered, max(allowed, 0))
		}
	}
	l := &lexRun{text: text, cfg: cfg, st: st}
	l.start(r, nil)
	if v != nil {
		return v
	}
	k := 0
	var pending *rawTok
	last := raw[len(raw)-1]
	take := func() rawTok {
		if k < len(raw) {
			k++
			return raw[k-1]
		}
		return last
	}
	scans, total := 0, utf8.RuneCountInString(text)+2
	remaining := -1
	endOf := 0
	for extra := 0; extra < 4; scans++ {
		var cur rawTok
		if pending != nil {
			cur, pending = *pending, nil
			allowed = -1
		} else {
			cur = take()
			allowed = need(text, cur.end)
		}
		endOf = max(endOf, cur.end)
		if !cfg.Scanner {
			two := false
			switch cur.kind {
			case '.', '=', '!', '>', '<':
				two = true
			case scanner.Ident:
				two = strings.ToLower(cur.text) == "not"
			}
			if two {
				nxt := take()
				allowed = need(text, nxt.end)
				endOf = max(endOf, nxt.end)
				pair := cur.kind == scanner.Ident || cur.kind == '.' && nxt.kind == '.' || cur.kind != '.' && nxt.kind == '='
				if !pair {
					pending = &nxt
				}
			}
		}
		what = fmt.Sprintf("scan %d (token %s)", scans, clip(q(cur.text)))
		wasEOF := l.eof
		l.call('S')
		if v != nil {
			return v
		}
		t := l.toks[len(l.toks)-1]
		if wasEOF && !(cfg.Scanner && t.kind == scanner.EOF || !cfg.Scanner && t.kind == int(geoql.EOF)) {
			return violation("end-not-final", "scan %d returned token %d after the end of the stream had been reported", scans, t.kind)
		}
		if l.eof {
			extra++
			continue
		}
		if remaining < 0 && r.ended {
			remaining = utf8.RuneCountInString(text[min(endOf, len(text)):]) + 2
		} else if remaining >= 0 {
			if remaining--; remaining <= 0 {
				return violation("no-end", "the end of the stream was not reported within one scan per remaining character")
			}
		}
		if scans > total {
			return violation("no-end", "no end of stream after %d scans of a text of %d characters", scans, total-2)
		}
	}
	return nil
}

// ---- C04 --------------------------------------------------------------------

func runC04(op plan.Op, st *Stats) *Violation {
	s := new(scanner.Scanner)
	s.Filename = "rules.gql"
	var before *lexRun
	for i, rd := range op.Rounds {
		text := plan.TextBytes(rd.Text, rd.Hex)
		cfg := rd.Lex
		if cfg == nil {
			cfg = &plan.LexCfg{}
		}
		c := *cfg
		c.Scanner = true
		do := func(sc *scanner.Scanner, st *Stats) (l *lexRun, how string) {
			l = &lexRun{text: text, cfg: &c, st: st, cut: true}
			how = guarded(func() {
				l.start(newReader(text, rd.In, st), sc)
				// what there is to see before anything has been read
				l.log = append(l.log, "before "+q(l.s.TokenText())+" "+pos(l.s.Pos())+" "+strconv.Itoa(l.s.ErrorCount)+" "+strconv.FormatBool(l.s.IsValid()))
				l.run(rd.Script, rd.Calls)
			})
			l.log = append(l.log, "after "+how+" "+strconv.Itoa(l.s.ErrorCount)+" "+l.s.Filename)
			l.over = true
			return
		}
		fresh := new(scanner.Scanner)
		fresh.Filename = "rules.gql"
		want, _ := do(fresh, nil)
		got, how := do(s, st)
		if vsim.Hung() {
			return violation("hang", "round %d does not end", i)
		}
		if before != nil && before.badKnd != "" {
			return violation(before.badKnd, "round %d: %s", i, before.bad)
		}
		if how != "" {
			st.fault("abandoned-" + how)
		}
		if i > 0 {
			if d := firstDiff(got.log, want.log); d != "" {
				return violation("stale", "round %d, re-initialised scanner compared with a new one: %s", i, d)
			}
		}
		got.literals()
		if got.badKnd != "" {
			return violation(got.badKnd, "%s", got.bad)
		}
		before = got
	}
	return nil
}

// guarded runs f on this goroutine and tells how it ended.
func guarded(f func()) (how string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(vsim.Hang); ok {
				how = "hang"
				return
			}
			how = "panic"
		}
	}()
	f()
	return ""
}
