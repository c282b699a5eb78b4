package world

import (
	"strconv"
	"strings"
	"unicode/utf8"

	geoql "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
)

// runC23 makes the calls of the script and follows them with a model that knows
// nothing but the text and a place in it.
func runC23(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	cfg := op.Lex
	if cfg == nil {
		cfg = &plan.LexCfg{}
	}
	if !cfg.Scanner {
		return pushBack(text, cfg, op, st)
	}
	l := &lexRun{text: text, cfg: cfg, st: st}
	l.start(newReader(text, op.In, st), nil)
	at, begun := 0, false
	begin := func() {
		if !begun && strings.HasPrefix(text, "\ufeff") {
			at = 3
		}
		begun = true
	}
	char := func() (rune, int) {
		if at >= len(text) {
			return scanner.EOF, 0
		}
		r, n := utf8.DecodeRuneInString(text[at:])
		return r, n
	}
	check := func(what string) *Violation {
		p := l.s.Pos()
		if p.Offset != at {
			return violation("place", "after %s, Pos() is offset %d instead of %d", what, p.Offset, at)
		}
		if !begun && (p.Line != 1 || p.Column != 1) {
			return violation("place", "before anything was read, Pos() is %d:%d", p.Line, p.Column)
		}
		if len(text) > 0 && begun {
			if line, col := l.lineCol(at); p.Line != line || p.Column != col {
				// the scanner places a character after a line feed on the next line only once it is there
				return violation("place", "after %s, Pos() is %d:%d instead of %d:%d", what, p.Line, p.Column, line, col)
			}
		}
		return nil
	}
	script := op.Script
	if script == "" {
		script = "N"
	}
	limit := 3*utf8.RuneCountInString(text) + 10
	ends := 0
	for n := 0; n < limit && ends < 3; n++ {
		c := script[n%len(script)]
		what := "call " + strconv.Itoa(n) + " (" + string(c) + ")"
		switch c {
		case 'P', 'N':
			begin()
			want, w := char()
			var got rune
			if c == 'P' {
				got = l.s.Peek()
			} else {
				got = l.s.Next()
				at += w
				if l.s.IsValid() {
					return violation("place", "%s: Next leaves the position of a token behind", what)
				}
			}
			if got != want {
				return violation("character", "%s at offset %d returns %q instead of %q", what, at, got, want)
			}
			if want == scanner.EOF {
				ends++
			}
		case 'O':
		case 'E':
		default:
			begin()
			before := at
			tok := l.s.Scan()
			at = l.s.Pos().Offset
			off, tt := l.s.Offset, l.s.TokenText()
			if tok == scanner.EOF {
				ends++
				off = len(text)
			}
			if off < before || off > at || at > len(text) {
				return violation("place", "%s at offset %d: the token is at %d and the next character at %d of %d", what, before, off, at, len(text))
			}
			if text[off:at] != tt {
				return violation("slice", "%s: the token text is %s but what was consumed is %s", what, q(tt), q(text[off:at]))
			}
			if !l.skippable(text[before:off]) {
				return violation("gap", "%s passes over %s", what, q(text[before:off]))
			}
		}
		if v := check(what); v != nil {
			return v
		}
	}
	return nil
}

// pushBack pushes tokens back and scans them again; the stream is otherwise that
// of a tokenizer that never does.
func pushBack(text string, cfg *plan.LexCfg, op plan.Op, st *Stats) *Violation {
	want := scan(text, cfg, "STOE", strings.NewReader(text), nil, 0)
	var toks []lexTok
	var errs []string
	for _, t := range want.toks {
		toks = append(toks, t)
		if t.kind == int(geoql.EOF) {
			break
		}
	}
	for _, s := range want.log {
		if s[0] == 'E' {
			errs = append(errs, s)
		}
	}
	t := geoql.NewTokenizer(dressed(newReader(text, op.In, st)))
	script := op.Script
	if script == "" {
		script = "R"
	}
	k := 0
	for i, w := range toks {
		again := 1
		c := byte('S')
		if single(w) {
			c = script[k%len(script)]
			k++
		}
		if c == 'R' || c == 'D' || c == 'V' {
			again = 2
		}
		for j := 0; j < again; j++ {
			tok, lit := t.Scan()
			if int(tok) != w.kind || lit != w.lit {
				return violation("push-back", "token %d (scanned for the %d. time) is %s (kind %d) instead of %s (kind %d)", i, j+1, q(lit), tok, q(w.lit), w.kind)
			}
			if s := t.TokenText(); s != w.text {
				return violation("push-back", "token %d (scanned for the %d. time) has the text %s instead of %s", i, j+1, q(s), q(w.text))
			}
			if o := int(t.Offset()); o != w.off {
				return violation("push-back", "token %d (scanned for the %d. time) has the offset %d instead of %d", i, j+1, o, w.off)
			}
			if j == 0 && c == 'R' {
				st.fault("push-back")
				t.Reset()
			}
			if j == 0 && c == 'U' { // pushed back, and then not
				st.fault("push-back-undone")
				t.Reset()
				t.Unwind()
			}
			if j == 0 && c == 'D' { // said twice
				st.fault("push-back-twice")
				t.Reset()
				t.Reset()
			}
			if j == 0 && c == 'V' { // pushed back, not, and then all the same
				st.fault("push-back-again")
				t.Reset()
				t.Unwind()
				t.Reset()
			}
		}
		e := "nil"
		if err := t.Err(); err != nil {
			e = q(err.Error())
		}
		if e = "E " + e + " " + strconv.Itoa(t.ErrorCount()); i < len(errs) && e != errs[i] {
			return violation("push-back", "after token %d: %s instead of %s", i, e, errs[i])
		}
	}
	return nil
}

// single tells whether nothing beyond the token had to be scanned to know it.
func single(t lexTok) bool {
	switch geoql.Token(t.kind) {
	case geoql.RANGE, geoql.PERIOD, geoql.LEQL, geoql.ASSIGN, geoql.LNEQ, geoql.ILLEGAL, geoql.GEQ, geoql.GTR, geoql.LEQ, geoql.LSS,
		geoql.NOT_EQ, geoql.NOT_IN, geoql.NOT_INTERSECTS, geoql.NOT_NEARBY:
		return false
	}
	// a token that came out of the look-ahead of another one is as good as any
	return !strings.HasPrefix(t.lit, "not")
}
