package world

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	geoql "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
)

const (
	badEncoding = "invalid UTF-8 encoding"
	badNUL      = "invalid character NUL"
)

// healed is a text in which every byte that is no UTF-8 is one replacement
// character, with the places of these bytes and of NUL characters.
type healed struct {
	text string
	bad  []int // bytes that are no UTF-8
	nul  []int
}

func heal(text string) *healed {
	h := &healed{}
	var b strings.Builder
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			h.bad = append(h.bad, i)
		case r == 0:
			h.nul = append(h.nul, i)
		}
		b.WriteRune(r)
		i += n
	}
	h.text = b.String()
	return h
}

// upTo is how many of the places are before offset end.
func upTo(places []int, end int) int { return sort.SearchInts(places, end) }

// there is where a place of the damaged text is in the healed one.
func (h *healed) there(off int) int { return off + 2*upTo(h.bad, off) }

// note is one message of a scanner.
type note struct {
	msg string
	at  scanner.Position
}

// damagedScan scans a text with the calls of the script and reports each token as it comes.
type damagedScan struct {
	lines []string // what came, in terms of the healed text
	toks  []lexTok
	notes []note
	eof   bool
	total int
	err   error
}

func scanDamaged(h *healed, text string, op plan.Op, src *SimReader, st *Stats, healing bool) (d *damagedScan, v *Violation) {
	d = &damagedScan{}
	there := func(off int) int { return off }
	if healing {
		there = h.there
	}
	place := func(p scanner.Position) string {
		if p.Line > 0 {
			p.Offset = there(p.Offset)
		}
		return pos(p)
	}
	clean := func(s string) string { return q(string([]rune(s))) }
	cfg := *op.Lex
	script := strings.ReplaceAll(op.Script, "E", "")
	if !strings.Contains(script, "S") {
		script += "S"
	}
	var s *scanner.Scanner
	var t *geoql.Tokenizer
	l := &lexRun{text: text, cfg: &cfg}
	if cfg.Scanner {
		l.start(src, nil)
		s = l.s
		s.Error = func(s *scanner.Scanner, msg string) {
			d.notes = append(d.notes, note{msg, s.Pos()})
			if msg != badEncoding {
				d.lines = append(d.lines, "! "+q(msg)+" "+clean(s.TokenText())+" "+place(s.Pos()))
			}
		}
	} else {
		t = geoql.NewTokenizer(dressed(src))
	}
	count := func() int {
		if s != nil {
			return s.ErrorCount
		}
		return t.ErrorCount()
	}
	limit := 3*utf8.RuneCountInString(text) + 60
	after := 0
	for n := 0; n < limit && after < 2; n++ {
		for _, c := range script {
			switch c {
			case 'S':
				if s != nil {
					tok := s.Scan()
					d.lines = append(d.lines, "S "+strconv.Itoa(int(tok))+" "+place(s.Position))
					d.eof = d.eof || tok == scanner.EOF
					d.toks = append(d.toks, lexTok{kind: int(tok), off: s.Offset, text: s.TokenText()})
				} else {
					tok, lit := t.Scan()
					d.lines = append(d.lines, "S "+strconv.Itoa(int(tok))+" "+clean(lit))
					d.eof = d.eof || tok == geoql.EOF
					d.toks = append(d.toks, lexTok{kind: int(tok), off: int(t.Offset()), text: t.TokenText()})
				}
				if tk := d.toks[len(d.toks)-1]; healing {
					end := tk.off + len(tk.text)
					if want := upTo(h.bad, end) + upTo(h.nul, end); count() < want {
						return d, violation("unreported", "the error count is %d when %s at offset %d has been returned, but the text up to there has %d damaged characters", count(), q(tk.text), tk.off, want)
					}
				}
			case 'T':
				x := ""
				if s != nil {
					x = s.TokenText()
				} else {
					x = t.TokenText()
				}
				d.lines = append(d.lines, "T "+clean(x))
			case 'O':
				if s != nil {
					d.lines = append(d.lines, "O "+place(s.Pos()))
				} else {
					d.lines = append(d.lines, "O "+strconv.Itoa(there(int(t.Offset()))))
				}
			case 'P', 'N':
				if s == nil {
					continue
				}
				ch := rune(0)
				if c == 'P' {
					ch = s.Peek()
				} else {
					ch = s.Next()
					d.eof = d.eof || ch == scanner.EOF
				}
				d.lines = append(d.lines, string(c)+" "+strconv.Itoa(int(ch)))
			case 'R':
				if t != nil && n < 40 {
					t.Reset()
				}
			case 'U':
				if t != nil {
					t.Unwind()
				}
			}
		}
		if d.eof {
			after++
		}
	}
	d.total = count()
	if t != nil {
		d.err = t.Err()
		if d.total > 0 && d.err == nil {
			return d, violation("unreported", "ErrorCount is %d but Err is nil", d.total)
		}
	}
	return d, nil
}

func runC29(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	if op.Lex == nil {
		op.Lex = &plan.LexCfg{}
	}
	if op.Kind == "torn" {
		return torn(text, op, st)
	}
	h := heal(text)
	for range h.bad {
		st.fault("damaged-byte")
	}
	for range h.nul {
		st.fault("nul-byte")
	}
	want, v := scanDamaged(h, h.text, op, newReader(h.text, nil, nil), nil, false)
	if v != nil {
		return v
	}
	most := reasons(h.text) + len(h.nul)
	if !strings.Contains(op.Script, "N") && op.Lex.Ident != "any" && op.Lex.Ident != "wide" && closed(h.text) {
		most -= 2 * strings.Count(h.text, "\"")
	}
	if want.total > most {
		return violation("spurious", "%d errors are counted in a text that has at most %d: %s", want.total, most, clip(q(h.text)))
	}
	got, v := scanDamaged(h, text, op, newReader(text, op.In, st), st, true)
	if v != nil {
		return v
	}
	if d := firstDiff(got.lines, want.lines); d != "" {
		return violation("damage", "%s (compared with the text that has a replacement character for each damaged byte)", d)
	}
	if !got.eof || !want.eof {
		return nil
	}
	if got.total != want.total+len(h.bad) {
		return violation("miscounted", "%d errors are counted; without the %d damaged bytes there are %d", got.total, len(h.bad), want.total)
	}
	if op.Lex.Scanner {
		for _, k := range []struct {
			msg    string
			places []int
		}{{badEncoding, h.bad}, {badNUL, h.nul}} {
			i := 0
			for _, n := range got.notes {
				if n.msg != k.msg {
					continue
				}
				if i >= len(k.places) || n.at.Offset != k.places[i] {
					return violation("misplaced", "the handler hears %q at offset %d, damaged are %v", k.msg, n.at.Offset, k.places)
				}
				i++
			}
			if i < len(k.places) {
				return violation("unreported", "the handler hears nothing of offset %d (%s)", k.places[i], k.msg)
			}
		}
	}
	if n := len(h.bad) + len(h.nul); n > 0 {
		first := len(text)
		for _, p := range [][]int{h.bad, h.nul} {
			if len(p) > 0 {
				first = min(first, p[0])
			}
		}
		return undamaged(text, first)
	}
	return nil
}

// reasons is how many errors there can be at most in a text without damage:
// literals and comments that do not end, characters that are not one, and
// escapes that are none. Where none of these begins there is nothing to report.
func reasons(text string) int {
	n := strings.Count(text, "/*")
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case '"', '\'', '`':
			n += 2
		case '\\':
			if alone := i == 0 || text[i-1] != '\\'; !alone || !escape.MatchString(text[i:]) {
				n++
			}
		}
	}
	return n
}

// closed tells whether a text has no literals other than strings, and no
// comments, and all strings end in the line they begin in.
func closed(text string) bool {
	if strings.ContainsAny(text, "'`") || strings.Contains(text, "//") || strings.Contains(text, "/*") {
		return false
	}
	in := false
	for i := 0; i < len(text); i++ {
		switch {
		case text[i] == '"':
			in = !in
		case in && text[i] == '\n':
			return false
		case in && text[i] == '\\':
			i++
			if i < len(text) && text[i] == '\n' {
				return false
			}
		}
	}
	return !in
}

// escape is what may follow in every kind of literal.
var escape = regexp.MustCompile(`^\\([abfnrtv]|[0-7]{3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})`)

// undamaged makes sure that Parse accepts a text only if the rule ends before
// the first damage.
func undamaged(text string, first int) *Violation {
	rule, err := geoql.Parse(text)
	if err != nil {
		return nil
	}
	before, err := geoql.Parse(text[:first])
	if err != nil {
		return violation("accepted", "Parse accepts a rule that is damaged at offset %d: %s", first, clip(q(text)))
	}
	var a, b strings.Builder
	if geoql.Format(&a, rule) != nil || geoql.Format(&b, before) != nil || a.String() != b.String() {
		return violation("accepted", "Parse accepts a rule that is damaged at offset %d as %s, not damaged it is %s", first, clip(q(a.String())), clip(q(b.String())))
	}
	return nil
}

// torn cuts the text off inside a literal or a comment.
func torn(text string, op plan.Op, st *Stats) *Violation {
	op.Script = "S"
	h := heal(text)
	if len(h.bad) > 0 {
		return nil
	}
	full, v := scanDamaged(h, text, op, newReader(text, nil, nil), nil, false)
	if v != nil || full.total > 0 {
		return v
	}
	var ends []int // where the text may end, and in which token
	var of []int
	for i, t := range full.toks {
		from := t.off + 1
		switch {
		case t.kind == scanner.Comment && op.Lex.Scanner && strings.HasPrefix(t.text, "/*"):
			from++ // a slash by itself is none
		case t.kind == scanner.String && op.Lex.Scanner, t.kind == scanner.RawString && op.Lex.Scanner, t.kind == scanner.Char && op.Lex.Scanner:
		case t.kind == int(geoql.STRING) && !op.Lex.Scanner && strings.HasPrefix(t.text, "\""):
		default:
			continue
		}
		for at := from; at < t.off+len(t.text); at++ {
			edge := at == from || at == t.off+len(t.text)-1
			if op.Reps%3 > 0 || edge { // some tears are at the edges only
				ends, of = append(ends, at), append(of, i)
			}
		}
	}
	if len(ends) == 0 {
		return nil
	}
	at, in := ends[op.Reps/3%len(ends)], of[op.Reps/3%len(ends)]
	text = text[:at]
	st.fault("text-torn")
	got, v := scanDamaged(heal(text), text, op, newReader(text, op.In, st), st, true)
	if v != nil {
		return v
	}
	for i, t := range full.toks[:in] {
		if t.off+len(t.text) > full.toks[in].off {
			break // the tokenizer has looked ahead
		}
		if i >= len(got.toks) || got.toks[i] != t {
			g := lexTok{}
			if i < len(got.toks) {
				g = got.toks[i]
			}
			return violation("damage", "token %d is %s (kind %d) at %d, in the whole text %s (kind %d) at %d", i, q(g.text), g.kind, g.off, q(t.text), t.kind, t.off)
		}
	}
	if got.total == 0 {
		return violation("unreported", "the text ends at offset %d inside %s, which is not reported", at, clip(q(full.toks[in].text)))
	}
	if !op.Lex.Scanner {
		return undamaged(text, full.toks[in].off)
	}
	return nil
}
