package world

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mmadfox/go-geoql-parser/scanner"

	"geosim/plan"
)

// runC26 changes the settings of a scanner between tokens. What follows has to be
// what a new scanner with those settings makes of the rest of the text.
func runC26(op plan.Op, st *Stats) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	if len(op.Rounds) == 0 {
		return nil
	}
	s := new(scanner.Scanner)
	s.Init(dressed(newReader(text, op.In, st)))
	var bad *Violation
	var msgs []string
	round := 0
	set := func(s *scanner.Scanner, cfg *plan.LexCfg, mine int, msgs *[]string) {
		s.Mode, s.Whitespace, s.IsIdentRune = cfg.Mode, cfg.Whitespace, identPred(cfg.Ident)
		s.Error = func(_ *scanner.Scanner, msg string) {
			if mine >= 0 && mine != round && bad == nil {
				bad = violation("stale-setting", "in round %d the handler of round %d is told %s", round, mine, q(msg))
			}
			*msgs = append(*msgs, msg)
		}
	}
	at := 0
	places := &lexRun{text: text}
	for {
		rd := op.Rounds[round%len(op.Rounds)]
		cfg := rd.Lex
		if cfg == nil || cfg.Mode == 0 {
			cfg = &plan.LexCfg{Mode: scanner.GoTokens, Whitespace: scanner.GoWhitespace}
		}
		st.fault("settings-changed")
		set(s, cfg, round, &msgs)
		rest := text[at:]
		fresh := new(scanner.Scanner)
		fresh.Init(strings.NewReader(rest))
		var fmsgs []string
		set(fresh, cfg, -1, &fmsgs)
		shift := func(p scanner.Position) string {
			if p.Line <= 0 {
				return "-"
			}
			p.Offset += at
			p.Line, p.Column = places.lineCol(min(p.Offset, len(text)))
			return pos(p)
		}
		for i := 0; i < max(1, rd.Calls); i++ {
			count, fcount := s.ErrorCount, fresh.ErrorCount
			msgs, fmsgs = msgs[:0], fmsgs[:0]
			before := s.Pos().Offset
			got, want := s.Scan(), fresh.Scan()
			if bad != nil {
				return bad
			}
			what := func() string {
				return "round " + strconv.Itoa(round) + ", scan " + strconv.Itoa(i) + " (from offset " + strconv.Itoa(at) + " on, " + q(cut(rest, 0, 40)) + ")"
			}
			if got != want {
				return violation("settings", "%s is token %d instead of %d", what(), got, want)
			}
			if a, b := s.TokenText(), fresh.TokenText(); a != b {
				return violation("settings", "%s has the text %s instead of %s", what(), q(a), q(b))
			}
			if a, b := pos(s.Position), shift(fresh.Position); a != b && got != scanner.EOF {
				return violation("settings", "%s is at %s instead of %s", what(), a, b)
			}
			if a, b := s.Pos().Offset, fresh.Pos().Offset+at; a != b {
				return violation("settings", "%s leaves the scanner at offset %d instead of %d", what(), a, b)
			}
			if a, b := strings.Join(msgs, "; "), strings.Join(fmsgs, "; "); a != b || s.ErrorCount-count != fresh.ErrorCount-fcount {
				return violation("settings", "%s reports %s (%d) instead of %s (%d)", what(), q(a), s.ErrorCount-count, q(b), fresh.ErrorCount-fcount)
			}
			if v := obeyed(got, s.TokenText(), text, s.Position.Offset, s.Pos().Offset, cfg); v != "" {
				return violation("settings", "%s is %s %s, but %s", what(), scanner.TokenString(got), q(s.TokenText()), v)
			}
			until := len(text)
			if got != scanner.EOF {
				until = s.Position.Offset
			}
			if over := text[min(before, until):until]; !(&lexRun{s: s, cfg: cfg}).skippable(over) {
				return violation("settings", "%s is %s, but %s has been passed over", what(), scanner.TokenString(got), q(over))
			}
			if s.Filename != "" {
				return violation("settings", "%s names the file %s", what(), q(s.Filename))
			}
			if got == scanner.EOF {
				if s.Scan() != scanner.EOF {
					return violation("settings", "%s: the end is not final", what())
				}
				return nil
			}
		}
		at = s.Pos().Offset
		if at > len(text) {
			return violation("settings", "the scanner is at offset %d of %d", at, len(text))
		}
		round++
	}
}

// obeyed says in what way a token is not one that the settings allow.
func obeyed(tok rune, lit, text string, from, to int, cfg *plan.LexCfg) string {
	if tok == scanner.EOF || from >= len(text) || to < from {
		return ""
	}
	first, _ := utf8.DecodeRuneInString(text[from:])
	if first < 64 && cfg.Whitespace&(1<<uint(first)) != 0 {
		return "this is white space"
	}
	need := uint(0)
	switch tok {
	case scanner.Ident, scanner.Float, scanner.Char, scanner.String, scanner.RawString, scanner.Comment:
		need = 1 << uint(-tok)
	case scanner.Int:
		need = scanner.ScanInts | scanner.ScanFloats
	}
	if need != 0 && cfg.Mode&need == 0 {
		return "the mode does not have this kind"
	}
	accepts := identPred(cfg.Ident)
	if accepts == nil {
		accepts = func(ch rune, i int) bool {
			return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
		}
	}
	if cfg.Mode&scanner.ScanIdents == 0 || cfg.Mode&scanner.SkipComments != 0 && strings.ContainsAny(lit, "/") {
		return ""
	}
	if is := accepts(first, 0); is != (tok == scanner.Ident) {
		return "whether the predicate accepts it at the beginning is " + strconv.FormatBool(is)
	}
	if tok != scanner.Ident {
		return ""
	}
	i := 0
	for at := from; at < len(text); i++ {
		ch, n := utf8.DecodeRuneInString(text[at:])
		if is := accepts(ch, i); is != (at < to) {
			return "whether the predicate accepts " + q(string(ch)) + " as character " + strconv.Itoa(i) + " is " + strconv.FormatBool(is)
		}
		if at >= to {
			break
		}
		at += n
	}
	return ""
}
