package plan

import (
	"strings"
	"unicode/utf8"
)

var lexPieces = []string{
	"a", "ident", "Zz_9", "été", "世界", "𝒳y", "_", "not", "not in", "not eq", "mod", "when", "trigger", "and", "up",
	"1", "42", "007", "1.5", "3.", ".5", "1..2", "1 .. 2", "..", "...", ".", "1_000", "1._", "1.5_0", "2__0_.0__", "12.75km", "9:05AM", "7h30m",
	`"s"`, `""`, `"a\"b"`, `"世\\"`, `"\x41\101"`, `"\q"`, `"\u12"`, `"\U0001d4b3 \U00110000"`, `"\u00e9\xg"`, `"\xfF\xAa\377\f"`, `"\U000afAFf"`, "0x1F", "0b12", "08", "'\\n'", "'\\''", `"unterminated`, `"nl` + "\n", "'c'", "'ab'", "'", "`raw`", "`", "`r\nr`",
	"=", "==", "!", "!=", ">", ">=", "<", "<=", "===", "=!", ";", ",", "(", ")", "[", "]", "{", "}", "/", "*", "+", "-", ":", "@", "@v", "%", "#", "$", "\\", "~",
	"//c\n", "// line 世 comment\n", "/* b */", "/* é\n* / **/", "/*", "//",
	"\x00", "\xff", "\xe4\xb8", "\xf0\x9d\x92", "\xc0\x80", "\xed\xa0\x80", "\ufeff", "\u2028", "\u00a0", "\r\n", "\n", "\n\n", "\t", "  ", "é", "µs",
	"\u0120", "\u0109x", "čs", "\u00aea", "Ια", "ы1", "\u200b", "\u3000", "\u0085", "٣", "１", "e\u0301", "\u0100b", "ſ", "K",
}

// GenText writes something to scan.
func GenText(r *Rng) string {
	var s string
	switch r.Int(10) {
	case 0, 1, 2:
		s = GenRule(r, false, r.P(50))
	case 3:
		s = longText(r)
	default:
		var b strings.Builder
		n := r.Range(0, 12)
		if r.P(25) {
			n = r.Range(10, 60)
		}
		if r.P(4) {
			b.WriteString("\ufeff")
			if r.P(30) {
				b.WriteString("\ufeff")
			}
		}
		weird := r.P(40) // some texts have no encoding trouble, so that counts and messages stay comparable
		for i := 0; i < n; i++ {
			p := Pick(r, lexPieces...)
			if !weird && (!utf8.ValidString(p) || strings.ContainsAny(p, "\x00\ufeff")) {
				p = "x"
			}
			b.WriteString(p)
			if r.P(55) {
				b.WriteString(Pick(r, " ", " ", "\n", "\t", "  ", "\r\n"))
			}
		}
		s = b.String()
	}
	if r.P(22) {
		s = pad(r, s)
	}
	return s
}

// longText has tokens longer than any plausible buffer.
func longText(r *Rng) string {
	var b strings.Builder
	for i := 0; i <= r.Int(3); i++ {
		n := Pick(r, 300, 1000, 1020, 1024, 1030, 1500, 2047, 2048, 2100, 3100, 4097, 5000)
		n += r.Range(-5, 5)
		unit := Pick(r, "x", "é", "世", "𝒳", "ab", "x1_")
		body := strings.Repeat(unit, n/len(unit)+1)
		switch r.Int(7) {
		case 0:
			b.WriteString(`"` + body + `"`)
		case 1:
			b.WriteString(`"` + strings.Repeat(`\"`, n/2) + `"`)
		case 2:
			b.WriteString("a" + body)
		case 3:
			b.WriteString(strings.Repeat("1", n/2) + "." + strings.Repeat("2", n/2))
		case 4:
			b.WriteString("/*" + body + "*/")
		case 5:
			b.WriteString("`" + body + "\n`")
		case 6:
			b.WriteString(strings.Repeat(Pick(r, " ", "\n", "\t"), n))
		}
		b.WriteString(Pick(r, " ", "\n", "", ";", "+ 1"))
		if r.P(40) {
			b.WriteString(Pick(r, lexPieces...) + " ")
		}
	}
	return b.String()
}

// pad moves the text so that it lies across a multiple of the buffer size.
func pad(r *Rng, s string) string {
	k := Pick(r, 1, 1, 1, 2, 3, 4)
	at := k*Pick(r, 1024, 1024, 1024, 1023, 512, 4096) - r.Int(len(s)+8)
	if at < 0 {
		at = 0
	}
	var fill string
	switch r.Int(5) {
	case 0:
		fill = strings.Repeat(" ", at)
	case 1:
		fill = strings.Repeat("ab ", at/3) + strings.Repeat(" ", at%3)
	case 2:
		fill = strings.Repeat("é\n", at/3) + strings.Repeat(" ", at%3)
	case 3:
		fill = strings.Repeat("世 ", at/4) + strings.Repeat(" ", at%4)
	default:
		if at > 4 {
			fill = `"` + strings.Repeat("s", at-3) + `" `
		}
	}
	return fill + s
}

// GenDelivery makes a source well-behaved but awkward.
func GenDelivery(r *Rng, text string, stalls bool) *Delivery {
	d := &Delivery{EOFData: r.P(35), Dress: r.Int(5)}
	left := len(text)
	scr := r.P(40)
	zero := r.P(30)
	style := r.Int(8)
	if len(text) > 1500 && style == 0 && r.P(70) {
		style = 3
	}
	fixed := Pick(r, 1, 2, 3, 4, 5, 7, 16, 64, 255, 512, 1000, 1023, 1024, 1025)
	burst := -1
	if r.P(2) {
		burst = r.Int(10)
	}
	for i := 0; left > 0 && len(d.Chunks) < 6000; i++ {
		var c Chunk
		switch style {
		case 0:
			c.N = 1
		case 1:
			c.N = fixed
		case 2:
			c.N = 1 + r.Int(4)
		case 3:
			c.N = 1 + r.Int(40)
		case 4:
			c.N = 1 + r.Int(700)
		case 5: // cut inside a multi-byte character if there is one ahead
			c.N = 1 + r.Int(30)
			at := len(text) - left
			for j := at + 1; j < len(text) && j < at+60; j++ {
				if !utf8.RuneStart(text[j]) {
					c.N = j - at
					break
				}
			}
		case 6: // one large piece and then a trickle
			if i == 0 {
				c.N = 1 + r.Int(left)
			} else {
				c.N = 1 + r.Int(3)
			}
		default: // only a few cuts
			c.N = 1 + r.Int(left)
		}
		if c.N > left {
			c.N = left
		}
		c.Scribble = scr && r.P(70)
		if stalls && r.P(40) {
			c.Stall = int64(1 + r.Int(100000))
		}
		if zero && r.P(25) {
			d.Chunks = append(d.Chunks, Chunk{N: 0, Scribble: c.Scribble, Stall: c.Stall})
		}
		if i == burst {
			for j := Pick(r, 150, 150, 1100, 3000); j > 0; j-- {
				d.Chunks = append(d.Chunks, Chunk{N: 0})
			}
		}
		d.Chunks = append(d.Chunks, c)
		left -= c.N
	}
	if zero && r.P(40) {
		d.Chunks = append(d.Chunks, Chunk{N: 0, Scribble: scr})
	}
	return d
}

// ReadErrs are the ways a source can fail.
var ReadErrs = []string{"eio", "timeout", "wrapeof", "ueof", "closed", "empty", "noprogress", "eintr", "eagain", "nameeof", "uncomparable"}

// WriteErrs are the ways a destination can fail.
var WriteErrs = []string{"eio", "nospace", "closed", "eof", "short", "timeout", "uncomparable", "eintr", "eagain", "empty", "quota", "panicky"}

// boundary moves at to the start of a character.
func boundary(text string, at int) int {
	for at > 0 && at < len(text) && !utf8.RuneStart(text[at]) {
		at--
	}
	return at
}

// GenFailing makes a source that fails.
func GenFailing(r *Rng, text string) *Delivery {
	d := GenDelivery(r, text, false)
	if len(d.Chunks) == 0 {
		d.Chunks = []Chunk{{N: 0}}
	}
	n := 1
	if r.P(25) {
		n = 1 + r.Int(3)
	}
	for k := 0; k < n; k++ {
		i := r.Int(len(d.Chunks))
		switch r.Int(6) {
		case 0:
			i = 0
		case 1:
			i = len(d.Chunks) - 1
		}
		c := &d.Chunks[i]
		if c.Err != "" {
			continue
		}
		c.Err = Pick(r, ReadErrs...)
		c.Forever = r.P(60)
		if r.P(50) {
			// the error alone: the bytes come later, or never
			rest := *c
			c.N = 0
			if !c.Forever && rest.N > 0 {
				rest.Err, rest.Forever = "", false
				d.Chunks = append(d.Chunks[:i+1], append([]Chunk{rest}, d.Chunks[i+1:]...)...)
			}
		}
	}
	FixFailing(text, d)
	return d
}

// FixFailing keeps one-off errors between characters: what a scanner should do
// with a character it was given half of is a matter of taste.
func FixFailing(text string, d *Delivery) {
	at := 0
	for i := range d.Chunks {
		c := &d.Chunks[i]
		if at+c.N > len(text) {
			c.N = len(text) - at
		}
		at += c.N
		if c.Err != "" && !c.Forever && at < len(text) && !utf8.RuneStart(text[at]) {
			c.Forever = true
		}
		if c.Forever {
			d.Chunks = d.Chunks[:i+1]
			return
		}
	}
}

// GenLexCfg picks what scans and with which settings.
func GenLexCfg(r *Rng) *LexCfg {
	c := &LexCfg{}
	if r.P(45) {
		return c
	}
	c.Scanner = true
	if r.P(40) {
		c.Mode = GoTokens
	} else {
		for i := 0; i < 8; i++ {
			if r.P(65) {
				c.Mode |= 1 << (uint(i) + 2)
			}
		}
		if r.P(30) {
			c.Mode |= 1<<8 | 1<<9 // comments, skipped
		}
	}
	c.Whitespace = GoWhitespace
	switch r.Int(6) {
	case 0:
		c.Whitespace = 0
	case 1:
		c.Whitespace = 1<<' ' | 1<<'\t'
	case 2:
		c.Whitespace = GoWhitespace &^ (1 << '\n')
	}
	if r.P(35) {
		c.Ident = Pick(r, "dash", "any", "digits", "wide")
	}
	if r.P(30) {
		c.Callback = "text"
	} else if r.P(5) {
		c.Callback = "none"
	}
	return c
}

// Values of package text/scanner, on which the library's scanner is modelled.
const (
	GoWhitespace = 1<<'\t' | 1<<'\n' | 1<<'\r' | 1<<' '
	GoTokens     = 1<<2 | 1<<4 | 1<<5 | 1<<6 | 1<<7 | 1<<8 | 1<<9
)

// GenScript makes a sequence of calls, repeated until the end of the stream:
// S scan, N next, P peek, T token text, O position, R push back, U unwind, E error state.
func GenScript(r *Rng, scanner bool) string {
	switch r.Int(5) {
	case 0, 1:
		return "S"
	case 2:
		return "STO"
	}
	n := 1 + r.Int(9)
	var b strings.Builder
	b.WriteByte('S')
	for i := 0; i < n; i++ {
		if scanner {
			b.WriteByte("SSSTTOOPPNE"[r.Int(11)])
		} else {
			b.WriteByte("SSSTTOORUE"[r.Int(10)])
		}
	}
	return b.String()
}
