package world

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"unicode/utf8"

	"geosim/plan"
	"geosim/vsim"
)

// endless supplies a unit of text over and over, in pieces of seeded sizes.
type endless struct {
	unit  string
	total int64 // bytes until the end
	pos   int64
	sizes []plan.Chunk
	i     int
	reads int64
	fresh bool   // the unit holds a number that is another one each time
	cur   string // the unit of repetition n
	n     int64
}

// serial stands in a unit for a number that is another one in each repetition.
const serial = "0000000"

func numbered(s string, rep int64) string {
	if rep == 0 || !strings.Contains(s, serial) {
		return s
	}
	return strings.ReplaceAll(s, serial, fmt.Sprintf("%07d", rep%10_000_000))
}

// at is the unit at the position reached.
func (r *endless) at() string {
	if !r.fresh {
		return r.unit
	}
	if n := r.pos / int64(len(r.unit)); n != r.n || r.cur == "" {
		r.n, r.cur = n, numbered(r.unit, n)
	}
	return r.cur
}

func (r *endless) Read(p []byte) (int, error) {
	r.reads++
	n := len(p)
	if len(r.sizes) > 0 {
		c := r.sizes[r.i%len(r.sizes)]
		r.i++
		n = min(n, c.N)
	}
	if left := r.total - r.pos; int64(n) > left {
		n = int(left)
	}
	for i := 0; i < n; {
		k := copy(p[i:n], r.at()[int(r.pos%int64(len(r.unit))):])
		i += k
		r.pos += int64(k)
	}
	if r.pos == r.total && (n == 0 || len(p) > 0) {
		if n > 0 {
			return n, nil
		}
		return 0, io.EOF
	}
	return n, nil
}

// meter is the work done so far: statements of the library executed and bytes allocated.
func meter() (steps int64, alloc uint64) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return vsim.Steps(), m.TotalAlloc
}

func held() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// runC22 scans a long stream and watches what it costs.
func runC22(op plan.Op, ts *taskState) *Violation {
	unit := plan.TextBytes(op.Text, op.Hex)
	if unit == "" {
		return nil
	}
	cfg := op.Lex
	if cfg == nil {
		cfg = &plan.LexCfg{}
	}
	if op.Long {
		return longToken(op, unit, cfg, ts)
	}
	if op.Flat && !strings.Contains(unit, "\n") {
		unit += " "
	} else {
		unit += "\n"
	}
	// what one unit is made of
	one := scan(unit+unit, cfg, "STO", strings.NewReader(unit+unit), nil, 0)
	n := len(one.toks)
	for n > 0 && one.toks[n-1].off >= len(unit) || n > 0 && (one.toks[n-1].kind == -1 || one.toks[n-1].text == "") {
		n--
	}
	if one.errors() > reasons(unit+unit) {
		return violation("spurious", "%d errors are counted in %s", one.errors(), clip(q(unit+unit)))
	}
	if n == 0 || one.errors() > 0 {
		ts.skipped++
		return nil
	}
	toks := one.toks[:n]
	for i := range toks {
		if !toks[i].haveOff || i > 0 && toks[i].off < toks[i-1].off {
			ts.skipped++
			return nil
		}
	}
	// units must not run into one another
	for i := n; i < min(2*n, len(one.toks)); i++ {
		a, b := one.toks[i-n], one.toks[i]
		if a.kind != b.kind || a.lit != b.lit || a.text != b.text || a.off+len(unit) != b.off {
			ts.skipped++
			return nil
		}
	}
	lines, cols := strings.Count(unit, "\n"), 0
	if lines == 0 {
		cols = utf8.RuneCountInString(unit)
	}
	reps := max(8, op.Reps)
	src := &endless{unit: unit, total: int64(reps) * int64(len(unit)), fresh: strings.Contains(unit, serial)}
	if src.fresh {
		ts.st.fault("ever-new-names")
	}
	if op.In != nil {
		src.sizes = op.In.Chunks
	}
	l := &lexRun{text: "", cfg: cfg, st: ts.st, cut: true}
	l.start(src, nil)
	var firstSteps, steps0 int64
	var firstAlloc, alloc0, held0 uint64
	quarter := max(1, reps/8)
	ts.st.fault("long-stream")
	for rep := 0; rep < reps; rep++ {
		switch rep {
		case quarter:
			held0 = held()
			steps0, alloc0 = meter()
		case 2 * quarter:
			s, a := meter()
			firstSteps, firstAlloc = s-steps0, a-alloc0
		case reps - quarter:
			steps0, alloc0 = meter()
		}
		for i := range toks {
			l.toks, l.log, l.kept, l.copies = l.toks[:0], l.log[:0], l.kept[:0], l.copies[:0]
			l.call('S')
			l.call('T')
			if l.t != nil {
				l.call('O')
			}
			t, w := l.toks[0], toks[i]
			if src.fresh {
				w.lit, w.text = numbered(w.lit, int64(rep)), numbered(w.text, int64(rep))
			}
			if t.kind != w.kind || t.lit != w.lit || t.text != w.text {
				return violation("tokens", "token %d of unit %d of the stream is %s (kind %d), in the first unit it is %s (kind %d)", i, rep, q(t.text), t.kind, q(w.text), w.kind)
			}
			if t.off != w.off+rep*len(unit) {
				return violation("position", "token %d of unit %d of the stream is reported at offset %d instead of %d", i, rep, t.off, w.off+rep*len(unit))
			}
			if l.s != nil && (t.line != w.line+rep*lines || t.col != w.col+rep*cols) {
				return violation("position", "token %d of unit %d of the stream is reported at %d:%d instead of %d:%d", i, rep, t.line, t.col, w.line+rep*lines, w.col+rep*cols)
			}
			// no more than a buffer is read ahead
		}
	}
	s, a := meter()
	lastSteps, lastAlloc := s-steps0, a-alloc0
	grown := int64(held()) - int64(held0)
	runtime.KeepAlive(l)
	scanned := int64(reps) * int64(len(unit))
	if lastSteps > 2*firstSteps+2000 {
		return violation("work", "scanning %d units took %d steps at the beginning of the stream and %d at its end (%d bytes)", quarter, firstSteps, lastSteps, scanned)
	}
	if lastAlloc > 2*firstAlloc+1<<18 {
		return violation("work", "scanning %d units allocated %d bytes at the beginning of the stream and %d at its end (%d bytes)", quarter, firstAlloc, lastAlloc, scanned)
	}
	if grown > 1<<17 && grown > scanned/64 {
		return violation("memory", "after %d bytes the scanner holds %d bytes more than after %d", scanned, grown, int64(quarter)*int64(len(unit)))
	}
	if l.errors() > 0 {
		return violation("spurious", "%d errors in a stream without any", l.errors())
	}
	for i := 0; i < 2; i++ {
		l.toks = l.toks[:0]
		l.call('S')
		if !l.eof {
			return violation("no-end", "the stream has ended but a token of kind %d follows", l.toks[0].kind)
		}
	}
	return nil
}

func (l *lexRun) errors() int {
	if l.t != nil {
		return l.t.ErrorCount()
	}
	return l.s.ErrorCount
}

// longToken compares what one byte of a long token costs with what one byte of a
// shorter one costs, however it is delivered.
func longToken(op plan.Op, kind string, cfg *plan.LexCfg, ts *taskState) *Violation {
	type cost struct {
		steps int64
		alloc uint64
		reads int64
	}
	ts.st.fault("long-token")
	one := func(size int) (c cost, v *Violation) {
		text := longTok(kind, size)
		src := &endless{unit: text, total: int64(len(text))}
		if op.In != nil {
			src.sizes = op.In.Chunks
		}
		l := &lexRun{text: text, cfg: cfg, st: ts.st, cut: true}
		s0, a0 := meter()
		l.start(src, nil)
		var toks []string
		for i := 0; i < 4 && !l.eof; i++ {
			if l.t != nil {
				l.t.Scan()
				toks = append(toks, l.t.TokenText())
			} else {
				if l.s.Scan() == -1 {
					break
				}
				toks = append(toks, l.s.TokenText())
			}
		}
		s1, a1 := meter()
		if len(toks) == 0 || !strings.HasPrefix(text, toks[0]) || len(toks[0]) < size/2 {
			if kind == "space" || kind == "comment" || kind == "lines" {
				return cost{s1 - s0, a1 - a0, src.reads}, nil
			}
			return c, violation("tokens", "a token of %d bytes is scanned as one of %d", len(text), len(strings.Join(toks[:min(1, len(toks))], "")))
		}
		return cost{s1 - s0, a1 - a0, src.reads}, nil
	}
	size := max(2048, op.Reps)
	small, v := one(size)
	if v != nil {
		return v
	}
	big, v := one(8 * size)
	if v != nil {
		return v
	}
	if big.steps > 12*small.steps+4000 {
		return violation("work", "a token (%s) of %d bytes takes %d steps, one of %d bytes takes %d", kind, size, small.steps, 8*size, big.steps)
	}
	if big.alloc > 20*small.alloc+1<<18 {
		return violation("work", "a token (%s) of %d bytes allocates %d bytes, one of %d bytes allocates %d", kind, size, small.alloc, 8*size, big.alloc)
	}
	return nil
}

// longTok is a token of about n bytes.
func longTok(kind string, n int) string {
	rep := func(u string) string { return strings.Repeat(u, n/len(u)+1) }
	switch kind {
	case "string":
		return `"` + rep("s x") + `" ;`
	case "escapes":
		return `"` + rep(`\"`) + `" ;`
	case "wide":
		return `"` + rep("世") + `" ;`
	case "int":
		return rep("7") + " ;"
	case "float":
		return rep("7") + "." + rep("3") + " ;"
	case "space":
		return rep(" ") + "x ;"
	case "lines":
		return rep("\n") + "x ;"
	case "comment":
		return "//" + rep("c") + "\nx ;"
	}
	s := rep("x1_")
	if !utf8.ValidString(s) {
		return "x"
	}
	return s + " ;"
}
