package world

import (
	"fmt"
	"io"
	"strings"
	"sync/atomic"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// terminator is what the sender puts after each rule: the receiver answers once
// it has scanned it.
const terminator = "\n;\n"

// pipe is a simulated connection: one party writes, the other reads.
type pipe struct {
	buf      []byte
	cap      int
	sent     []byte // everything the connection accepted
	got      int    // bytes handed to the reader
	lost     int    // bytes dropped when the connection was cut
	closed   bool   // the writer is done
	cause    error  // and died of this
	given    bool   // the reader has gone
	cutErr   error  // the connection is cut
	events   []plan.WEvent
	done     []bool
	d        *plan.Delivery
	i        int
	st       *Stats
	rdErrs   int // errors the reader was given
	wrErrs   []error
	afterErr int
	ended    bool // the reader saw the end
	died     bool // the sender was interrupted
}

func (p *pipe) WriteString(s string) (int, error) { return p.put(s) }
func (p *pipe) Write(b []byte) (int, error)       { return p.put(string(b)) }

func (p *pipe) put(s string) (n int, err error) {
	vsim.Charge(len(s))
	vsim.Preempt()
	defer vsim.Preempt()
	if len(p.wrErrs) > 0 {
		p.afterErr++
	}
	for {
		if p.cutErr != nil {
			p.wrErrs = append(p.wrErrs, p.cutErr)
			return n, p.cutErr
		}
		if p.given {
			p.wrErrs = append(p.wrErrs, io.ErrClosedPipe)
			return n, io.ErrClosedPipe
		}
		if n == len(s) {
			return n, nil
		}
		// as much as fits, up to the next thing that happens
		k := min(len(s)-n, p.cap-len(p.buf))
		var ev *plan.WEvent
		for i := range p.events {
			e := &p.events[i]
			at := e.Byte - 1 - len(p.sent)
			if p.done[i] || at < 0 || at > k {
				continue
			}
			if at < k || ev == nil && at == k {
				k, ev = at, e
			}
		}
		p.buf = append(p.buf, s[n:n+k]...)
		p.sent = append(p.sent, s[n:n+k]...)
		n += k
		if k > 0 {
			vsim.Wake()
		}
		if ev != nil {
			for i := range p.events {
				if &p.events[i] == ev {
					p.done[i] = true
				}
			}
			p.happen(ev)
			continue
		}
		if n < len(s) && len(p.buf) == p.cap && p.cutErr == nil && !p.given {
			p.st.fault("connection-full")
			vsim.Block()
		}
	}
}

func (p *pipe) happen(e *plan.WEvent) {
	if e.Stall > 0 {
		p.st.fault("connection-stall")
		stall(e.Stall)
	}
	if e.Panic != "" {
		p.st.fault("sender-" + e.Panic)
		p.died = true
		interrupt(e.Panic)
	}
	if e.Err != "" {
		p.st.fault("connection-cut")
		p.cutErr = MakeErr(e.Err)
		if e.Forever { // what was on its way is lost as well
			p.lost = len(p.buf)
			p.buf = nil
		}
		vsim.Wake()
	}
}

func (p *pipe) Read(b []byte) (int, error) {
	vsim.Preempt()
	defer vsim.Preempt()
	n := len(b)
	scribble := false
	if p.d != nil && len(p.d.Chunks) > 0 {
		c := p.d.Chunks[p.i%len(p.d.Chunks)]
		p.i++
		n = min(n, max(1, c.N))
		scribble = c.Scribble
		if c.Stall > 0 {
			p.st.fault("read-stall")
			stall(c.Stall)
		}
		if c.N == 0 && p.i%3 == 0 {
			p.st.fault("read-empty")
			return 0, nil
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if len(p.buf) > 0 {
			n = copy(b[:n], p.buf)
			p.buf = p.buf[n:]
			p.got += n
			if scribble {
				for j := n; j < len(b); j++ {
					b[j] = "\"(x\xf0=;"[j%6]
				}
			}
			if p.d != nil && p.d.EOFData && p.closed && p.cause == nil && len(p.buf) == 0 && p.cutErr == nil {
				p.ended = true
				return n, io.EOF
			}
			vsim.Wake()
			return n, nil
		}
		switch {
		case p.cutErr != nil:
			p.rdErrs++
			return 0, p.cutErr
		case p.closed && p.cause != nil:
			p.rdErrs++
			return 0, p.cause
		case p.closed:
			p.ended = true
			return 0, io.EOF
		}
		vsim.Block()
	}
}

func kinds(l *lexRun) []string {
	var out []string
	for _, s := range l.log {
		if s[0] != '!' && s[0] != 'E' {
			out = append(out, s)
		}
	}
	return out
}

func isEnd(cfg *plan.LexCfg, t lexTok) bool {
	if cfg.Scanner {
		return t.kind == ';'
	}
	return t.kind == int(geoql.SEMICOLON)
}

// runC21 lets two parties talk: one formats rules onto a connection, the other
// tokenizes what arrives.
func runC21(op plan.Op, ts *taskState) *Violation {
	cfg := op.Lex
	if cfg == nil {
		cfg = &plan.LexCfg{}
	}
	var rules []geoql.Statement
	var full []string // what each rule is as a text
	for _, rd := range op.Rounds {
		rule, err := geoql.Parse(plan.TextBytes(rd.Text, rd.Hex))
		if err != nil {
			ts.skipped++
			continue
		}
		w := newWriter(nil, nil)
		if err := geoql.Format(w, rule); err != nil {
			return violation("healthy", "Format on a healthy destination: %v", err)
		}
		rules = append(rules, rule)
		full = append(full, string(w.Buf))
	}
	if len(rules) == 0 {
		return nil
	}
	script := func(text string) *lexRun { return scan(text, cfg, "STO", strings.NewReader(text), nil, 0) }
	// the number of terminators up to each answer
	var answers []int
	all := ""
	for _, f := range full {
		all += f + terminator
		n := 0
		for _, t := range script(all).toks {
			if isEnd(cfg, t) {
				n++
			}
		}
		answers = append(answers, n)
	}
	p := &pipe{cap: max(1, op.Cap), d: op.In, st: ts.st, done: make([]bool, len(op.Out))}
	for _, e := range op.Out {
		if e.Byte > 0 {
			e.Byte = 1 + (e.Byte-1)%(len(all)+1)
			p.events = append(p.events, e)
		}
	}
	var finished atomic.Bool
	answered := 0
	l := &lexRun{text: all, cfg: cfg, st: newStats(), cut: true}
	var rv *Violation
	vsim.Go(func() {
		defer func() {
			if e := recover(); e != nil && !vsim.Hung() && rv == nil {
				rv = violation("panic", "the receiver: %v", e)
			}
			finished.Store(true)
			vsim.Wake()
		}()
		l.start(p, nil)
		ends, next := 0, 0
		for n := 1; ; n++ {
			l.call('S')
			l.call('T')
			l.call('O')
			t := l.toks[len(l.toks)-1]
			if isEnd(cfg, t) {
				ends++
				for next < len(answers) && ends >= answers[next] {
					next++
					answered = next
					vsim.Wake()
				}
			}
			if op.GiveUp > 0 && n >= op.GiveUp && !l.eof {
				l.st.fault("receiver-gives-up")
				p.given = true
				vsim.Wake()
				return
			}
			if l.eof && n > 1 || n > 4*len(all)+50 {
				return
			}
		}
	})
	// the sender
	var failed error
	acked := 0 // rules whose Format returned nil
	v := (*Violation)(nil)
	for i, rule := range rules {
		var err error
		how := guarded(func() { err = geoql.Format(p, rule) })
		if vsim.Hung() {
			return violation("hang", "Format does not end")
		}
		if how != "" || p.died { // Format may return what it was interrupted with
			failed = fmt.Errorf("simulated death of the sender")
			break
		}
		if err == nil {
			if n := len(p.wrErrs); n > 0 {
				v = violation("swallowed", "the connection failed with %q while rule %d was formatted onto it, but Format returned nil", p.wrErrs[0], i)
				break
			}
			acked++
			how = guarded(func() { _, err = p.put(terminator) })
		} else if len(p.wrErrs) == 0 || !sameErr(err, p.wrErrs[0]) {
			v = violation("other-error", "formatting rule %d onto the connection returned %q; the connection had reported %v", i, err, p.wrErrs)
			break
		} else if p.afterErr > 0 {
			v = violation("write-after-error", "rule %d: %d more write(s) after the connection had failed", i, p.afterErr)
			break
		}
		if err != nil || how != "" || p.died {
			failed = err
			if failed == nil {
				failed = fmt.Errorf("simulated death of the sender")
			}
			break
		}
		if op.Ack {
			for answered < i+1 && !finished.Load() && p.cutErr == nil && !p.given {
				vsim.Block()
			}
		}
	}
	p.closed, p.cause = true, failed
	vsim.Wake()
	for !finished.Load() {
		vsim.Block()
	}
	for k, n := range l.st.Faults {
		ts.st.Faults[k] += n
	}
	if vsim.Hung() {
		return violation("hang", "the receiver does not end")
	}
	ts.note(strings.Join(l.log, "\n"))
	if v != nil {
		return v
	}
	if rv != nil {
		return rv
	}
	if !strings.HasPrefix(all, string(p.sent)) {
		return violation("prefix", "what was put on the connection is not a prefix of the rules' texts: %s", diffAt(string(p.sent), all))
	}
	whole := 0
	for i := 0; i < acked; i++ {
		whole += len(full[i])
	}
	if len(p.sent) < whole {
		return violation("incomplete", "%d rules were acknowledged but only %d of their %d bytes were put on the connection", acked, len(p.sent), whole)
	}
	l.literals()
	if l.badKnd != "" {
		return violation(l.badKnd, "%s", l.bad)
	}
	if p.given {
		// what it had scanned until then must be right
		want := kinds(script(all))
		got := kinds(l)
		if len(got) > len(want) {
			return violation("tokens", "more tokens than were sent")
		}
		if d := firstDiff(got, want[:len(got)]); d != "" {
			return violation("tokens", "received before giving up: %s", d)
		}
		return nil
	}
	if !l.eof {
		return violation("no-end", "the receiver's stream did not end")
	}
	arrived := string(p.sent[:p.got])
	gold := script(arrived)
	got, want := kinds(l), kinds(gold)
	if len(want) > len(got) { // the one-piece scan repeats the end
		want = want[:len(got)]
	}
	if d := firstDiff(got, want); d != "" {
		return violation("tokens", "the receiver's tokens are not those of the %d bytes that arrived: %s", p.got, d)
	}
	count := func(l *lexRun) int {
		if l.t != nil {
			return l.t.ErrorCount()
		}
		return l.s.ErrorCount
	}
	if p.rdErrs > 0 && count(l) <= count(gold) {
		return violation("unreported", "the connection failed with %v, but the receiver's error count is %d", p.cutErr, count(l))
	}
	if p.rdErrs == 0 && count(l) != count(gold) {
		return violation("spurious", "the connection did not fail, but the receiver's error count is %d instead of %d", count(l), count(gold))
	}
	if failed == nil && p.cutErr == nil && arrived != all {
		return violation("incomplete", "nothing failed, but only %d of %d bytes arrived", len(arrived), len(all))
	}
	return nil
}
