package plan

import (
	"strconv"
	"strings"

	"geosim/vsim"
)

// Stock is what the runs of a property that is judged against fresh-process
// results are made of: calls whose results are known.
type Stock struct {
	Ops   []Op   // calls by themselves
	Pairs []Pair // rules with dictionaries
	Sour  []Op   // those of the calls that are likely to fail
	Even  []Op   // and checks of what is likely to suit
}

// Pair is a rule, a dictionary and the calls that are made on them.
type Pair struct {
	Rule   string
	Dict   map[string]int
	Format []Op
	Check  []Op
	Walk   []Op
}

// All are the calls whose results have to be known.
func (s *Stock) All() []Op {
	var out []Op
	for _, op := range s.Ops {
		if op.Kind == "edits" {
			out = append(out, op.Prefixes()...)
		} else {
			out = append(out, op)
		}
	}
	for _, p := range s.Pairs {
		out = append(out, p.Format...)
		out = append(out, p.Check...)
		out = append(out, p.Walk...)
	}
	return out
}

func textOp(kind, text string) Op {
	op := Op{Kind: kind}
	op.Text, op.Hex = PutText(text)
	return op
}

// genWalk picks a traversal; abort makes its visitor abort it.
func genWalk(r *Rng, abort bool) *WalkCfg {
	w := &WalkCfg{Func: r.P(50)}
	if r.P(25) {
		w.Root = r.Int(40)
	}
	if r.P(70) {
		w.Decline = 1 + r.U64()>>40
		w.Percent = Pick(r, 1, 5, 10, 20, 35, 60)
	}
	if abort {
		w.Abort = 1 + r.Int(30)
		w.How = Pick(r, "panic", "error", "nilmap")
	}
	return w
}

// genOut is what one destination does; byteOnly describes it in a way that does
// not depend on how the text is cut into writes.
func genOut(r *Rng, byteOnly bool) WEvent {
	e := WEvent{Call: -1, Byte: 1 + r.Int(Pick(r, 12, 60, 200, 800)), Err: Pick(r, WriteErrs...), Forever: r.P(40)}
	if !byteOnly && r.P(60) {
		e.Byte = 0
		e.Call = r.Int(Pick(r, 6, 30, 120))
		e.Accept = Pick(r, 0, 0, 1, 2, 5, 1000)
	}
	return e
}

func stallOut(r *Rng) WEvent {
	return WEvent{Call: -1, Byte: 1 + r.Int(80), Stall: int64(1 + r.Int(5000))}
}

// genCall is one call of any kind on its own data.
func genCall(r *Rng, small bool) Op {
	switch r.Int(12) {
	case 0, 1, 2:
		var text string
		if r.P(60) {
			text = GenRule(r, false, small)
		} else {
			text = GenText(r)
		}
		if len(text) > 2500 && small {
			text = text[:boundary(text, 2500)]
		}
		noisy := r.P(15)
		if noisy {
			var b strings.Builder
			for n := r.Range(8, 40); n > 0; n-- {
				b.WriteString(Pick(r, "'ab' ", "\"\n", "\x00 ", "\xff ", "0x ", "09 ", "\"\\q\" ", "''", "1e ", "0b2 ", "x ", "5 ", "; ", "\xe4\xb8 ", "'\n"))
			}
			text = b.String() + Pick(r, "", "/*", "`", "\"", "'")
		}
		op := textOp("lex", text)
		op.Sour = noisy
		op.Lex = GenLexCfg(r)
		if op.Lex.Callback == "none" {
			op.Lex.Callback = ""
		}
		op.Script = GenScript(r, op.Lex.Scanner)
		if noisy {
			op.Script = Pick(r, "SE", "STE", "S", op.Script)
		}
		if r.P(70) {
			op.In = GenDelivery(r, text, r.P(50))
			if len(op.In.Chunks) > 200 {
				op.In = &Delivery{Chunks: []Chunk{{N: len(text) / 2, Stall: 5}}}
			}
		}
		return op
	case 3, 4, 5:
		text := GenRule(r, r.P(30), small)
		if r.P(35) {
			text = GenBadRule(r, small)
			if r.P(20) {
				text = GenOddRule(r)
			}
			op := textOp("parse", text)
			op.Sour = true
			return op
		}
		return textOp("parse", text)
	case 6, 7, 8:
		op := textOp("format", GenRule(r, false, small))
		if r.P(25) {
			op.Out = []WEvent{genOut(r, true)}
		}
		if r.P(30) {
			op.Out = append(op.Out, stallOut(r))
		}
		return op
	case 9, 10:
		text := GenRule(r, r.P(85), small)
		if r.P(10) {
			text = GenOddRule(r)
		}
		op := textOp("check", text)
		op.Dict = GenDict(r)
		return op
	}
	if r.P(20) {
		return textOp("keyword", strconv.Itoa(r.Int(110)))
	}
	text := GenRule(r, false, small)
	if r.P(10) {
		text = GenOddRule(r)
	}
	op := textOp("walk", text)
	op.Walk = genWalk(r, false)
	return op
}

// genInterrupted is a call that is ended from inside by what the caller supplied.
func genInterrupted(r *Rng) Op {
	how := Pick(r, "panic", "panic", "error", "goexit", "nilmap")
	switch r.Int(8) {
	case 0, 1, 2: // the source
		var op Op
		for {
			op = genCall(r, true)
			if op.Kind == "lex" {
				break
			}
		}
		text := TextBytes(op.Text, op.Hex)
		if op.In == nil || len(op.In.Chunks) == 0 {
			op.In = GenDelivery(r, text, false)
		}
		i := r.Int(len(op.In.Chunks) + 1)
		op.In.Chunks = append(op.In.Chunks[:i:i], Chunk{Panic: how})
		return op
	case 3: // the handler
		text := GenRule(r, false, true)
		at := boundary(text, r.Int(len(text)+1))
		text = text[:at] + Pick(r, "\x00", "\xff", "'ab'", "\"\n", "0x", "`") + text[at:]
		op := textOp("lex", text)
		op.Lex = &LexCfg{Scanner: true, Mode: GoTokens, Whitespace: GoWhitespace, CBPanic: how}
		op.Script = GenScript(r, true)
		return op
	case 4, 5: // the destination
		op := textOp("format", GenRule(r, false, true))
		op.Out = []WEvent{{Call: -1, Byte: 1 + r.Int(Pick(r, 10, 40, 150)), Panic: how}}
		return op
	}
	op := textOp("walk", GenRule(r, false, true))
	op.Walk = genWalk(r, true)
	op.Walk.How = how
	return op
}

// GenStock makes n calls (roughly) for a property.
func GenStock(prop string, seed uint64, n int) *Stock {
	r := NewRng(seed, hashName(prop), 77)
	s := &Stock{}
	switch prop {
	case "C07":
		for i := 0; i < 95; i++ {
			s.Ops = append(s.Ops, textOp("keyword", strconv.Itoa(i)))
		}
		for len(s.Ops)+3*len(s.Pairs) < n {
			if r.P(25) {
				s.Ops = append(s.Ops, genCall(r, true))
				continue
			}
			s.Pairs = append(s.Pairs, genPairs(r, r.P(35), 1)...)
		}
	case "C30":
		for i := 0; i < 95; i++ {
			s.Ops = append(s.Ops, textOp("keyword", strconv.Itoa(i)))
		}
		for len(s.Ops)+5*len(s.Pairs) < n {
			if r.P(50) {
				s.Ops = append(s.Ops, genCall(r, true))
				continue
			}
			s.Pairs = append(s.Pairs, genPairs(r, r.P(50), 1)...)
			s.Ops = append(s.Ops, textOp("parse", s.Pairs[len(s.Pairs)-1].Rule))
		}
	case "C08":
		for len(s.Pairs)*2 < n {
			k := 1 + r.Int(8)
			s.Pairs = append(s.Pairs, genPairs(r, r.P(92), k)...)
		}
	case "C10":
		for len(s.Pairs)*6 < n {
			s.Pairs = append(s.Pairs, genPairs(r, r.P(60), 1)...)
		}
	case "C25":
		for k := 0; k < n; {
			p := genPairs(r, r.P(50), 1)[0]
			for j := r.Range(1, 3); j > 0; j-- {
				op := genEdits(r, p)
				s.Ops = append(s.Ops, op)
				k += 1 + len(op.Edits)
			}
			if r.P(30) {
				s.Ops = append(s.Ops, textOp("parse", p.Rule), p.Format[0], p.Check[0])
				k += 3
			}
		}
	case "C24":
		for len(s.Pairs)*12 < n {
			s.Pairs = append(s.Pairs, genPairs(r, r.P(60), 1)...)
		}
		fallthrough
	default:
		for len(s.Ops) < n {
			if r.P(20) {
				// variations on one text, which callers may pick at the same time
				p := genPairs(r, r.P(50), 1)[0]
				s.Ops = append(s.Ops, textOp("parse", p.Rule), p.Format[0], p.Check[0], p.Walk[0])
				continue
			}
			s.Ops = append(s.Ops, genCall(r, true))
		}
	}
	s.sort()
	return s
}

// sort tells apart what the calls are likely to do.
func (s *Stock) sort() {
	s.Sour, s.Even = nil, nil
	for _, op := range s.Ops {
		switch {
		case op.Sour:
			s.Sour = append(s.Sour, op)
		case op.Kind == "check":
			s.Even = append(s.Even, op)
		}
	}
}

// genPairs is one rule with k dictionaries.
func genPairs(r *Rng, check bool, k int) []Pair {
	text := GenRule(r, check, r.P(80))
	var out []Pair
	base := GenDict(r)
	for i := 0; i < k; i++ {
		d := GenDict(r)
		if i > 0 && r.P(60) { // differs from the first in one entry
			d = map[string]int{}
			for _, n := range DictNames {
				if t, ok := base[n]; ok {
					d[n] = t
				}
			}
			n := Pick(r, DictNames...)
			if _, ok := d[n]; ok && r.P(30) {
				delete(d, n)
			} else {
				d[n] = 1 + r.Int(7)
			}
		}
		if i == 0 {
			d = base
		}
		p := Pair{Rule: text, Dict: d}
		p.Format = append(p.Format, textOp("format", text))
		f := textOp("format", text)
		f.Out = []WEvent{stallOut(r)}
		p.Format = append(p.Format, f)
		f = textOp("format", text)
		f.Out = []WEvent{genOut(r, true)}
		p.Format = append(p.Format, f)
		c := textOp("check", text)
		c.Dict = d
		p.Check = append(p.Check, c)
		for j := 0; j < 2; j++ {
			w := textOp("walk", text)
			w.Walk = genWalk(r, false)
			p.Walk = append(p.Walk, w)
		}
		out = append(out, p)
	}
	return out
}

func (p *Pair) any(r *Rng) Op {
	switch r.Int(3) {
	case 0:
		return Pick(r, p.Format...)
	case 1:
		return Pick(r, p.Check...)
	}
	return Pick(r, p.Walk...)
}

func hashName(s string) uint64 {
	var h uint64
	for i := 0; i < len(s); i++ {
		h = h*131 + uint64(s[i])
	}
	return h
}

func genPolicy(r *Rng) vsim.Policy {
	p := vsim.Policy{Seed: r.U64() >> 16}
	switch r.Int(10) {
	case 0, 1:
		p.Mode, p.Mean = "lockstep", Pick(r, 1, 1, 2, 4)
	case 2, 3, 4:
		p.Mode, p.Depth = "pct", r.Range(1, 6)
	default:
		p.Mode, p.Mean = "random", Pick(r, 1, 2, 4, 8, 20, 60, 200, 1000)
	}
	return p
}

// Size is the number of episodes in one simulated process.
func Size(prop string) int {
	switch prop {
	case "C09":
		return 7
	case "C21", "C24":
		return 30
	case "C22":
		return 3
	case "C31":
		return 8
	case "C32":
		return 25
	case "C27":
		return 12
	case "C10", "C12":
		return 12
	case "C28":
		return 25
	case "C25":
		return 15
	case "C07", "C08":
		return 25
	case "C30":
		return 12
	}
	return 60
}

// GenScenario makes simulated process number i of a property.
func GenScenario(prop string, seed, i uint64, stock *Stock) *Scenario {
	r := NewRng(seed, hashName(prop), i, 1)
	sc := &Scenario{Prop: prop, InitMap: r.U64() >> 16}
	if prop == "C30" || (prop == "C06" || prop == "C07") && r.P(50) {
		sc.Place = genPlace(r)
	}
	for k := 0; k < Size(prop); k++ {
		sc.Episodes = append(sc.Episodes, genEpisode(prop, NewRng(seed, hashName(prop), i, uint64(k), 2), stock))
	}
	return sc
}

func genEpisode(prop string, r *Rng, stock *Stock) (ep Episode) {
	ep = Episode{Seed: r.U64() >> 16, MapSeed: r.U64() >> 16, Policy: genPolicy(r)}
	if r.P(15) {
		ep.MapSeed = 0
	}
	one := func(f func() Op) {
		n := 1
		if r.P(15) {
			n = 2
		}
		for i := 0; i < n; i++ {
			ep.Tasks = append(ep.Tasks, Task{[]Op{f()}})
		}
	}
	switch prop {
	case "C01":
		one(func() Op { return genLex(r, func(t string) *Delivery { return GenDelivery(r, t, false) }) })
	case "C29":
		one(func() Op { return genDamage(r) })
	case "C02":
		quiet := true
		defer func() {
			// a scanner without a handler prints, which would be blamed on the other caller
			for _, t := range ep.Tasks {
				quiet = quiet && (t.Ops[0].Lex.Callback != "none")
			}
			if !quiet {
				ep.Tasks = ep.Tasks[:1]
			}
		}()
		one(func() Op { return genLex(r, func(t string) *Delivery { return GenFailing(r, t) }) })
	case "C03":
		one(func() Op { return genLex(r, func(t string) *Delivery { return GenDelivery(r, t, true) }) })
	case "C04":
		one(func() Op { return genReuse(r) })
	case "C05":
		one(func() Op {
			op := textOp("save", GenRule(r, false, r.P(60)))
			if r.P(15) {
				op = textOp("save", GenOddRule(r))
			}
			for i := 0; i <= r.Int(8); i++ {
				e := genOut(r, false)
				if r.P(15) {
					e.Err, e.Panic = "", Pick(r, "panic", "error")
				}
				if r.P(10) {
					e.Stall = int64(r.Int(1000))
				}
				op.Out = append(op.Out, e)
			}
			op.All = r.P(15) && len(op.Text) < 1200
			return op
		})
	case "C06":
		one(func() Op {
			op := textOp("save", GenRule(r, r.P(30), r.P(60)))
			if r.P(40) {
				op = textOp("save", GenOddRule(r))
			}
			if r.P(60) {
				var text string
				text, op.Dict = spellings(r, TextBytes(op.Text, op.Hex), GenDict(r))
				op.Text, op.Hex = PutText(text)
			}
			for i := 0; i <= r.Int(3); i++ {
				rd := Round{Map: r.U64() >> 16}
				for j := r.Int(4); j > 0; j-- {
					e := genOut(r, false)
					if r.P(15) {
						e.Err, e.Panic = "", Pick(r, "panic", "error")
					}
					rd.Out = append(rd.Out, e)
				}
				op.Rounds = append(op.Rounds, rd)
			}
			return op
		})
	case "C21":
		one(func() Op { return genConverse(r) })
	case "C22":
		ep.Tasks = []Task{{[]Op{genStream(r)}}}
	case "C23":
		one(func() Op {
			op := genLex(r, func(t string) *Delivery { return GenDelivery(r, t, false) })
			if op.Lex.Callback == "none" {
				op.Lex.Callback = ""
			}
			n := r.Range(1, 10)
			var b strings.Builder
			for i := 0; i < n; i++ {
				if op.Lex.Scanner {
					b.WriteByte("PPPNNNSSOE"[r.Int(10)])
				} else {
					b.WriteByte("SRRUDV"[r.Int(6)])
				}
			}
			op.Script = b.String()
			return op
		})
	case "C24":
		n := 1
		if r.P(15) {
			n = 2
		}
		shared := r.P(45)
		if shared {
			p := stock.Pairs[r.Int(len(stock.Pairs))]
			ep.Rule, ep.Dict = p.Rule, p.Dict
			for i := 0; i < n; i++ {
				var ops []Op
				for k := r.Range(1, 3); k > 0; k-- {
					op, other, third := p.any(r), p.any(r), p.any(r)
					op.Shared, other.Shared, third.Shared = true, true, true
					if r.P(25) {
						other = inside(r, other, third)
					}
					ops = append(ops, inside(r, op, other))
				}
				ep.Tasks = append(ep.Tasks, Task{ops})
			}
			return ep
		}
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(1, 3); k > 0; k-- {
				op := Pick(r, stock.Ops...)
				for j := 0; j < 20 && op.Kind != "lex" && op.Kind != "format" && op.Kind != "walk"; j++ {
					op = Pick(r, stock.Ops...)
				}
				other := Pick(r, stock.Ops...)
				if r.P(25) { // the same again
					other = op
				} else if r.P(40) {
					for j := 0; j < 20 && op.Kind != other.Kind; j++ {
						other = Pick(r, stock.Ops...)
					}
				}
				if r.P(25) {
					other = inside(r, other, Pick(r, stock.Ops...))
				}
				ops = append(ops, inside(r, op, other))
				if r.P(30) {
					ops = append(ops, Pick(r, stock.Ops...))
				}
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
	case "C25":
		n := 1
		if r.P(30) {
			n = 2
		}
		focus := r.Int(len(stock.Ops))
		near := r.P(50)
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(1, 4); k > 0; k-- {
				j := r.Int(len(stock.Ops))
				if near { // edits of one text lie next to each other
					j = max(0, min(len(stock.Ops)-1, focus+r.Range(-4, 4)))
				}
				op := stock.Ops[j]
				op.Also = op.Kind == "edits" && r.P(35)
				ops = append(ops, op)
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
	case "C26":
		one(func() Op { return genSettings(r) })
	case "C28":
		n := Pick(r, 1, 1, 2, 2, 3)
		text := ""
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(2, 7); k > 0; k-- {
				if r.P(8) {
					ops = append(ops, genInterrupted(r))
					continue
				}
				op := genCall(r, r.P(85))
				switch {
				case op.Kind == "lex" && r.P(45):
					op.Reps = 1 + r.Int(Pick(r, 4, 15, 60))
				case op.Kind != "lex" && op.Kind != "keyword" && text != "" && r.P(30): // the same text again
					op.Text, op.Hex, op.Sour = text, "", false
				}
				if op.Kind == "format" || op.Kind == "parse" && !op.Sour {
					if op.Hex == "" {
						text = op.Text
					}
				}
				ops = append(ops, op)
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
	case "C27":
		ep.Tasks = []Task{{[]Op{genCost(r)}}}
	case "C32":
		n := Pick(r, 1, 1, 1, 2, 3)
		for i := 0; i < n; i++ {
			ep.Tasks = append(ep.Tasks, Task{[]Op{genOver(r)}})
		}
	case "C31":
		ep.Tasks = []Task{{[]Op{genDeep(r)}}}
		ep.Policy = vsim.Policy{Mode: "serial"}
	case "C11":
		one(func() Op {
			op := textOp("walk", GenRule(r, r.P(30), r.P(60)))
			if r.P(15) {
				op = textOp("walk", GenOddRule(r))
			}
			op.Walk = genWalk(r, r.P(25))
			op.Dict = GenDict(r)
			if r.P(40) {
				op.Walk.Reenter = 1 + r.Int(30)
				op.Walk.ReenterW = Pick(r, "walk", "walk", "format", "parse", "check")
			}
			return op
		})
	case "C07", "C08":
		var ops []Op
		for n := 1 + r.Int(4); n > 0; n-- {
			ops = append(ops, genStocked(prop, r, stock))
		}
		if r.P(2) {
			op := &ops[0]
			if op.Kind == "use" {
				op = &op.Seq[0]
			}
			*op = repeated(r, *op)
		}
		ep.Tasks = []Task{{ops}}
	case "C30":
		n := 1
		if r.P(20) {
			n = 2
		}
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(1, 4); k > 0; k-- {
				op := slowed(r, genStocked(prop, r, stock))
				if r.P(30) {
					op.Delay = span(r)
				}
				ops = append(ops, op)
				if r.P(15) { // the same again, later
					op.Delay = span(r)
					ops = append(ops, op)
				}
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
		for k := r.Int(5); k > 0; k-- {
			e := vsim.Event{At: 1 + int64(r.Int(1<<r.Range(3, 13))), Kind: Pick(r, "jump", "suspend", "suspend", "gc")}
			if e.Kind != "gc" {
				e.Ms = span(r)
			}
			if e.Kind == "jump" && r.P(50) {
				e.Ms = -e.Ms
			}
			ep.Policy.Events = append(ep.Policy.Events, e)
		}
	case "C09":
		n := r.Range(2, 4)
		focus := Pick(r, stock.Ops...)
		style := r.Int(6)
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(1, 3); k > 0; k-- {
				op := Pick(r, stock.Ops...)
				switch style {
				case 0:
					op = focus
				case 1:
					for j := 0; j < 40 && op.Kind != focus.Kind; j++ {
						op = Pick(r, stock.Ops...)
					}
				case 2: // mistakes, and what comes after them
					if r.P(50) && len(stock.Sour) > 0 {
						op = Pick(r, stock.Sour...)
						if k == 1 {
							k++
						}
					}
				case 3:
					if len(stock.Even) > 0 {
						op = Pick(r, stock.Even...)
					}
				}
				if r.P(12) {
					op.Delay = int64(r.Int(50))
				}
				if r.P(15) {
					op = aside(r, op, Pick(r, stock.Ops...))
				}
				ops = append(ops, op)
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
		if r.P(3) {
			ops := ep.Tasks[0].Ops
			ops[0] = repeated(r, ops[0])
		}
	case "C10":
		p := stock.Pairs[r.Int(len(stock.Pairs))]
		ep.Rule, ep.Dict = p.Rule, p.Dict
		n := r.Range(2, 4)
		focus := p.any(r)
		same := r.P(35)
		for i := 0; i < n; i++ {
			var ops []Op
			for k := r.Range(1, 3); k > 0; k-- {
				op := p.any(r)
				if same && r.P(70) {
					op = focus
				}
				op.Shared = true
				if r.P(12) {
					other := p.any(r)
					other.Shared = true
					op = aside(r, op, other)
				}
				if r.P(12) {
					op.Delay = int64(r.Int(50))
				}
				ops = append(ops, op)
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
	case "C12":
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			var ops []Op
			if i == 0 || r.P(30) {
				for k := r.Range(1, 4); k > 0; k-- {
					op := genInterrupted(r)
					ops = append(ops, op)
					if r.P(30) && (op.Kind == "walk" || op.Kind == "format") {
						// and the same rule is used again afterwards
						u := Op{Kind: "use", Text: op.Text, Hex: op.Hex}
						sub := op
						sub.Text, sub.Hex = "", ""
						u.Seq = append(u.Seq, sub)
						ops[len(ops)-1] = u
					}
				}
			}
			for k := r.Range(1, 4); k > 0; k-- {
				op := Pick(r, stock.Ops...)
				if r.P(20) && len(stock.Sour) > 0 {
					op = Pick(r, stock.Sour...)
				}
				if r.P(30) {
					op.Delay = int64(r.Int(20000))
				}
				if r.P(5) {
					op = aside(r, op, genInterrupted(r))
				}
				ops = append(ops, op)
			}
			ep.Tasks = append(ep.Tasks, Task{ops})
		}
		if r.P(4) {
			op := &ep.Tasks[0].Ops[0]
			if op.Kind == "use" {
				op = &op.Seq[0]
			}
			if !op.Ends() {
				*op = repeated(r, *op)
			}
		}
	}
	return ep
}

var zones = []string{"", "UTC", "America/Los_Angeles", "America/Sao_Paulo", "Europe/London", "Europe/Berlin", "Africa/Cairo", "Asia/Kolkata", "Asia/Kathmandu",
	"Asia/Tokyo", "Asia/Shanghai", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Marquesas", "Etc/GMT+12", "America/St_Johns", "Asia/Tehran"}

var clocks = []string{"", "1970-01-01T00:00:00Z", "1999-12-31T23:59:59.999Z", "2000-02-29T00:00:00Z", "2023-03-12T09:59:59Z", "2024-12-31T23:59:59Z",
	"2025-03-30T00:59:59.5Z", "2025-10-26T00:30:00Z", "2026-11-20T04:00:00Z", "2038-01-19T03:14:07Z", "2100-02-28T23:59:00Z", "0001-01-01T00:00:00Z", "2261-12-31T12:00:00Z", "9999-12-31T12:00:00Z"}

// genPlace is where and when a process runs.
func genPlace(r *Rng) *vsim.Place {
	p := &vsim.Place{}
	if r.P(75) {
		p.Zone = Pick(r, zones...)
	}
	if r.P(75) {
		p.Clock = Pick(r, clocks...)
	}
	if r.P(70) {
		p.Vars = 1 + r.U64()>>16
	}
	if r.P(70) {
		p.CPUs = Pick(r, 1, 2, 3, 8, 64)
	}
	return p
}

// span is a stretch of time in milliseconds, of any order of magnitude up to some years.
func span(r *Rng) int64 {
	return 1 + int64(r.N(uint64(Pick(r, 10, 1_000, 10_000, 100_000, 4_000_000, 100_000_000, 3_000_000_000, 100_000_000_000))))
}

// slowed lets a call's source or destination take its time.
func slowed(r *Rng, op Op) Op {
	if op.Kind == "use" {
		op.Seq = append([]Op(nil), op.Seq...)
		for i := range op.Seq {
			op.Seq[i] = slowed(r, op.Seq[i])
		}
		return op
	}
	if op.In != nil && r.P(60) {
		in := *op.In
		in.Chunks = append([]Chunk(nil), in.Chunks...)
		for k := 1 + r.Int(3); k > 0 && len(in.Chunks) > 0; k-- {
			in.Chunks[r.Int(len(in.Chunks))].Stall = span(r)
		}
		op.In = &in
	}
	if op.Kind == "format" && r.P(60) {
		out := append([]WEvent(nil), op.Out...)
		for k := 1 + r.Int(3); k > 0; k-- {
			out = append(out, WEvent{Call: -1, Byte: 1 + r.Int(400), Stall: span(r)})
		}
		op.Out = out
	}
	return op
}

// aside lets another goroutine make a call in the middle of this one.
func aside(r *Rng, op, other Op) Op {
	if op.Kind == "lex" || op.Kind == "format" || op.Kind == "walk" {
		other.Delay = 0
		op.Side = &other
		op.SideAt = r.Int(Pick(r, 1, 3, 12, 40))
	}
	return op
}

// inside is the same by the same goroutine, from inside what it supplied.
func inside(r *Rng, op, other Op) Op {
	op = aside(r, op, other)
	op.Inline = op.Side != nil
	return op
}

// genConverse is a conversation over a connection.
func genConverse(r *Rng) Op {
	op := Op{Kind: "converse", Cap: Pick(r, 1, 2, 3, 7, 16, 64, 100, 512, 1024, 4096, 1<<20), Ack: r.P(50), Lex: &LexCfg{Scanner: r.P(30)}}
	for n := r.Range(1, 4); n > 0; n-- {
		rd := Round{}
		rd.Text, rd.Hex = PutText(GenRule(r, false, true))
		op.Rounds = append(op.Rounds, rd)
	}
	if r.P(75) {
		op.In = GenDelivery(r, strings.Repeat("x", 60), r.P(30))
	}
	for r.P(30) {
		op.Out = append(op.Out, WEvent{Call: -1, Byte: 1 + r.Int(5000), Stall: int64(1 + r.Int(5000))})
	}
	switch r.Int(6) {
	case 0, 1:
		op.Out = append(op.Out, WEvent{Call: -1, Byte: 1 + r.Int(Pick(r, 20, 100, 1000, 5000)), Err: Pick(r, "eio", "timeout", "closed", "wrapeof", "ueof", "quota", "eintr"), Forever: r.P(50)})
	case 2:
		op.Out = append(op.Out, WEvent{Call: -1, Byte: 1 + r.Int(Pick(r, 20, 100, 1000, 5000)), Panic: Pick(r, "panic", "error")})
	case 3:
		op.GiveUp = 1 + r.Int(Pick(r, 5, 30, 200))
	}
	return op
}

var longKinds = []string{"string", "escapes", "wide", "int", "float", "space", "lines", "comment", "ident"}

// genStream is a long scan.
func genStream(r *Rng) Op {
	op := Op{Kind: "stream", Lex: &LexCfg{Scanner: r.P(50)}}
	sizes := func(lo int) {
		if r.P(80) {
			op.In = &Delivery{}
			for n := r.Range(1, 9); n > 0; n-- {
				op.In.Chunks = append(op.In.Chunks, Chunk{N: Pick(r, 1, 2, 3, 5, 17, 64, 100, 255, 700, 1024, 5000) + lo})
			}
		}
	}
	if r.P(35) {
		op.Long, op.Text, op.Reps = true, Pick(r, longKinds...), Pick(r, 2048, 5000, 12000)
		sizes(0)
		return op
	}
	var unit string
	switch r.Int(4) {
	case 0:
		unit = Pick(r, "a", "x = 1;", "\"s\" 1.5 <= 世", "not in", "// c\nx", "1 .. 2", "a\n\n\nb", "\"\\\"\"")
	case 1:
		unit = strings.TrimSpace(GenRule(r, false, true)) + " ;"
	default:
		var b strings.Builder
		for n := r.Range(1, 12); n > 0; n-- {
			b.WriteString(Pick(r, "ident", "été", "42", "1.5", "\"str\"", "\"世\"", ";", "==", "=", "<= 4", "..", "(", "]", "not in", "+", "@v", ":", "\n", "// c\n", "speed {\"a\"}") + " ")
		}
		unit = b.String() + ";"
	}
	if r.P(40) { // names and numbers that did not come before
		fresh := Pick(r, "q0000000", "Tracker_0000000", "\"dev-0000000\"", "10000000", "1.50000000", "@v0000000", "\"\\\"0000000\"", "// 0000000\nx", "é0000000")
		unit = Pick(r, unit+" "+fresh+" ;", fresh+" "+unit, fresh+" ;")
	}
	op.Flat = r.P(35) && !strings.Contains(unit, "//")
	if op.Flat {
		unit = strings.ReplaceAll(unit, "\n", " ")
	}
	op.Text, op.Hex = PutText(unit)
	op.Reps = Pick(r, 10_000, 50_000, 140_000, 300_000) / (len(unit) + 1)
	if r.P(8) {
		op.Reps *= 6
	}
	if len(unit) < 3 {
		op.Reps = 70_000 // line numbers beyond 16 bits
	}
	sizes(0)
	return op
}

// genEdits is a rule that is edited and used in between.
func genEdits(r *Rng, p Pair) Op {
	op := textOp("edits", p.Rule)
	for k := r.Range(1, 4); k > 0; k-- {
		op.Edits = append(op.Edits, 1+r.U64()>>40)
	}
	for _, c := range []Op{p.Format[0], p.Check[0], p.Walk[0]} {
		if r.P(65) {
			c.Text, c.Hex = "", ""
			op.Seq = append(op.Seq, c)
		}
	}
	return op
}

// genCost is a rule of several sizes, or calls made over and over.
func genCost(r *Rng) Op {
	if r.P(40) {
		op := Op{Kind: "history", Reps: Pick(r, 40, 80, 160)}
		fresh := r.P(50)
		size := 0
		for n := r.Range(1, 8); n > 0 && size < 3000; n-- {
			sub := genCall(r, true)
			if r.P(30) {
				sub = genInterrupted(r)
			}
			if sub.Ends() || len(sub.Text) > 1500 {
				continue
			}
			if fresh {
				sub.Text = everNew(r, sub.Text)
			}
			size += 20 + len(sub.Text) + len(sub.Hex)
			op.Seq = append(op.Seq, sub)
		}
		for len(op.Seq) > 0 && op.Reps*size < 30_000 {
			op.Reps *= 2
		}
		return op
	}
	return genParts(r, r.Int(14), Op{Kind: "growth", Reps: Pick(r, 32, 128, 512), Dict: GenDict(r), All: r.P(30)})
}

// genOver is a few calls that are made over and over.
func genOver(r *Rng) Op {
	op := Op{Kind: "over", Reps: Pick(r, 4, 6, 10), Edits: []uint64{1 + r.U64()>>40}, All: r.P(20)}
	for n := r.Range(1, 4); n > 0; n-- {
		sub := genCall(r, true)
		switch {
		case r.P(25):
			sub = genInterrupted(r)
		case sub.Kind == "lex" && r.P(30):
			sub.Reps = 1 + r.Int(Pick(r, 4, 15, 60)) // not to the end
		case sub.Kind == "keyword":
			continue
		}
		if len(sub.Text)+len(sub.Hex) > 1500 {
			continue
		}
		if r.P(25) {
			sub = slowed(r, sub)
		}
		op.Seq = append(op.Seq, sub)
	}
	return op
}

// genDeep is a rule of which one part comes very often, or a text to scan.
func genDeep(r *Rng) Op {
	op := Op{Kind: "deep", Dict: GenDict(r)}
	switch r.Int(10) {
	case 0, 1: // nested to some depth
		op.Reps = Pick(r, 300, 1000, 5000, 9990+r.Int(20), 12_000, 100_000, 2_500_000, 2_500_000, 2_500_000)
		op.Deep = "nested"
		op = genNested(r, op)
		size := 0
		for _, p := range op.Rounds {
			if p.Calls > 0 {
				size += len(p.Text) + len(p.Hex)
			}
		}
		for op.Reps*size > 16_000_000 {
			op.Reps /= 2
		}
		return op
	case 2: // one operator after the other
		op.Reps = Pick(r, 20_000, 100_000)
		op.Deep = "chain"
		unit := Pick(r, "+1", "*2", " and a", " or (a == 1)", " or a == 1 and b > 2", "-@v", "+1.5 == 1")
		if r.P(40) {
			op.Reps = Pick(r, 300_000, 999_990+r.Int(20), 1_000_000)
			if r.P(20) {
				op.Reps, unit = Pick(r, 3_000_000, 6_000_000, 15_000_000), "+1"
			}
		}
		op.Rounds = []Round{{Text: Pick(r, "when 1", "set v = 1; when a")}, {Text: unit, Calls: 1}, {Text: Pick(r, "", " > 3", " reset after 1h")}}
		return op
	case 3, 4: // other rules
		op.Deep = "flat"
		kind := r.Range(7, 13)
		op = genParts(r, kind, op)
		op.Reps = Pick(r, 20_000, 60_000, 150_000)
		if kind == 7 || kind == 8 {
			op.Reps = 6000 // looking up a variable takes as long as there are variables
		}
		for _, p := range op.Rounds {
			if p.Calls > 0 && (strings.Contains(p.Text, " and ") || strings.Contains(p.Text, " or ")) {
				op.Deep = "chain"
			}
		}
		return op
	}
	// scanning
	op.Deep, op.Dict = "flat", nil
	op.Lex = &LexCfg{Scanner: r.P(50)}
	if op.Lex.Scanner {
		if r.P(60) {
			op.Lex.Mode = Pick(r, uint(GoTokens), GoTokens, GoTokens&^(1<<9), 1<<2|1<<4, 1<<8|1<<9)
			op.Lex.Whitespace = Pick(r, uint64(GoWhitespace), 0, 1<<32)
			op.Lex.Ident = Pick(r, "", "dash", "any", "digits")
		}
	}
	op.Script = Pick(r, "S", "S", "ST", "STO", "SP", "PS", "SN", "N", "SRS", "SUS", "SPE", "SRUSS")
	units := []string{"// c\n", "/* c */", "/**/ ", " ", "\n", "\t\r\n", "a", "a ", ";", "(", "not ", "not in ", "= ", ". ", ".. ", "..", "! ", ">", "\"s\" ", "\"", "'", "`", "'x' ", "\\", "/*", "//", "1", "1.", "1 ", "9:05AM ",
		"\x00", "\xff", "\xe4\xb8", "\ufeff", "世", "é ", "@", "@v ", "#", "\"\\q\" ", "\"\n", "\"\\\"", "NOT eq ", "speed{\"a\"} ", "12km "}
	unit := Pick(r, units...)
	for r.P(35) {
		unit += Pick(r, units...)
	}
	n := Pick(r, 20_000, 60_000, 150_000)
	for n*len(unit) > 1_200_000 {
		n /= 2
	}
	op.Reps = n
	var head, tail Round
	head.Text = Pick(r, "", "", "when a ", "\"s", "/*", "// ")
	tail.Text = Pick(r, "", "", " b", "*/", "\"", "\n")
	var mid Round
	mid.Text, mid.Hex = PutText(unit)
	mid.Calls = 1
	op.Rounds = []Round{head, mid, tail}
	if r.P(50) {
		op.In = &Delivery{}
		for n := r.Range(1, 9); n > 0; n-- {
			op.In.Chunks = append(op.In.Chunks, Chunk{N: Pick(r, 1, 2, 3, 5, 17, 64, 100, 255, 700, 1024, 5000)})
		}
	}
	return op
}

// genNested is a rule in which one thing is within the other.
func genNested(r *Rng, op Op) Op {
	if r.P(50) {
		return genParts(r, r.Int(5), op)
	}
	part := func(s string) { op.Rounds = append(op.Rounds, Round{Text: s}) }
	many := func(s string) { op.Rounds = append(op.Rounds, Round{Text: s, Calls: 1}) }
	part(Pick(r, "when ", "set v = ", "when a in "))
	switch r.Int(9) {
	default:
		unit := ""
		for n := r.Range(1, 3); n > 0; n-- {
			unit += Pick(r, "(", "(", "[", "a:", "a:", "a{\"x\"}:", "1 .. ", "a and ", "-", "b + ", "[1, ", "a:b,")
		}
		many(unit)
		part("1")
	case 0:
		many("(")
		part("1")
		many(")")
	case 1:
		many("[")
		part("1")
		many("]")
	case 2:
		many("a:")
		part("1")
	case 3:
		many("([")
		part("1")
		many("])")
	case 4:
		many("(a:[")
	case 5:
		many("1 .. (")
		part("2")
		many(")")
	case 6:
		many("a and (")
		part("b")
		many(" or c)")
	}
	part(Pick(r, "", "; when a", " and b > 3"))
	return op
}

// genParts is a rule of several parts, some of which may come more than once.
func genParts(r *Rng, kind int, op Op) Op {
	g := &RuleGen{Rng: r, Check: r.P(60), twins: r.P(25)}
	part := func(s string) { op.Rounds = append(op.Rounds, Round{Text: s}) }
	many := func(s string) { op.Rounds = append(op.Rounds, Round{Text: s, Calls: 1}) }
	safe := func(f func() string) string {
		for {
			if s := f(); !strings.Contains(s, "#") {
				return s
			}
		}
	}
	cmp, operand := func() string { g.depth = 3; return safe(g.cmp) }, func() string { return safe(g.operand) }
	and := func() string { return " " + Pick(r, "and", "or", "and", "AND") + " " }
	ar := func() string { return " " + Pick(r, arith...) + " " }
	list := func(open, one, end string) { part(open + one); many(", " + one); part(end) }
	part(Pick(r, "trigger ", "trigger\n", ""))
	when := Pick(r, "when ", "WHEN\n")
	end := Pick(r, "", "", " repeat 5 every 10s", "\nreset after 1h\n")
	switch kind {
	case 0:
		part(when)
		many("(")
		part(cmp())
		many(")")
	case 1:
		part(when)
		many("(" + cmp() + and())
		part(cmp())
		many(")")
	case 2:
		part(when)
		many("(")
		part(cmp())
		many(and() + cmp() + ")")
	case 3:
		part(when)
		many("(" + operand() + ar())
		part(operand())
		many(")")
		part(" > 5")
	case 4:
		part(when)
		many("(")
		part(operand())
		many(ar() + operand() + ")")
		part(" == " + operand())
	case 5:
		part(when + cmp())
		many(and() + cmp())
	case 6:
		part(when + operand())
		many(ar() + operand())
		part(" < 8")
	case 7:
		part("set")
		many(" v# = " + safe(g.value) + ";")
		part(" " + when + Pick(r, "@v1 == 5", "@v7 in @v3", "@v0 == @v0"))
		many(Pick(r, "", " and @v# == 1", " or speed > @v5", " and @v1 > 3"))
	case 8:
		part("set v0 = 1;")
		many(" w# = (@v0 + " + Pick(r, "@v0", "1", "@w#") + ");")
		part(" " + when + "@w3 > 1")
	case 9:
		k := Pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 11)
		list(when+operand()+" in [", g.rangeEnd(k), "]")
		if r.P(40) {
			op.Rounds = nil
			part("trigger ")
			list(when+operand()+" in [", g.rangeEnd(k)+" .. "+g.rangeEnd(k), "]")
		}
	case 10:
		if r.P(50) {
			part(when + "speed{\"a\"")
			many(", \"" + Pick(r, "b#", "x", "#") + "\"")
			part("} > 4")
		} else {
			list(when+"speed:", Pick(r, safe(g.dist), safe(g.speed), "true", safe(g.ref)), " > 4")
		}
	case 11:
		k := g.calKind()
		list(when+"idx in "+k+"[", g.calBody(k), "]")
	case 12:
		switch r.Int(4) {
		case 0:
			list(when+"speed intersects line[", g.pair(), "]:5km")
		case 1:
			list(when+"speed nearby polygon[["+g.pair()+", ", g.pair(), "]]")
		case 2:
			list(when+"speed nearby polygon[", g.ring(), "]")
		default:
			list(when+"speed intersects collection[", Pick(r, g.point, g.line, g.polygon)(), "]")
		}
	default:
		part(when + "speed > ")
		switch r.Int(5) {
		case 0:
			many("0")
			part("1")
		case 1:
			part("1.")
			many("3")
		case 2:
			part("\"")
			many(Pick(r, "x", "\\\"", "世"))
			part("\"")
		case 3:
			many(Pick(r, " ", "\n", "\t"))
			part("5")
		case 4:
			part("5 and a")
			many(Pick(r, "b", "_1", "é"))
			part(" == 7")
		}
	}
	part(end)
	if r.P(15) { // a mistake after all that
		part(Pick(r, " )", " (", " @", " 'x", " 99999999999999999999", "\x00"))
		op.Sour = true
	}
	if r.P(15) {
		op.Out = []WEvent{genOut(r, true)}
	}
	return op
}

// genSettings is a scan with settings that change between tokens.
func genSettings(r *Rng) Op {
	text := GenText(r)
	text = strings.Map(func(c rune) rune {
		if c == 0 || c == 0xfffd || c == 0xfeff { // what is wrong with a character is told when it is read ahead
			return '_'
		}
		return c
	}, text)
	op := textOp("settings", text)
	op.In = GenDelivery(r, text, false)
	for n := r.Range(1, 4); n > 0; n-- {
		cfg := GenLexCfg(r)
		for !cfg.Scanner {
			cfg = GenLexCfg(r)
		}
		cfg.Callback = ""
		op.Rounds = append(op.Rounds, Round{Lex: cfg, Calls: r.Range(1, Pick(r, 1, 3, 10))})
	}
	return op
}

// repeated makes the call so often that what each call leaves behind adds up.
func repeated(r *Rng, op Op) Op {
	op.Side = nil
	op.Repeat = Pick(r, 20, 70, 150, 300, 520, 1100)
	for op.Repeat > 20 && op.Repeat*(len(op.Text)+len(op.Hex)) > 400_000 {
		op.Repeat /= 2
	}
	return op
}

// genStocked is a call, or several on one parsed rule.
func genStocked(prop string, r *Rng, stock *Stock) Op {
	if len(stock.Pairs) == 0 || len(stock.Ops) > 0 && r.P(35) {
		return Pick(r, stock.Ops...)
	}
	i := r.Int(len(stock.Pairs))
	p := &stock.Pairs[i]
	if r.P(45) {
		op := Pick(r, p.Format...)
		if prop == "C08" && r.P(80) {
			op = Pick(r, p.Check...)
		}
		op.Fresh = r.P(30)
		return op
	}
	u := textOp("use", p.Rule)
	for k := r.Range(2, 5); k > 0; k-- {
		// dictionaries of the same rule lie next to each other
		if j := i + r.Range(-3, 3); j >= 0 && j < len(stock.Pairs) && stock.Pairs[j].Rule == stock.Pairs[i].Rule {
			p = &stock.Pairs[j]
		}
		op := p.any(r)
		if prop == "C08" && r.P(65) {
			op = Pick(r, p.Check...)
		}
		if prop == "C07" && r.P(50) {
			op = p.Format[0]
		}
		op.Fresh = op.Kind == "check" && r.P(30)
		op.Text, op.Hex = "", ""
		u.Seq = append(u.Seq, op)
	}
	return u
}

func genLex(r *Rng, delivery func(string) *Delivery) Op {
	text := GenText(r)
	op := textOp("lex", text)
	op.Lex = GenLexCfg(r)
	op.Script = GenScript(r, op.Lex.Scanner)
	op.In = delivery(text)
	return op
}

// genDamage is a text that has been damaged on its way.
func genDamage(r *Rng) Op {
	text := GenText(r)
	torn := r.P(30)
	if torn || r.P(30) {
		var b strings.Builder
		for i := r.Range(1, 5); i > 0; i-- {
			n := r.Int(6)
			if r.P(10) {
				n = Pick(r, 500, 1000, 1020, 1025, 2100)
			}
			body := strings.Repeat(Pick(r, "x", "é", "世", "\\\"", "1 ", "ab"), n)
			b.WriteString(Pick(r, "x ", "a not \n", "5 ", "", "= "))
			b.WriteString(Pick(r, `"`+body+`"`, `"`+body+`"`, "`"+strings.ReplaceAll(body, "\\", "\n")+"`", "/*"+body+"*/", "'x'", "// "+body+"\n") + Pick(r, " ", "\n", ""))
		}
		text = b.String()
	}
	if torn && r.P(60) {
		text = GenRule(r, false, r.P(60))
	}
	op := Op{Kind: "damage", Lex: GenLexCfg(r)}
	if op.Lex.Callback == "none" {
		op.Lex.Callback = ""
	}
	op.Script = GenScript(r, op.Lex.Scanner)
	if torn {
		op.Kind, op.Reps = "torn", r.Int(1<<20)
		if r.P(50) {
			op.Lex.Mode, op.Lex.Ident = 0, ""
			if op.Lex.Scanner && r.P(60) {
				op.Lex.Mode, op.Lex.Whitespace = GoTokens&^(1<<9), GoWhitespace // comments are tokens
			}
		}
	} else {
		for n := r.Range(1, Pick(r, 1, 3, 8)); n > 0 && len(text) > 0; n-- {
			text = damage(r, text)
		}
	}
	op.Text, op.Hex = PutText(text)
	op.In = GenDelivery(r, text, false)
	return op
}

// damage is what a bad line does to a text.
func damage(r *Rng, s string) string {
	i := r.Int(len(s))
	if r.P(10) && len(s) > 1100 {
		i = min(len(s)-1, Pick(r, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027))
	}
	bad := string([]byte{byte(0x80 + r.Int(0x80))})
	switch r.Int(9) {
	case 0, 1: // a byte becomes another one
		return s[:i] + bad + s[i+1:]
	case 2: // a bit flips
		return s[:i] + string([]byte{s[i] ^ 1<<r.Int(8)}) + s[i+1:]
	case 3:
		return s[:i] + bad + s[i:]
	case 4: // a byte is lost, of a long character if there is one
		for j := 0; j < 200 && s[i] < 0x80; j++ {
			i = r.Int(len(s))
		}
		return s[:i] + s[i+1:]
	case 5:
		return s[:i] + "\x00" + s[i:]
	case 6: // what looks like a character and is none
		return s[:i] + Pick(r, "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xf8\x88\x80\x80\x80", "\xe4\xb8", "\xf0\x9d\x92", "\xef\xbb", "\xfe\xff", "\xff\xfe") + s[i:]
	case 7: // a stretch is lost to noise
		n := Pick(r, 2, 5, 40)
		if r.P(10) {
			n = Pick(r, 300, 1025, 1500)
		}
		b := []byte(s[i:min(len(s), i+n)])
		for j := range b {
			b[j] = byte(0x80 + r.Int(0x80))
		}
		return s[:i] + string(b) + s[i+len(b):]
	}
	return s[:i] // it ends early
}

func genReuse(r *Rng) Op {
	op := Op{Kind: "reuse"}
	n := r.Range(2, 4)
	if r.P(10) {
		n = 7
	}
	for i := 0; i < n; i++ {
		text := GenText(r)
		rd := Round{Lex: GenLexCfg(r)}
		rd.Text, rd.Hex = PutText(text)
		rd.Lex.Scanner = true
		if i > 0 && r.P(10) {
			rd.Lex.Callback = "none" // the handler of the round before must not be called
		}
		rd.Script = GenScript(r, true)
		switch r.Int(5) {
		case 0, 1:
			rd.In = GenDelivery(r, text, false)
		case 2:
			rd.In = GenFailing(r, text)
		case 3:
			rd.In = GenDelivery(r, text, false)
			k := r.Int(len(rd.In.Chunks) + 1)
			rd.In.Chunks = append(rd.In.Chunks[:k:k], Chunk{Panic: Pick(r, "panic", "error")})
		}
		if i < n-1 {
			if r.P(75) {
				rd.Calls = 1 + r.Int(Pick(r, 3, 10, 40))
			}
			if r.P(8) {
				rd.Lex.CBPanic = "panic"
			}
		} else if r.P(50) {
			rd.In = nil
		}
		op.Rounds = append(op.Rounds, rd)
	}
	return op
}

// Without leaves out calls.
func (s *Stock) Without(bad func(Op) bool) *Stock {
	keep := func(ops []Op) (out []Op) {
		for _, op := range ops {
			broken := bad(op)
			if op.Kind == "edits" {
				for _, p := range op.Prefixes() {
					broken = broken || bad(p)
				}
			}
			if !broken {
				out = append(out, op)
			}
		}
		return
	}
	out := &Stock{Ops: keep(s.Ops)}
	for _, p := range s.Pairs {
		q := Pair{p.Rule, p.Dict, keep(p.Format), keep(p.Check), keep(p.Walk)}
		if len(q.Format) == len(p.Format) && len(q.Check) > 0 && len(q.Walk) > 0 {
			out.Pairs = append(out.Pairs, q)
		}
	}
	out.sort()
	return out
}
