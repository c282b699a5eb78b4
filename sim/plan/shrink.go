package plan

import (
	"encoding/json"

	"geosim/vsim"
)

// Clone is a deep copy.
func (s *Scenario) Clone() *Scenario {
	b, _ := json.Marshal(s)
	out := &Scenario{}
	if json.Unmarshal(b, out) != nil {
		return nil
	}
	return out
}

// Normal repairs what shrinking may have broken.
func (s *Scenario) Normal() {
	if s.Prop == "C02" {
		for i := range s.Episodes {
			for j := range s.Episodes[i].Tasks {
				for k := range s.Episodes[i].Tasks[j].Ops {
					op := &s.Episodes[i].Tasks[j].Ops[k]
					if op.In != nil {
						FixFailing(TextBytes(op.Text, op.Hex), op.In)
					}
				}
			}
		}
	}
}

// cuts calls f with [from,to) pieces of n things to leave out: halves, quarters, ... single ones.
func cuts(n int, f func(from, to int)) {
	for size := n; size >= 1; size /= 2 {
		for from := 0; from < n; from += size {
			to := from + size
			if to > n {
				to = n
			}
			f(from, to)
		}
	}
}

// ops calls f for every operation, nested ones included.
func (s *Scenario) ops(f func(op *Op)) {
	for i := range s.Episodes {
		for j := range s.Episodes[i].Tasks {
			for k := range s.Episodes[i].Tasks[j].Ops {
				op := &s.Episodes[i].Tasks[j].Ops[k]
				f(op)
				for l := range op.Seq {
					f(&op.Seq[l])
				}
				if op.Side != nil {
					f(op.Side)
				}
			}
		}
	}
}

// Compact merges neighbouring decisions for the same task.
func Compact(ds []vsim.Dec) []vsim.Dec {
	var out []vsim.Dec
	for _, d := range ds {
		if n := len(out); n > 0 && out[n-1].T == d.T {
			out[n-1].Q += d.Q
			continue
		}
		out = append(out, d)
	}
	return out
}

// Candidates hands smaller scenarios to yield, the most promising first, until
// it says no. stage selects the kind of simplification.
func Candidates(s *Scenario, stage int, yield func(*Scenario) bool) {
	done := false
	try := func(f func(c *Scenario) bool) {
		if done {
			return
		}
		c := s.Clone()
		c.Golden = nil
		if f(c) {
			c.Normal()
			done = !yield(c)
		}
	}
	last := len(s.Episodes) - 1
	switch stage {
	case 0: // episodes
		if last > 0 {
			try(func(c *Scenario) bool { c.Episodes = c.Episodes[last:]; return true })
			cuts(last, func(a, b int) {
				if b-a < last {
					try(func(c *Scenario) bool {
						c.Episodes = append(c.Episodes[:a:a], c.Episodes[b:]...)
						return true
					})
				}
			})
		}
	case 1: // callers and their calls
		for i := range s.Episodes {
			n := len(s.Episodes[i].Tasks)
			for j := 0; j < n && n > 1; j++ {
				try(func(c *Scenario) bool {
					e := &c.Episodes[i]
					e.Tasks = append(e.Tasks[:j:j], e.Tasks[j+1:]...)
					e.Policy.Explicit = dropTask(e.Policy.Explicit, j)
					return true
				})
			}
			for j := range s.Episodes[i].Tasks {
				m := len(s.Episodes[i].Tasks[j].Ops)
				for k := 0; k < m && m > 1; k++ {
					try(func(c *Scenario) bool {
						t := &c.Episodes[i].Tasks[j]
						t.Ops = append(t.Ops[:k:k], t.Ops[k+1:]...)
						return true
					})
				}
				for k := 0; k < m; k++ {
					for l := range s.Episodes[i].Tasks[j].Ops[k].Seq {
						try(func(c *Scenario) bool {
							op := &c.Episodes[i].Tasks[j].Ops[k]
							op.Seq = append(op.Seq[:l:l], op.Seq[l+1:]...)
							return true
						})
					}
				}
			}
		}
	case 2: // schedule and seeds
		if s.Place != nil {
			try(func(c *Scenario) bool { c.Place = nil; return true })
			if s.Place.Zone != "" {
				try(func(c *Scenario) bool { c.Place.Zone = ""; return true })
			}
			if s.Place.Clock != "" {
				try(func(c *Scenario) bool { c.Place.Clock = ""; return true })
			}
			if s.Place.Vars != 0 {
				try(func(c *Scenario) bool { c.Place.Vars = 0; return true })
			}
			if s.Place.CPUs > 1 {
				try(func(c *Scenario) bool { c.Place.CPUs = 0; return true })
			}
		}
		for i := range s.Episodes {
			for j, e := range s.Episodes[i].Policy.Events {
				try(func(c *Scenario) bool {
					p := &c.Episodes[i].Policy
					p.Events = append(p.Events[:j:j], p.Events[j+1:]...)
					return true
				})
				if e.Ms > 1 {
					try(func(c *Scenario) bool { c.Episodes[i].Policy.Events[j].Ms /= 4; return true })
				}
			}
		}
		if s.InitMap != 0 {
			try(func(c *Scenario) bool { c.InitMap = 0; return true })
		}
		for i := range s.Episodes {
			e := &s.Episodes[i]
			if e.MapSeed != 0 {
				try(func(c *Scenario) bool { c.Episodes[i].MapSeed = 0; return true })
			}
			if e.Policy.Mode != "serial" && !e.Policy.Fixed {
				try(func(c *Scenario) bool { c.Episodes[i].Policy = vsim.Policy{Mode: "serial"}; return true })
			}
			if e.Seed != 0 {
				try(func(c *Scenario) bool { c.Episodes[i].Seed = 0; return true })
			}
			ds := e.Policy.Explicit
			cuts(len(ds), func(a, b int) {
				try(func(c *Scenario) bool {
					p := &c.Episodes[i].Policy
					p.Explicit = Compact(append(append([]vsim.Dec{}, ds[:a]...), ds[b:]...))
					p.Fixed = true
					return true
				})
			})
		}
	case 3: // faults
		s.eachOp(func(i, j, k, l int) {
			get := func(c *Scenario) *Op {
				op := &c.Episodes[i].Tasks[j].Ops[k]
				if l >= 0 {
					op = &op.Seq[l]
				}
				return op
			}
			op := *get(s)
			if op.Side != nil {
				try(func(c *Scenario) bool { get(c).Side, get(c).SideAt = nil, 0; return true })
				if op.SideAt > 0 {
					try(func(c *Scenario) bool { get(c).SideAt = 0; return true })
					try(func(c *Scenario) bool { get(c).SideAt /= 2; return true })
				}
			}
			if op.Reps > 1 {
				try(func(c *Scenario) bool { get(c).Reps /= 2; return true })
				try(func(c *Scenario) bool { get(c).Reps -= get(c).Reps / 8; return true })
			}
			cuts(len(op.Edits), func(a, b int) {
				try(func(c *Scenario) bool {
					o := get(c)
					o.Edits = append(o.Edits[:a:a], o.Edits[b:]...)
					return true
				})
			})
			if op.Also {
				try(func(c *Scenario) bool { get(c).Also = false; return true })
			}
			if op.GiveUp > 1 {
				try(func(c *Scenario) bool { get(c).GiveUp /= 2; return true })
				try(func(c *Scenario) bool { get(c).GiveUp--; return true })
			}
			if op.Ack {
				try(func(c *Scenario) bool { get(c).Ack = false; return true })
			}
			if op.Repeat > 1 {
				try(func(c *Scenario) bool { get(c).Repeat = 0; return true })
				try(func(c *Scenario) bool { get(c).Repeat /= 2; return true })
				try(func(c *Scenario) bool { get(c).Repeat -= get(c).Repeat / 8; return true })
				try(func(c *Scenario) bool { get(c).Repeat--; return true })
			}
			if op.Delay != 0 {
				try(func(c *Scenario) bool { get(c).Delay = 0; return true })
			}
			if op.All {
				try(func(c *Scenario) bool { get(c).All = false; return true })
			}
			if op.In != nil {
				try(func(c *Scenario) bool { get(c).In = nil; return true })
				if op.In.EOFData {
					try(func(c *Scenario) bool { get(c).In.EOFData = false; return true })
				}
				shrinkDelivery(op.In, try, func(c *Scenario) *Delivery { return get(c).In })
			}
			cuts(len(op.Out), func(a, b int) {
				try(func(c *Scenario) bool {
					o := get(c)
					o.Out = append(o.Out[:a:a], o.Out[b:]...)
					return true
				})
			})
			for l, e := range op.Out {
				simpler(e, try, func(c *Scenario) *WEvent { return &get(c).Out[l] })
			}
			if len(op.Rounds) > 1 {
				cuts(len(op.Rounds), func(a, b int) {
					if b-a < len(op.Rounds) {
						try(func(c *Scenario) bool {
							o := get(c)
							o.Rounds = append(o.Rounds[:a:a], o.Rounds[b:]...)
							return true
						})
					}
				})
			}
			for l, rd := range op.Rounds {
				round := func(c *Scenario) *Round { return &get(c).Rounds[l] }
				if rd.In != nil {
					try(func(c *Scenario) bool { round(c).In = nil; return true })
					shrinkDelivery(rd.In, try, func(c *Scenario) *Delivery { return round(c).In })
				}
				if rd.Map != 0 {
					try(func(c *Scenario) bool { round(c).Map = 0; return true })
				}
				if rd.Calls > 1 {
					try(func(c *Scenario) bool { round(c).Calls = 1; return true })
					try(func(c *Scenario) bool { round(c).Calls /= 2; return true })
					try(func(c *Scenario) bool { round(c).Calls--; return true })
				}
				cuts(len(rd.Out), func(a, b int) {
					try(func(c *Scenario) bool {
						r := round(c)
						r.Out = append(r.Out[:a:a], r.Out[b:]...)
						return true
					})
				})
				for m, e := range rd.Out {
					simpler(e, try, func(c *Scenario) *WEvent { return &round(c).Out[m] })
				}
				if len(rd.Script) > 1 {
					for m := range rd.Script {
						try(func(c *Scenario) bool { r := round(c); r.Script = r.Script[:m] + r.Script[m+1:]; return true })
					}
				}
			}
			if w := op.Walk; w != nil {
				for n := 0; n < 5; n++ {
					try(func(c *Scenario) bool {
						w := get(c).Walk
						old := *w
						switch n {
						case 0:
							w.Root = 0
						case 1:
							w.Decline, w.Percent = 0, 0
						case 2:
							w.Reenter = 0
						case 3:
							w.Abort = 0
						case 4:
							w.Percent /= 2
						}
						return *w != old
					})
				}
			}
			if len(op.Script) > 1 {
				for m := range op.Script {
					try(func(c *Scenario) bool { o := get(c); o.Script = o.Script[:m] + o.Script[m+1:]; return true })
				}
			}
		})
	case 4: // texts and dictionaries, wherever they occur
		texts := map[string]bool{}
		var order []string
		note := func(t, h string) {
			x := TextBytes(t, h)
			if x != "" && !texts[x] {
				texts[x] = true
				order = append(order, x)
			}
		}
		for _, e := range s.Episodes {
			note(e.Rule, "")
		}
		s.ops(func(op *Op) {
			if op.Kind != "keyword" && !op.Long {
				note(op.Text, op.Hex)
			}
			for _, r := range op.Rounds {
				note(r.Text, r.Hex)
			}
		})
		for _, old := range order {
			var pieces [][2]int
			cuts(len(old), func(a, b int) { pieces = append(pieces, [2]int{a, b}) })
			if len(pieces) > 260 {
				pieces = pieces[:260]
			}
			for _, p := range pieces {
				neu := old[:p[0]] + old[p[1]:]
				if neu == "" && s.Episodes[last].Rule == old {
					continue
				}
				try(func(c *Scenario) bool { c.replaceText(old, neu); return true })
			}
		}
		for _, n := range DictNames {
			try(func(c *Scenario) bool {
				hit := false
				for i := range c.Episodes {
					if _, ok := c.Episodes[i].Dict[n]; ok {
						delete(c.Episodes[i].Dict, n)
						hit = true
					}
				}
				c.ops(func(op *Op) {
					if _, ok := op.Dict[n]; ok {
						delete(op.Dict, n)
						hit = true
					}
				})
				return hit
			})
		}
	}
}

// Stages is the number of kinds of simplification.
const Stages = 5

func (s *Scenario) eachOp(f func(i, j, k, l int)) {
	for i := range s.Episodes {
		for j := range s.Episodes[i].Tasks {
			for k := range s.Episodes[i].Tasks[j].Ops {
				f(i, j, k, -1)
				for l := range s.Episodes[i].Tasks[j].Ops[k].Seq {
					f(i, j, k, l)
				}
			}
		}
	}
}

func (s *Scenario) replaceText(old, neu string) {
	put := func(t, h *string) {
		if TextBytes(*t, *h) == old {
			*t, *h = PutText(neu)
		}
	}
	for i := range s.Episodes {
		if s.Episodes[i].Rule == old {
			s.Episodes[i].Rule = neu
		}
	}
	s.ops(func(op *Op) {
		put(&op.Text, &op.Hex)
		for l := range op.Rounds {
			put(&op.Rounds[l].Text, &op.Rounds[l].Hex)
		}
	})
}

func dropTask(ds []vsim.Dec, j int) []vsim.Dec {
	var out []vsim.Dec
	for _, d := range ds {
		if d.T == j {
			continue
		}
		if d.T > j {
			d.T--
		}
		out = append(out, d)
	}
	return Compact(out)
}

func shrinkDelivery(d *Delivery, try func(func(*Scenario) bool), get func(*Scenario) *Delivery) {
	if d.Dress != 0 {
		try(func(c *Scenario) bool { get(c).Dress = 0; return true })
	}
	cuts(len(d.Chunks), func(a, b int) {
		try(func(c *Scenario) bool { // left out: what they carried arrives later
			x := get(c)
			x.Chunks = append(x.Chunks[:a:a], x.Chunks[b:]...)
			return true
		})
		if b-a > 1 {
			try(func(c *Scenario) bool { // merged into one
				x := get(c)
				sum := Chunk{}
				for _, k := range x.Chunks[a:b] {
					if k.Err != "" || k.Panic != "" {
						return false
					}
					sum.N += k.N
					sum.Scribble = sum.Scribble || k.Scribble
				}
				x.Chunks = append(append(x.Chunks[:a:a], sum), x.Chunks[b:]...)
				return true
			})
		}
	})
	if len(d.Chunks) <= 40 {
		for i, k := range d.Chunks {
			if k.Scribble || k.Stall != 0 {
				try(func(c *Scenario) bool {
					x := get(c)
					x.Chunks[i].Scribble, x.Chunks[i].Stall = false, 0
					return true
				})
			}
			if k.Err != "" && k.Err != "eio" {
				try(func(c *Scenario) bool { get(c).Chunks[i].Err = "eio"; return true })
			}
		}
	}
}

func simpler(e WEvent, try func(func(*Scenario) bool), get func(*Scenario) *WEvent) {
	if e.Stall != 0 {
		try(func(c *Scenario) bool { get(c).Stall = 0; return true })
	}
	if e.Accept != 0 {
		try(func(c *Scenario) bool { get(c).Accept = 0; return true })
	}
	if e.Forever {
		try(func(c *Scenario) bool { get(c).Forever = false; return true })
	}
	if e.Err != "" && e.Err != "eio" {
		try(func(c *Scenario) bool { get(c).Err = "eio"; return true })
	}
}
