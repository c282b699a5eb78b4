package world

import (
	"strings"

	geoql "github.com/mmadfox/go-geoql-parser"

	"geosim/plan"
	"geosim/vsim"
)

// attempt is one call of Format on one destination.
func attempt(rule geoql.Statement, ev []plan.WEvent, i int, st *Stats) (w *SimWriter, err error, how string) {
	w = newWriter(ev, st)
	how = guarded(func() { err = geoql.Format(dress(w, i), rule) })
	return
}

// ---- C05 --------------------------------------------------------------------

func runC05(op plan.Op, ts *taskState) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	rule, err := geoql.Parse(text)
	if err != nil {
		ts.skipped++
		return nil
	}
	seed := uint64(len(text)) // the same hash-table orders for each attempt: what is compared is not C07
	vsim.SetMapSeed(seed)
	ref, err, how := attempt(rule, nil, 0, ts.st)
	if vsim.Hung() {
		return violation("hang", "Format does not end")
	}
	if how != "" || err != nil {
		return violation("healthy", "Format of %s on a healthy destination: %v %s", clip(q(text)), err, how)
	}
	full := string(ref.Buf)
	ts.note(full)
	var events []plan.WEvent
	for _, e := range op.Out {
		if e.Byte > 0 {
			e.Call = -1
			e.Byte = 1 + (e.Byte-1)%len(full)
		} else {
			e.Call %= ref.Calls
		}
		events = append(events, e)
	}
	if op.All {
		kinds := plan.WriteErrs
		for c := 0; c < ref.Calls; c++ {
			events = append(events, plan.WEvent{Call: c, Err: kinds[c%len(kinds)], Accept: c % 3, Forever: c%2 == 0})
		}
		step := 1 + len(full)/400
		for b := 0; b < len(full); b += step {
			events = append(events, plan.WEvent{Call: -1, Byte: 1 + b, Err: kinds[(b+3)%len(kinds)], Forever: b%2 == 0})
		}
	}
	for i, e := range events {
		vsim.SetMapSeed(seed)
		w, err, how := attempt(rule, []plan.WEvent{e}, i, ts.st)
		if vsim.Hung() {
			return violation("hang", "Format does not end")
		}
		got := string(w.Buf)
		at := "write " + itoa(e.Call)
		if e.Call < 0 {
			at = "byte " + itoa(e.Byte-1)
		}
		if !strings.HasPrefix(full, got) {
			return violation("prefix", "failure at %s (attempt %d): what the destination accepted is not a prefix of the complete text: %s", at, i, diffAt(got, full))
		}
		switch {
		case e.Panic != "": // how the call ends is the destination's doing; what follows is judged below
		case len(w.Errs) > 0 && how != "":
			return violation("panic", "Format panics when %s fails with %T", at, w.Errs[0])
		case len(w.Errs) > 0 && err == nil:
			return violation("swallowed", "%s failed with %q but Format returned nil; the destination has %d of %d bytes", at, w.Errs[0], len(got), len(full))
		case len(w.Errs) > 0 && !sameErr(err, w.Errs[0]):
			return violation("other-error", "%s failed with %q but Format returned %q", at, w.Errs[0], err)
		case w.AfterError > 0:
			return violation("write-after-error", "%s failed, and Format wrote %d more time(s)", at, w.AfterError)
		case len(w.Errs) == 0 && (err != nil || how != ""):
			return violation("spurious", "no write failed but Format returned %v %s", err, how)
		case err == nil && got != full:
			return violation("incomplete", "Format returned nil but the destination has %d of %d bytes", len(got), len(full))
		}
		if i%2 == 0 { // the same destination, emptied and repaired
			*w = SimWriter{st: w.st, win: w.win}
			vsim.SetMapSeed(seed)
			how = guarded(func() { err = geoql.Format(dress(w, i), rule) })
			if err != nil || how != "" {
				return violation("retry", "after a failure at %s, Format on the same destination, repaired: %v %s", at, err, how)
			}
			if got := string(w.Buf); got != full {
				return violation("retry", "after a failure at %s, Format on the same destination, emptied and repaired: %s", at, diffAt(got, full))
			}
		}
	}
	for i := 0; i < 3; i++ {
		vsim.SetMapSeed(seed)
		w, err, how := attempt(rule, nil, i, ts.st)
		if err != nil || how != "" {
			return violation("retry", "after the failed attempts, Format on a healthy destination: %v %s", err, how)
		}
		if got := string(w.Buf); got != full {
			return violation("retry", "after the failed attempts, Format on a healthy destination: %s", diffAt(got, full))
		}
	}
	return nil
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// ---- C06 --------------------------------------------------------------------

func runC06(op plan.Op, ts *taskState) *Violation {
	text := plan.TextBytes(op.Text, op.Hex)
	rule, err := geoql.Parse(text)
	if err != nil {
		ts.skipped++
		return nil
	}
	meaning := dump(rule, false)
	dict := toDict(op.Dict)
	verdict := ""
	if op.Dict != nil {
		verdict = errText(geoql.CheckType(rule, dict))
		if vsim.Hung() {
			return violation("hang", "CheckType does not end")
		}
	}
	first := ""
	rounds := op.Rounds
	if len(rounds) == 0 {
		rounds = []plan.Round{{}}
	}
	for n, rd := range rounds {
		saved := ""
		acked := false
		for i := 0; i <= len(rd.Out) && !acked; i++ {
			var ev []plan.WEvent
			if i < len(rd.Out) {
				e := rd.Out[i]
				if e.Byte > 0 {
					e.Call = -1
				}
				ev = []plan.WEvent{e}
			}
			w, err, how := attempt(rule, ev, n+i, ts.st)
			if vsim.Hung() {
				return violation("hang", "Format does not end")
			}
			if err == nil && how == "" {
				acked = true
				saved = string(w.Buf)
			}
		}
		if !acked {
			return violation("never", "save %d: no attempt was acknowledged although the last destination was healthy", n)
		}
		ts.note(saved)
		if n == 0 {
			first = saved
		} else if saved != first {
			return violation("drifts", "save %d of %s differs from the first one, with no change in between: %s", n, clip(q(text)), diffAt(saved, first))
		}
		vsim.SetMapSeed(rd.Map) // another process
		again, err := geoql.Parse(saved)
		if err != nil {
			return violation("lost", "save %d of %s was acknowledged but does not parse: %v; saved text %s", n, clip(q(text)), err, clip(q(saved)))
		}
		if got := dump(again, false); got != meaning {
			return violation("altered", "save %d of %s was acknowledged but reloads as another rule: %s", n, clip(q(text)), diffAt(got, meaning))
		}
		if op.Dict != nil {
			if got := errText(geoql.CheckType(again, dict)); got != verdict {
				return violation("verdict", "CheckType says %s of %s and %s of the same rule saved and reloaded", clip(q(verdict)), clip(q(text)), clip(q(got)))
			}
		}
		rule = again
	}
	return nil
}
