// Package plan holds what a simulated run consists of, how runs are derived from
// seeds, and how a failing run is made smaller. It does not know the library
// under test: everything in it is data.
package plan

import (
	"encoding/json"

	"geosim/vsim"
)

// Scenario is one simulated process: a hash seed it starts with and a sequence
// of episodes that run in it one after another.
type Scenario struct {
	Prop     string            `json:"prop"`
	InitMap  uint64            `json:"init_map"`
	Place    *vsim.Place       `json:"place,omitempty"` // where and when it runs; none: the same as the calls whose results are known
	Episodes []Episode         `json:"episodes"`
	Golden   map[string]string `json:"golden,omitempty"` // op key -> what the call returns alone in a fresh process
}

// Episode is one simulated run: concurrent callers under a scheduling policy.
type Episode struct {
	Seed    uint64         `json:"seed"`
	MapSeed uint64         `json:"map_seed"`
	Policy  vsim.Policy    `json:"policy"`
	Rule    string         `json:"rule,omitempty"` // a rule all callers share
	Dict    map[string]int `json:"dict,omitempty"` // a dictionary all callers share
	Tasks   []Task         `json:"tasks"`
}

// Task is one simulated caller.
type Task struct {
	Ops []Op `json:"ops"`
}

// Op is one thing a caller does with the library.
type Op struct {
	Kind   string         `json:"kind"`
	Text   string         `json:"text,omitempty"`
	Hex    string         `json:"hex,omitempty"`     // the text in hexadecimal when it is not valid UTF-8
	Lex    *LexCfg        `json:"lex,omitempty"`     // lex
	Script string         `json:"script,omitempty"`  // lex: calls to make, cyclically
	In     *Delivery      `json:"in,omitempty"`      // lex: how the source behaves
	Rounds []Round        `json:"rounds,omitempty"`  // reuse: scans abandoned one after another; save: one per save
	Out    []WEvent       `json:"out,omitempty"`     // format: how the destination behaves
	All    bool           `json:"all,omitempty"`     // format: every write in turn is the failing one
	Dict   map[string]int `json:"dict,omitempty"`    // check
	Fresh  bool           `json:"fresh,omitempty"`   // check: a new dictionary instead of the changed one
	Walk   *WalkCfg       `json:"walk,omitempty"`    // walk
	Shared bool           `json:"shared,omitempty"`  // use the episode's shared rule and dictionary
	Delay  int64          `json:"delay,omitempty"`   // simulated ms to wait before the call
	Seq    []Op           `json:"seq,omitempty"`     // use: calls on the same parsed rule
	Side   *Op            `json:"side,omitempty"`    // a call that the source, destination or visitor waits for: another goroutine makes it
	SideAt int            `json:"side_at,omitempty"` // the read, write or visit in which it does
	Inline bool           `json:"inline,omitempty"`  // side: the same goroutine makes it, from inside the source, destination, visitor or handler
	Repeat int            `json:"repeat,omitempty"`  // the call is made this many times
	Cap    int            `json:"cap,omitempty"`     // converse: bytes the connection holds
	Ack    bool           `json:"ack,omitempty"`     // converse: the sender waits for an answer to each rule
	GiveUp int            `json:"give_up,omitempty"` // converse: tokens after which the receiver leaves
	Edits  []uint64       `json:"edits,omitempty"`   // edits, edited: what is changed in the rule, one after another
	Also   bool           `json:"also,omitempty"`    // edits: the same text is parsed once more and that rule is kept unchanged
	Sour   bool           `json:"-"`                 // parse: likely to fail
	Reps   int            `json:"reps,omitempty"`    // stream: how often the text comes, or the size of the token; lex: set aside after this many calls
	Flat   bool           `json:"flat,omitempty"`    // stream: all on one line
	Deep   string         `json:"deep,omitempty"`    // deep: how the parts of the rule hang together (nested, chain, flat)
	Long   bool           `json:"long,omitempty"`    // stream: one long token of the kind named by the text
}

// Times is how often the call is made.
func (op Op) Times() int { return max(1, op.Repeat) }

// Uses are the calls of a use operation, each with the rule it is made on.
func (op Op) Uses() []Op {
	out := make([]Op, len(op.Seq))
	for i, s := range op.Seq {
		s.Text, s.Hex = op.Text, op.Hex
		out[i] = s
	}
	return out
}

// Prefixes are the states a rule goes through while it is edited, each with the
// calls that are made on it.
func (op Op) Prefixes() []Op {
	var out []Op
	for k := 0; k <= len(op.Edits); k++ {
		p := op
		p.Kind, p.Also, p.Edits = "edited", false, op.Edits[:k:k]
		if k == 0 {
			p.Edits = nil
		}
		out = append(out, p)
	}
	return out
}

// Expected are the calls whose results in a fresh process have to be known.
func (op Op) Expected() []Op {
	var out []Op
	switch {
	case op.Kind == "use":
		for _, sub := range op.Uses() {
			out = append(out, sub.Expected()...)
		}
		return out
	case op.Kind == "edits":
		return op.Prefixes()
	case !op.Interrupting():
		out = append(out, op)
	}
	if op.Side != nil {
		out = append(out, op.Side.Expected()...)
	}
	return out
}

// Interrupting tells whether the call is ended from inside by what the caller supplied.
func (op Op) Interrupting() bool {
	if op.Walk != nil && op.Walk.Abort > 0 || op.Lex != nil && op.Lex.CBPanic != "" {
		return true
	}
	for _, e := range op.Out {
		if e.Panic != "" {
			return true
		}
	}
	if op.In != nil {
		for _, c := range op.In.Chunks {
			if c.Panic != "" {
				return true
			}
		}
	}
	return false
}

// Ends tells whether the call ends the goroutine that makes it.
func (op Op) Ends() bool {
	if op.Walk != nil && op.Walk.How == "goexit" || op.Lex != nil && op.Lex.CBPanic == "goexit" {
		return true
	}
	for _, e := range op.Out {
		if e.Panic == "goexit" {
			return true
		}
	}
	if op.In != nil {
		for _, c := range op.In.Chunks {
			if c.Panic == "goexit" {
				return true
			}
		}
	}
	return false
}

// LexCfg says what scans.
type LexCfg struct {
	Scanner    bool   `json:"scanner,omitempty"` // scanner.Scanner rather than Tokenizer
	Mode       uint   `json:"mode,omitempty"`
	Whitespace uint64 `json:"whitespace,omitempty"`
	Ident      string `json:"ident,omitempty"`    // identifier predicate: "", dash, any, digits
	Callback   string `json:"callback,omitempty"` // "", text, none
	CBPanic    string `json:"cb_panic,omitempty"` // the error handler itself is interrupted
}

// Delivery is the behaviour of a source.
type Delivery struct {
	Chunks  []Chunk `json:"chunks,omitempty"`
	EOFData bool    `json:"eof_data,omitempty"` // the end comes together with the last bytes
	Dress   int     `json:"dress,omitempty"`    // what else the source can do: see world.dressed
}

// Chunk is one read (or several, if the caller asks for less).
type Chunk struct {
	N        int    `json:"n"`
	Stall    int64  `json:"stall,omitempty"`    // simulated ms before it
	Scribble bool   `json:"scribble,omitempty"` // the rest of the buffer is used as scratch space
	Err      string `json:"err,omitempty"`      // reported together with these bytes
	Forever  bool   `json:"forever,omitempty"`  // the error stays
	Panic    string `json:"panic,omitempty"`    // instead: panic or goexit
}

// WEvent is one thing that happens to a destination.
type WEvent struct {
	Call    int    `json:"call"`             // the write it happens to (modulo the number of writes), or
	Byte    int    `json:"byte,omitempty"`   // 1+ the byte it happens at (modulo the size), if Call < 0
	Err     string `json:"err,omitempty"`    // the write fails
	Accept  int    `json:"accept,omitempty"` // bytes of the failing write taken all the same
	Forever bool   `json:"forever,omitempty"`
	Panic   string `json:"panic,omitempty"`
	Stall   int64  `json:"stall,omitempty"`
}

// Round is one scan that is abandoned (reuse) or one save (save).
type Round struct {
	Text   string    `json:"text,omitempty"`
	Hex    string    `json:"hex,omitempty"`
	Lex    *LexCfg   `json:"lex,omitempty"`
	In     *Delivery `json:"in,omitempty"`
	Script string    `json:"script,omitempty"`
	Calls  int       `json:"calls,omitempty"` // calls made before it is abandoned
	Out    []WEvent  `json:"out,omitempty"`   // save: the event of each attempt; the attempt after the last meets none
	Map    uint64    `json:"map,omitempty"`   // save: hash seed after the restart
}

// WalkCfg is a traversal.
type WalkCfg struct {
	Func     bool   `json:"func,omitempty"`      // Visit rather than Walk
	Root     int    `json:"root,omitempty"`      // start at this node (0: the rule)
	Decline  uint64 `json:"decline,omitempty"`   // seed for which expressions are declined; 0: none
	Percent  int    `json:"percent,omitempty"`   // how many are declined
	Abort    int    `json:"abort,omitempty"`     // 1+ the visit at which the visitor aborts
	How      string `json:"how,omitempty"`       // panic, error, goexit
	Reenter  int    `json:"reenter,omitempty"`   // 1+ the visit at which the visitor calls the library
	ReenterW string `json:"reenter_w,omitempty"` // what it calls: walk, format, parse, check
}

// TextBytes is the text of the operation.
func TextBytes(text, hexs string) string {
	if hexs == "" {
		return text
	}
	b := make([]byte, len(hexs)/2)
	for i := range b {
		b[i] = unhex(hexs[2*i])<<4 | unhex(hexs[2*i+1])
	}
	return string(b)
}

func unhex(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}

// PutText stores s so that it survives JSON.
func PutText(s string) (text, hexs string) {
	b, _ := json.Marshal(s)
	var back string
	_ = json.Unmarshal(b, &back)
	if back == s {
		return s, ""
	}
	const d = "0123456789abcdef"
	out := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		out = append(out, d[s[i]>>4], d[s[i]&15])
	}
	return "", string(out)
}

// Alone is the call without what happens around it.
func (op Op) Alone() Op {
	op.Shared, op.Fresh, op.Delay, op.Side, op.SideAt, op.Inline, op.Repeat = false, false, 0, nil, 0, false, 0
	if op.In != nil {
		in := *op.In
		in.Chunks = append([]Chunk(nil), in.Chunks...)
		for i := range in.Chunks {
			in.Chunks[i].Stall = 0
		}
		op.In = &in
	}
	var out []WEvent
	for _, e := range op.Out {
		if e.Stall = 0; e.Err != "" || e.Panic != "" {
			out = append(out, e)
		}
	}
	op.Out = out
	return op
}

// Key identifies a call for the table of expected results.
func (op Op) Key() string {
	op = op.Alone()
	b, _ := json.Marshal(op)
	return string(b)
}

// Rng wraps the simulator's generator with some conveniences.
type Rng struct{ vsim.Rand }

func NewRng(xs ...uint64) *Rng {
	r := &Rng{}
	r.Seed(vsim.Mix(xs...))
	return r
}

func (r *Rng) Int(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.N(uint64(n)))
}
func (r *Rng) Range(lo, hi int) int { return lo + r.Int(hi-lo+1) }
func (r *Rng) P(percent int) bool   { return r.Int(100) < percent }

// Pick chooses one of xs.
func Pick[T any](r *Rng, xs ...T) T { return xs[r.Int(len(xs))] }

// Golden tells whether a property's calls are compared with fresh-process results.
func Golden(prop string) bool {
	switch prop {
	case "C07", "C08", "C09", "C10", "C12", "C24", "C25", "C30":
		return true
	}
	return false
}

// Race tells whether a property is run under the race detector.
func Race(prop string) bool {
	switch prop {
	case "C09", "C10", "C12", "C25", "C28":
		return true
	}
	return false
}

// Job is what a simulated process is told to do.
type Job struct {
	Prop     string    `json:"prop"`
	Solo     *Op       `json:"solo,omitempty"`
	Scenario *Scenario `json:"scenario,omitempty"`
	KeepDecs bool      `json:"keep_decs,omitempty"`
}

// SoloResult is what a call returned in a process of its own.
type SoloResult struct {
	Result string `json:"result"`
	Broken bool   `json:"broken"` // it did not return
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result is what one episode did.
type Result struct {
	Viol       *Violation     `json:"viol,omitempty"`
	Hash       uint64         `json:"hash"` // of the schedule and of everything returned
	Steps      int64          `json:"steps"`
	SimNs      int64          `json:"sim_ns"`
	Switches   int            `json:"switches"`
	Skipped    int            `json:"skipped"` // generated rules the parser does not accept
	Ops        int            `json:"ops"`
	Faults     map[string]int `json:"faults,omitempty"`
	Sites      map[string]int `json:"sites,omitempty"`
	Pairs      [][3]int       `json:"pairs,omitempty"`
	Decs       []vsim.Dec     `json:"decs,omitempty"`
	RaceReport string         `json:"race_report,omitempty"`
	Poisoned   bool           `json:"poisoned,omitempty"` // goroutines are left behind
	MapWalks   int64          `json:"map_walks"`
	Hits       []int          `json:"hits,omitempty"` // last run of a process: scheduling points passed in all of them
}
