// Command simcheck decides the simulated properties:
//
//	simcheck check <property> quick|thorough
//	simcheck replay <file>
//	simcheck dump <property> <process number>
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"geosim/plan"
)

func main() {
	if len(os.Args) < 3 {
		fail("usage: simcheck check <property> quick|thorough | simcheck replay <file>")
	}
	debug.SetGCPercent(200)
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root, _ = os.Getwd()
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	c := &check{root: root, repo: repo, start: time.Now()}
	switch os.Args[1] {
	case "check":
		c.prop = os.Args[2]
		c.tier = "quick"
		if len(os.Args) > 3 {
			c.tier = os.Args[3]
		}
		c.seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			n, err := strconv.ParseUint(s, 10, 63)
			if err != nil {
				fail("VERIF_SEED: %v", err)
			}
			c.seed = n
		}
		os.Exit(c.check())
	case "replay":
		os.Exit(c.replay(os.Args[2]))
	case "dump":
		c.prop = os.Args[2]
		n, _ := strconv.ParseUint(os.Args[3], 10, 63)
		sc := plan.GenScenario(c.prop, 1, n, plan.GenStock(c.prop, 1, 200))
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		return
	}
	fail("unknown command %s", os.Args[1])
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+format+"\n", args...)
	os.Exit(3)
}

type check struct {
	root, repo string
	prop, tier string
	seed       uint64
	start      time.Time
	host       *host
	sum        summary
}

// found is a violation and where it was seen.
type found struct {
	index uint64
	sc    *plan.Scenario
	res   *plan.Result
}

// size is how much is run.
type size struct {
	procs int // simulated processes
	stock int // calls with known results
	wall  time.Duration
}

func sizes(prop, tier string) (size, bool) {
	quick := map[string]size{
		"C01": {procs: 240}, "C02": {procs: 300}, "C03": {procs: 300}, "C04": {procs: 240},
		"C05": {procs: 500}, "C06": {procs: 700}, "C11": {procs: 700},
		"C07": {procs: 1200, stock: 2400}, "C08": {procs: 1200, stock: 2400},
		"C09": {procs: 1400, stock: 1500}, "C10": {procs: 800, stock: 3000}, "C12": {procs: 1400, stock: 1500},
		"C21": {procs: 250}, "C22": {procs: 200}, "C23": {procs: 240}, "C24": {procs: 250, stock: 1500},
		"C25": {procs: 350, stock: 2000}, "C26": {procs: 240},
		"C27": {procs: 250}, "C28": {procs: 250}, "C29": {procs: 480}, "C30": {procs: 1000, stock: 2000}, "C31": {procs: 80}, "C32": {procs: 250},
	}
	s, ok := quick[prop]
	s.wall = 100 * time.Second
	if tier == "thorough" {
		s.procs *= 30
		s.stock *= 6
		s.wall = 600 * time.Second
	}
	return s, ok
}

func (c *check) check() int {
	sz, ok := sizes(c.prop, c.tier)
	if !ok {
		fail("property %s is not decided by simulation", c.prop)
	}
	b, err := build(filepath.Join(c.root, "sim"), c.repo, plan.Race(c.prop))
	defer b.remove()
	if err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		return 3
	}
	built := time.Since(c.start)
	n := runtime.NumCPU()
	c.host = newHost(b, c.prop, n)
	c.sum.init(b)
	var stock *plan.Stock
	if plan.Golden(c.prop) {
		stock = plan.GenStock(c.prop, c.seed, sz.stock)
		all := stock.All()
		if err := c.host.learn(all); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			return 3
		}
		stock = stock.Without(c.host.isBroken)
		if len(stock.All())*2 < len(all) {
			fmt.Fprintf(os.Stderr, "simcheck: %d of %d calls do not even return alone in a fresh process\n", len(all)-len(stock.All()), len(all))
			return 3
		}
	}
	explore := time.Now()
	status := 0
	var from uint64
	var odd []*found
	known := map[string]bool{}
	for {
		f, err := c.explore(sz, stock, from, explore.Add(sz.wall))
		if err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			return 3
		}
		if f == nil {
			break
		}
		status, err = c.report(f, known)
		if err == errOdd {
			odd = append(odd, f)
			if len(odd) < 3 {
				from = f.index + 1
				continue
			}
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			return 3
		}
		if status != 0 {
			break
		}
		from = f.index + 1 // a known finding: there may be others
	}
	explored := time.Since(explore)
	if status == 0 && len(odd) > 0 {
		// the code under test depends on something the simulator does not control
		if err := c.reportOdd(odd[0]); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			return 3
		}
		status = 1
	}
	if status != 0 {
	} else if err := c.selfCheck(stock); err != nil {
		fmt.Fprintln(os.Stderr, "simcheck: warning:", err)
	}
	if err := c.evidence(status, built, explored); err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		return 3
	}
	if status == 0 {
		fmt.Printf("ok property=%s tier=%s seed=%d processes=%d runs=%d wall=%.1fs\n", c.prop, c.tier, c.seed, c.host.nProc.Load(), c.sum.Runs, time.Since(c.start).Seconds())
	}
	return status
}

// explore runs simulated processes until all have run, time is up, or one shows a violation.
func (c *check) explore(sz size, stock *plan.Stock, next uint64, deadline time.Time) (*found, error) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var best *found
	var failed error
	for w := 0; w < cap(c.host.slots); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= uint64(sz.procs) || best != nil || failed != nil || time.Now().After(deadline)
				mu.Unlock()
				if stop {
					return
				}
				sc := plan.GenScenario(c.prop, c.seed, i, stock)
				procs := 1 + int(i%2)
				if c.bare() {
					procs = 1
				}
				rs, err := c.host.run(sc, false, procs)
				mu.Lock()
				if err != nil {
					failed = err
				} else {
					c.sum.place(sc.Place)
					for k := range rs {
						c.sum.add(&sc.Episodes[min(k, len(sc.Episodes)-1)], &rs[k])
						if rs[k].Viol != nil && (best == nil || i < best.index) {
							cut := *sc
							cut.Episodes = sc.Episodes[:min(k+1, len(sc.Episodes))]
							best = &found{i, &cut, &rs[k]}
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if best != nil && best.res.Viol.Class == "harness" {
		return nil, fmt.Errorf("%s", best.res.Viol.Detail)
	}
	if best != nil {
		return best, nil
	}
	return nil, failed
}

// bare says whether memory is measured: with more than one processor the
// runtime keeps a varying number of finished goroutines.
func (c *check) bare() bool { return c.prop == "C22" || c.prop == "C27" || c.prop == "C31" }

// selfCheck runs some processes again, differently parallel, and compares.
func (c *check) selfCheck(stock *plan.Stock) error {
	for i := uint64(0); i < 4; i++ {
		var first []plan.Result
		for k, procs := range []int{1, 8} {
			if c.bare() {
				procs = 1
			}
			sc := plan.GenScenario(c.prop, c.seed, i, stock)
			rs, err := c.host.run(sc, false, procs)
			if err != nil {
				return err
			}
			if k == 0 {
				first = rs
				continue
			}
			if len(rs) != len(first) {
				return fmt.Errorf("process %d is not repeatable", i)
			}
			for j := range rs {
				if rs[j].Hash != first[j].Hash || rs[j].Steps != first[j].Steps {
					return fmt.Errorf("process %d, run %d is not repeatable", i, j)
				}
				c.sum.Rechecked++
			}
		}
	}
	return nil
}

// attempt runs a scenario as it stands and returns the violation of its last episode.
func (c *check) attempt(sc *plan.Scenario, keep bool) (*plan.Result, error) {
	ok, err := c.host.learnFor(sc)
	if err != nil || !ok {
		return nil, err
	}
	rs, err := c.host.run(sc, keep, 1)
	if err != nil {
		return nil, err
	}
	last := &rs[len(rs)-1]
	if last.Viol == nil || len(rs) != len(sc.Episodes) || last.Viol.Class == "harness" {
		return nil, nil
	}
	return last, nil
}

// report confirms a violation, makes it smaller, writes the replay file and says so.
func (c *check) report(f *found, known map[string]bool) (int, error) {
	var res *plan.Result
	var err error
	for i := 0; i < 4 && res == nil; i++ {
		if res, err = c.attempt(f.sc, true); err != nil {
			return 3, err
		}
	}
	if res == nil {
		fmt.Fprintf(os.Stderr, "simcheck: process %d showed a violation that does not repeat: %s: %s\n", f.index, f.res.Viol.Class, clip(f.res.Viol.Detail, 600))
		return 0, errOdd
	}
	fmt.Fprintf(os.Stderr, "simcheck: process %d, run %d: %s: %s\nsimcheck: minimising\n", f.index, len(f.sc.Episodes)-1, res.Viol.Class, clip(res.Viol.Detail, 600))
	sc, res, tried := c.minimise(f.sc, res)
	path, err := c.writeReplay(f, sc, res, tried)
	if err != nil {
		return 3, err
	}
	fmt.Printf("%s: %s\n", res.Viol.Class, clip(res.Viol.Detail, 1200))
	if res.Viol.Class == "race" {
		fmt.Println(clip(res.RaceReport, 2500))
	}
	if line := c.known(sc, res); line != "" {
		if !known[line] {
			fmt.Println(line)
		}
		known[line] = true
		return 0, nil
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	c.sum.Violations = 1
	return 1, nil
}

var errOdd = errors.New("not repeatable")

// reportOdd reports violations that were seen, but not a second time: the code
// under test gets nondeterminism from somewhere that is not behind a seam.
func (c *check) reportOdd(f *found) error {
	path, err := c.writeReplay(f, f.sc, f.res, 0)
	if err != nil {
		return err
	}
	fmt.Printf("%s: %s\n(seen in a simulated run, but the run does not repeat: the library uses a source of nondeterminism that the simulator does not control)\n", f.res.Viol.Class, clip(f.res.Viol.Detail, 1200))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	c.sum.Violations = 1
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// minimise makes a failing scenario smaller as long as it fails the same way.
func (c *check) minimise(sc *plan.Scenario, res *plan.Result) (*plan.Scenario, *plan.Result, int) {
	deadline := time.Now().Add(60 * time.Second)
	if os.Getenv("GEOSIM_NOSHRINK") != "" { // for trying many planted changes
		deadline = time.Now()
	}
	tried := 0
	class := res.Viol.Class
	same := func(r *plan.Result) bool { return r != nil && r.Viol.Class == class }
	// first candidate that still fails, trying several at a time, in order
	step := func(cands func(func(*plan.Scenario) bool)) bool {
		w := cap(c.host.slots)
		var batch []*plan.Scenario
		hit := false
		run := func() bool {
			rs := make([]*plan.Result, len(batch))
			var wg sync.WaitGroup
			for j := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r, err := c.attempt(batch[j], true); err == nil {
						rs[j] = r
					}
				}()
			}
			wg.Wait()
			tried += len(batch)
			for j := range batch {
				if same(rs[j]) && !hit {
					sc, res, hit = batch[j], rs[j], true
				}
			}
			batch = nil
			return !hit && time.Now().Before(deadline)
		}
		if !time.Now().Before(deadline) {
			return false
		}
		more := true
		cands(func(cand *plan.Scenario) bool {
			if batch = append(batch, cand); len(batch) == w {
				more = run()
			}
			return more
		})
		if more && len(batch) > 0 {
			run()
		}
		return hit
	}
	pin := func() { // the schedule as it happened, instead of the seed it came from
		c2 := sc.Clone()
		changed := false
		e := &c2.Episodes[len(c2.Episodes)-1]
		if !e.Policy.Fixed && e.Policy.Mode != "serial" && len(res.Decs) > 0 && len(res.Decs) < 50_000 {
			e.Policy.Explicit, e.Policy.Fixed, e.Policy.Mode, e.Policy.Seed, e.Policy.Mean, e.Policy.Depth = plan.Compact(res.Decs), true, "", 0, 0, 0
			changed = true
		}
		if changed {
			step(func(yield func(*plan.Scenario) bool) { yield(c2) })
		}
	}
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		progress := false
		for stage := 0; stage < plan.Stages; stage++ {
			if stage == 2 {
				pin()
			}
			for time.Now().Before(deadline) && step(func(yield func(*plan.Scenario) bool) { plan.Candidates(sc, stage, yield) }) {
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	return sc, res, tried
}

// replayFile is what is written for a violation.
type replayFile struct {
	Property   string         `json:"property"`
	Class      string         `json:"class"`
	Detail     string         `json:"detail"`
	FoundWith  string         `json:"found_with"`
	Replay     string         `json:"replay"`
	Tried      int            `json:"candidates_tried_while_minimising"`
	Faults     map[string]int `json:"faults_in_last_run,omitempty"`
	Switches   []string       `json:"context_switches_in_last_run,omitempty"`
	RaceReport string         `json:"race_report,omitempty"`
	Scenario   *plan.Scenario `json:"scenario"`
}

func (c *check) writeReplay(f *found, sc *plan.Scenario, res *plan.Result, tried int) (string, error) {
	dir := filepath.Join(c.root, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.prop, c.tier, c.seed, f.index))
	r := replayFile{
		Property: c.prop, Class: res.Viol.Class, Detail: res.Viol.Detail,
		FoundWith: fmt.Sprintf("seed %d, tier %s, process %d, run %d", c.seed, c.tier, f.index, len(f.sc.Episodes)-1),
		Replay:    "./replay.sh " + path,
		Tried:     tried, Faults: res.Faults, RaceReport: clip(res.RaceReport, 4000), Scenario: sc,
	}
	for _, p := range res.Pairs {
		if len(r.Switches) < 40 {
			r.Switches = append(r.Switches, c.host.b.sites.name(p[0])+" -> "+c.host.b.sites.name(p[1]))
		}
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	return path, os.WriteFile(path, append(b, '\n'), 0o644)
}

func (c *check) replay(path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(raw, &r); err != nil {
		fail("%v", err)
	}
	c.prop = r.Property
	b, err := build(filepath.Join(c.root, "sim"), c.repo, plan.Race(c.prop))
	defer b.remove()
	if err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		return 3
	}
	c.host = newHost(b, c.prop, runtime.NumCPU())
	res, err := c.attempt(r.Scenario, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simcheck:", err)
		return 3
	}
	if res == nil {
		fmt.Println("not reproduced: the property held in this run")
		return 0
	}
	fmt.Printf("%s: %s\n%s\n", res.Viol.Class, res.Viol.Detail, clip(res.RaceReport, 4000))
	if res.Viol.Class != r.Class || res.Viol.Detail != r.Detail {
		fmt.Println("(not exactly what was recorded: " + r.Class + ": " + r.Detail + ")")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	return 1
}

// known looks the violation up among the recorded findings. A line
//
//	known: property=C06 class=altered contains="..." what fails
//
// matches if the minimised replay file's scenario contains the quoted text.
func (c *check) known(sc *plan.Scenario, res *plan.Result) string {
	raw, err := os.ReadFile(filepath.Join(c.root, "known-findings.txt"))
	if err != nil {
		return ""
	}
	b, _ := json.Marshal(sc)
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+c.prop+" class="+res.Viol.Class+" contains=")
		if !ok {
			continue
		}
		pat, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		what := strings.TrimSpace(rest[len(pat):])
		want, _ := strconv.Unquote(pat)
		if want != "" && strings.Contains(string(b), want) {
			return fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, what)
		}
	}
	return ""
}
