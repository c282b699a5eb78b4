package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"geosim/plan"
	"geosim/vsim"
)

// summary adds up what the simulated runs did.
type summary struct {
	b          *built
	Runs       int
	Trivial    int
	Ops        int
	Skipped    int
	Steps      int64
	SimS       float64
	Switches   int64
	MapWalks   int64
	Faults     map[string]int
	Sites      map[string]int
	Pairs      map[[2]int]int
	Hits       map[int]bool
	hashes     map[uint64]bool
	nontrivial map[uint64]bool
	Samples    []any
	Rechecked  int
	Violations int
}

func (s *summary) init(b *built) {
	s.b = b
	s.Faults, s.Sites, s.Pairs = map[string]int{}, map[string]int{}, map[[2]int]int{}
	s.Hits = map[int]bool{}
	s.hashes, s.nontrivial = map[uint64]bool{}, map[uint64]bool{}
}

func (s *summary) add(ep *plan.Episode, r *plan.Result) {
	s.Runs++
	s.Ops += r.Ops
	s.Skipped += r.Skipped
	s.Steps += r.Steps
	s.SimS += float64(r.SimNs) / 1e9
	s.Switches += int64(r.Switches)
	s.MapWalks += r.MapWalks
	nf := 0
	for k, n := range r.Faults {
		s.Faults[k] += n
		nf += n
	}
	for k, n := range r.Sites {
		s.Sites[k] += n
	}
	for _, p := range r.Pairs {
		s.Pairs[[2]int{p[0], p[1]}] += p[2]
	}
	for _, h := range r.Hits {
		s.Hits[h] = true
	}
	s.hashes[r.Hash] = true
	if r.Skipped < max(1, r.Ops) && (nf > 0 || r.Switches > 0 || r.MapWalks > 0) {
		s.nontrivial[r.Hash] = true
		if len(s.Samples) < 3 && s.Runs%7 == 1 {
			var ops []string
			for i, t := range ep.Tasks {
				for _, op := range t.Ops {
					txt := plan.TextBytes(op.Text, op.Hex)
					for _, rd := range op.Rounds {
						txt += "|" + plan.TextBytes(rd.Text, rd.Hex)
					}
					ops = append(ops, fmt.Sprintf("caller %d: %s %s", i, op.Kind, strconv.Quote(clip(txt, 160))))
				}
			}
			s.Samples = append(s.Samples, map[string]any{
				"calls": ops, "policy": ep.Policy, "hash_seed": ep.MapSeed, "faults_fired": r.Faults,
				"context_switches": r.Switches, "steps": r.Steps, "simulated_ms": r.SimNs / 1e6, "result_hash": fmt.Sprintf("%016x", r.Hash),
			})
		}
	} else {
		s.Trivial++
	}
}

// place counts in what way a process's place differs from the one of the expected results.
func (s *summary) place(p *vsim.Place) {
	if p == nil {
		return
	}
	for k, is := range map[string]bool{"other-time-zone": p.Zone != "", "other-wall-clock": p.Clock != "", "other-environment": p.Vars != 0, "more-processors": p.CPUs > 1} {
		if is {
			s.Faults[k]++
		}
	}
}

var rules = map[string]string{
	"C01": "seeded texts (rules, token soup, encoding errors, tokens longer than the buffer) x seeded deliveries (read sizes, empty reads, scratch use, end with data) x scanner settings and call sequences, each compared with the same text in one piece",
	"C02": "as C01 with read errors at seeded places, one-off or lasting, with or without data; compared with the text cut off where the source failed",
	"C03": "seeded texts and deliveries with stalls; at every read the amount supplied is compared with what the next token needs, and the end of the stream with the characters left",
	"C04": "sequences of scans on one scanner, abandoned after a seeded number of calls or by a failing or panicking source or handler; each scan compared with a new scanner",
	"C05": "seeded rules x seeded write failures (by write and by byte, partial, lasting, panicking; for some rules at every write and byte in turn), then a healthy retry",
	"C06": "seeded rules saved with seeded failing attempts before the acknowledged one, hash seeds changed between saves, 1 to 4 generations of save and reload",
	"C07": "seeded rules and token numbers formatted in processes with seeded hash orders (from process start) after seeded other calls; compared with the text from a fresh process in canonical order",
	"C08": "seeded rules checked against one dictionary whose contents change between calls and against fresh ones, in seeded hash orders and call histories; compared with the verdict of a fresh process",
	"C09": "2 to 4 callers with 1 to 3 calls each on their own data, started in a fresh process under a seeded schedule that can switch before every statement; compared with each call alone in a fresh process, under the happens-before race detector",
	"C10": "2 to 4 callers formatting, checking and traversing one shared rule under seeded schedules; compared with each call alone in a fresh process, under the happens-before race detector, rule and dictionary compared before and after",
	"C11": "seeded rules x seeded sets of declined expressions, start nodes, aborted traversals and visitors that call the library; compared with the pre-order of the tree",
	"C21": "1 to 4 seeded rules formatted by one party onto a simulated connection (seeded capacity, fragmentation, stalls) and tokenized by another, with and without answers, under seeded schedules; the connection is cut, the sender dies or the receiver leaves at seeded places; compared with the tokens of the bytes that arrived and with the rules' texts",
	"C22": "seeded units of text repeated to streams of up to 2 MB and tokens of up to 100 kB under seeded deliveries; every token compared with the first unit's, statements executed, bytes allocated and memory held compared between the beginning and the end of the stream and between shorter and longer tokens",
	"C23": "seeded texts and deliveries x seeded sequences of Peek, Next, Scan and push-back calls, followed call by call by a model that knows only the text and a place in it",
	"C24": "calls made from inside the readers, writers, visitors and error handlers of other calls (up to two levels, on the same or other data), inner and outer result compared with the same call alone in a fresh process",
	"C25": "seeded rules x seeded sequences of edits (values, operators, operands, lists, arguments, variables, SetVar, repeat and reset clauses) with calls in between, one or two callers, rules kept for later; results compared with those of a fresh process that makes the edits right after parsing, kept rules with what they were, under the race detector",
	"C31": "seeded rules nested to some depth, with one operator after the other, or with one part repeated, parsed, formatted, checked and traversed, and seeded texts of one stretch repeated, scanned to the end by seeded calls, under the stack limit of a goroutine or, for what is not nested, a quarter of a megabyte; acceptance and number of expressions compared with the same rule of few parts",
	"C27": "a seeded rule in sizes that double, each parsed, formatted, checked and traversed, or up to eight seeded calls (failing and interrupted ones among them) made over and over; statements executed, memory allocated and held, bytes written compared with the smaller rule or the earlier rounds",
	"C28": "1 to 3 callers that keep every rule, error, token text, message, dictionary and written string they are given, and scans set aside in the middle, while seeded other calls (failing and interrupted ones among them) are made by themselves and others; everything kept is looked at again after later calls and in later runs, scans taken up again are compared with uninterrupted ones, under the race detector",
	"C26": "seeded texts and deliveries x seeded sequences of scanner settings changed between tokens, compared scan by scan with a new scanner on the rest of the text and with what the settings in force allow",
	"C29": "seeded texts whose bytes are changed, lost, added or cut off at seeded places, under seeded deliveries and sequences of calls; messages, their places and counts compared with the damaged places, everything else with the text that has a replacement character for each damaged byte, and for texts that end inside a literal or comment with the tokens of the whole text",
	"C30": "seeded calls made in processes with seeded time zones, wall clocks, environment variables, host names, processors and random numbers, while the clock is set forward and back, the process is suspended, memory is collected and sources and destinations take up to years; compared with each call alone in a fresh process at one fixed place and time with nothing of this",
	"C32": "1 to 3 callers making seeded calls (failing and interrupted ones among them, with stalled and slow sources and destinations) over and over, going on at once, letting others run or waiting in between; every use of what the caller supplied is matched with a call under way, everything returned is compared with itself later, goroutines and timers left behind are counted per caller",
	"C12": "calls ended from inside by a panicking or exiting reader, writer, visitor or handler, followed or accompanied by other calls, which are compared with the same call alone in a fresh process",
}

func (c *check) evidence(status int, built, explored time.Duration) error {
	s := &c.sum
	perHour := func(n int) int64 {
		if explored <= 0 {
			return 0
		}
		return int64(float64(n) / explored.Hours())
	}
	places := map[string][]string{}
	for k := range s.Sites {
		kind, at, _ := strings.Cut(k, "@")
		id, _ := strconv.Atoi(at)
		places[kind] = append(places[kind], s.b.sites.name(id))
	}
	nPlaces := map[string]int{}
	for k, v := range places {
		sort.Strings(v)
		nPlaces[k] = len(v)
	}
	stubs := []string{"the caller's readers, writers, visitors and error handlers (simulated)", "hash-table iteration order, clocks, timers and random numbers used by the library (seeded)"}
	if len(s.b.sites.Seams) > 0 {
		stubs = append(stubs, fmt.Sprintf("package sync and go statements in the library where used: seams %v", s.b.sites.Seams))
	}
	real := []string{fmt.Sprintf("the whole library (%d files, %d statements with scheduling points): tokenizer, scanner, parser, formatter, type checker, traversal", s.b.sites.Files, len(s.b.sites.Sites)), "the Go runtime and standard library"}
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": len(s.nontrivial),
		"rule":                rules[c.prop] + ". A run is non-trivial if at least one call got through to the library's result and a fault fired, callers were switched, or a hash table was walked in a non-canonical order; distinct by the hash of its schedule and of everything the library returned.",
		"samples":             s.Samples,

		"simulated_processes":           c.host.nProc.Load(),
		"fresh_process_results":         c.host.nGolden.Load(),
		"calls":                         s.Ops,
		"calls_with_rejected_rules":     s.Skipped,
		"runs_per_hour":                 perHour(s.Runs),
		"seeds_per_hour":                perHour(s.Runs),
		"simulated_seconds":             int64(s.SimS),
		"scheduler_steps":               s.Steps,
		"context_switches":              s.Switches,
		"distinct_runs":                 len(s.hashes),
		"distinct_switch_points":        len(s.Pairs),
		"switch_point_measure":          "pairs (statement where a caller was preempted, statement where the next one resumed)",
		"faults_fired":                  s.Faults,
		"fault_places":                  nPlaces,
		"fault_place_measure":           "distinct library statements after which each kind of fault fired",
		"noncanonical_hash_table_walks": s.MapWalks,
		"library_statements":            len(s.b.sites.Sites),
		"library_statements_reached":    len(s.Hits),
		"map_ranges_seamed":             s.b.sites.MapRanges,
		"map_ranges_unseamed":           s.b.sites.MapUnseamed,
		"runs_repeated_and_identical":   s.Rechecked,
		"real_components":               real,
		"stubbed_components":            stubs,
		"build_s":                       built.Seconds(),
	}
	if cov["samples"] == nil || len(s.Samples) == 0 {
		cov["samples"] = []any{"no non-trivial run"}
	}
	if name := os.Getenv("GEOSIM_COVER"); name != "" {
		var out []string
		for _, x := range s.b.sites.Sites {
			if !s.Hits[x.ID] {
				out = append(out, fmt.Sprintf("%s:%d %s", x.File, x.Line, x.Func))
			}
		}
		os.WriteFile(name, []byte(strings.Join(out, "\n")+"\n"), 0o644)
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"coverage":    cov,
		"assumptions": []string{"readers and writers honour the io.Reader and io.StringWriter contracts except for the injected failures", "the instrumented copy behaves like the original: instrumentation only inserts calls before statements and replaces hash-table ranges, sync, time, rand and go statements", "seeded search: what was not generated was not checked"},
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  s.Violations,
	}
	dir := filepath.Join(c.root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}
