package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"geosim/plan"
	"geosim/vsim"
)

// host starts simulated processes.
type host struct {
	b       *built
	prop    string
	golden  map[string]string
	broken  map[string]bool // calls that do not return even alone
	mu      sync.Mutex
	slots   chan struct{}
	nProc   atomic.Int64
	nGolden atomic.Int64
	seq     atomic.Int64
}

func newHost(b *built, prop string, slots int) *host {
	return &host{b: b, prop: prop, golden: map[string]string{}, broken: map[string]bool{}, slots: make(chan struct{}, slots)}
}

// outcome is what one simulated process did.
type outcome struct {
	results []plan.Result
	lines   [][]byte
}

const procTimeout = 150 * time.Second

// exec runs one worker on a job and returns its output lines. died describes
// how it ended if not as planned.
func (h *host) exec(job *plan.Job, initMap uint64, place *vsim.Place, procs int) (lines [][]byte, died string, err error) {
	h.slots <- struct{}{}
	defer func() { <-h.slots }()
	in, err := json.Marshal(job)
	if err != nil {
		return nil, "", err
	}
	h.nProc.Add(1)
	capture := filepath.Join(h.b.dir, fmt.Sprintf("out-%d", h.seq.Add(1)))
	defer os.Remove(capture)
	ctx, cancel := context.WithTimeout(context.Background(), procTimeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, h.b.worker)
	cmd.Dir = h.b.dir
	cmd.Stdin = bytes.NewReader(in)
	var out, errOut bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errOut
	cmd.Env = []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + h.b.dir, "TZ=UTC", "TMPDIR=" + h.b.dir,
		"VSIM_INIT_MAP=" + strconv.FormatUint(initMap, 10),
		"VSIM_CAPTURE=" + capture,
		"GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=5",
		"GOMAXPROCS=" + strconv.Itoa(procs),
		"GOTRACEBACK=single",
	}
	if place != nil {
		b, err := json.Marshal(place)
		if err != nil {
			return nil, "", err
		}
		cmd.Env = append(cmd.Env, "VSIM_PLACE="+string(b))
	}
	err = cmd.Run()
	for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
		if len(l) > 0 {
			lines = append(lines, append([]byte{}, l...))
		}
	}
	if err == nil {
		return lines, "", nil
	}
	if ctx.Err() != nil {
		return lines, "stuck: a simulated process did not end within " + procTimeout.String(), nil
	}
	tail := ""
	if raw, e := os.ReadFile(capture); e == nil {
		tail = string(raw)
		if i := strings.Index(tail, "fatal error:"); i >= 0 {
			tail = tail[i:]
		} else if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 1500 {
			tail = tail[:1500]
		}
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 2 && (strings.Contains(tail, "fatal error:") || strings.Contains(tail, "panic:")) {
		return lines, "crash: " + tail, nil
	}
	return lines, "", fmt.Errorf("worker: %v %s %s", err, errOut.String(), tail)
}

// run runs a scenario; its expected results must be known.
func (h *host) run(sc *plan.Scenario, keep bool, procs int) ([]plan.Result, error) {
	if plan.Golden(sc.Prop) {
		sc.Golden = map[string]string{}
		for i := range sc.Episodes {
			for j := range sc.Episodes[i].Tasks {
				for _, op := range sc.Episodes[i].Tasks[j].Ops {
					for _, e := range op.Expected() {
						k := e.Key()
						h.mu.Lock()
						v, ok := h.golden[k]
						h.mu.Unlock()
						if ok {
							sc.Golden[k] = v
						}
					}
				}
			}
		}
	}
	lines, died, err := h.exec(&plan.Job{Prop: sc.Prop, Scenario: sc, KeepDecs: keep}, sc.InitMap, sc.Place, procs)
	if err != nil {
		return nil, err
	}
	var out []plan.Result
	for _, l := range lines {
		var r plan.Result
		if err := json.Unmarshal(l, &r); err != nil {
			return nil, fmt.Errorf("worker said %q: %v", l, err)
		}
		out = append(out, r)
	}
	if died != "" {
		class, detail, _ := strings.Cut(died, ": ")
		out = append(out, plan.Result{Viol: &plan.Violation{Class: class, Detail: detail}})
	} else if len(out) == 0 || len(out) < len(sc.Episodes) && out[len(out)-1].Viol == nil && !out[len(out)-1].Poisoned {
		return nil, fmt.Errorf("worker ran %d of %d episodes", len(out), len(sc.Episodes))
	}
	return out, nil
}

// learn finds out what calls return in a process of their own.
func (h *host) learn(ops []plan.Op) error {
	var wg sync.WaitGroup
	var first atomic.Value
	seen := map[string]bool{}
	for _, op := range ops {
		k := op.Key()
		h.mu.Lock()
		_, have := h.golden[k]
		have = have || h.broken[k]
		h.mu.Unlock()
		if have || seen[k] {
			continue
		}
		seen[k] = true
		wg.Add(1)
		h.slots <- struct{}{} // bounds the number of goroutines as well
		<-h.slots
		go func() {
			defer wg.Done()
			alone := op.Alone()
			lines, died, err := h.exec(&plan.Job{Prop: h.prop, Solo: &alone}, 0, nil, 1)
			h.nGolden.Add(1)
			if err != nil {
				first.CompareAndSwap(nil, err)
				return
			}
			var r plan.SoloResult
			if died == "" {
				if len(lines) != 1 {
					first.CompareAndSwap(nil, fmt.Errorf("worker said %q", lines))
					return
				}
				if err := json.Unmarshal(lines[0], &r); err != nil {
					first.CompareAndSwap(nil, err)
					return
				}
			}
			h.mu.Lock()
			defer h.mu.Unlock()
			if died != "" || r.Broken {
				h.broken[k] = true
				return
			}
			h.golden[k] = r.Result
		}()
	}
	wg.Wait()
	if err, ok := first.Load().(error); ok {
		return err
	}
	return nil
}

// isBroken tells whether a call does not return even alone in a fresh process.
func (h *host) isBroken(op plan.Op) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.broken[op.Key()]
}

// learnFor makes sure everything a scenario needs is known; false if it contains
// calls without a result of their own.
func (h *host) learnFor(sc *plan.Scenario) (bool, error) {
	if !plan.Golden(sc.Prop) {
		return true, nil
	}
	var ops []plan.Op
	for _, e := range sc.Episodes {
		for _, t := range e.Tasks {
			for _, op := range t.Ops {
				ops = append(ops, op.Expected()...)
			}
		}
	}
	if err := h.learn(ops); err != nil {
		return false, err
	}
	for _, op := range ops {
		if h.isBroken(op) {
			return false, nil
		}
	}
	return true, nil
}
