// Command worker is one simulated process: it reads a job from standard input,
// runs it against the instrumented library, and writes one line of JSON per
// episode to standard output.
package main

import (
	"encoding/json"
	"io"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"syscall"
	"time"

	"geosim/plan"
	"geosim/vsim"
	"geosim/world"
)

// watchMemory ends the process like the runtime does when memory runs out, before
// the machine's memory does.
func watchMemory(max uint64) {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		if metrics.Read(m); m[0].Value.Uint64() > max {
			os.Stderr.WriteString("fatal error: the simulated process holds more than " + strconv.FormatUint(max>>30, 10) + " GB\n")
			os.Exit(2)
		}
	}
}

func main() {
	// what the library prints goes to a file the harness looks at
	out, err := syscall.Dup(1)
	if err != nil {
		os.Exit(97)
	}
	results := os.NewFile(uintptr(out), "results")
	if name := os.Getenv("VSIM_CAPTURE"); name != "" {
		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0o600)
		if err != nil {
			os.Exit(96)
		}
		if syscall.Dup2(int(f.Fd()), 1) != nil || syscall.Dup2(int(f.Fd()), 2) != nil {
			os.Exit(95)
		}
		world.Capture = f
	}
	debug.SetMaxStack(1 << 30)
	go watchMemory(3 << 30)
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(94)
	}
	var job plan.Job
	if err := json.Unmarshal(in, &job); err != nil {
		os.Exit(93)
	}
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			os.Exit(92)
		}
		results.Write(append(b, '\n'))
	}
	if job.Solo != nil {
		res, v := world.Solo(job.Prop, *job.Solo)
		emit(plan.SoloResult{Result: res, Broken: v != nil})
		return
	}
	for i := range job.Scenario.Episodes {
		from := world.CaptureSize()
		r := world.Run(job.Scenario.Prop, &job.Scenario.Episodes[i], job.Scenario.Golden)
		if r.Viol == nil && !job.KeepDecs {
			r.Decs = nil
		}
		if r.Viol != nil {
			r.RaceReport = world.CaptureFrom(from, 6000)
		}
		if job.Scenario.Prop != "C02" {
			world.CaptureReset()
		}
		if i == len(job.Scenario.Episodes)-1 {
			r.Hits = vsim.Hits()
		}
		emit(r)
		if r.Viol != nil || r.Poisoned {
			break
		}
	}
	_ = vsim.RaceOn
	os.Exit(0)
}
