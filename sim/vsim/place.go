package vsim

import (
	"encoding/json"
	"os"
	"runtime"
	"strconv"
	"time"
	_ "time/tzdata"
)

// Place is where and when a simulated process runs.
type Place struct {
	Zone  string `json:"zone,omitempty"`  // local time zone; none: UTC
	Clock string `json:"clock,omitempty"` // wall clock when it starts
	Vars  uint64 `json:"vars,omitempty"`  // seed for environment variables, names, numbers and the random numbers at start; 0: nothing is set
	CPUs  int    `json:"cpus,omitempty"`  // processors; none: 1
}

// Event is something that happens to a process at a step of a run.
type Event struct {
	At   int64  `json:"at"`
	Kind string `json:"kind"` // jump: somebody sets the clock; suspend: the process sleeps for a while; gc: memory is collected
	Ms   int64  `json:"ms,omitempty"`
}

var (
	place   Place
	base    = time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)
	lived   time.Duration // simulated time of the runs that are over
	jumped  time.Duration // by which the clock has been set
	events  []Event
	eventAt int64 = 1 << 62
	fired         = map[string]int{}
	late    bool  // time has passed while others could have run
	gen     int   // collections so far
)

func init() {
	// Before any package of the code under test is initialised, as they import this one.
	if v := os.Getenv("VSIM_PLACE"); v != "" {
		if json.Unmarshal([]byte(v), &place) != nil {
			os.Exit(91)
		}
	}
	time.Local = time.UTC
	if place.Zone != "" {
		z, err := time.LoadLocation(place.Zone)
		if err != nil {
			os.Exit(90)
		}
		time.Local = z
	}
	if place.Clock != "" {
		t, err := time.Parse(time.RFC3339Nano, place.Clock)
		if err != nil {
			os.Exit(89)
		}
		base = t
	}
	randState.Seed(place.Vars)
}

// Collections counts the simulated collections of memory.
//
//go:norace
func Collections() int { return gen }

// Fired counts the events that have happened since the last call.
func Fired() map[string]int {
	f := fired
	fired = map[string]int{}
	return f
}

func setEvents(es []Event) {
	events, eventAt, late = es, 1<<62, false
	for _, e := range events {
		eventAt = min(eventAt, e.At)
	}
}

// happen lets the events of this step happen.
//
//go:norace
func happen() {
	eventAt = 1 << 62
	s := curSched
	for _, e := range events {
		switch {
		case e.At > steps:
			eventAt = min(eventAt, e.At)
		case e.At == steps && s != nil:
			fired["clock-"+e.Kind]++
			switch d := time.Duration(e.Ms) * time.Millisecond; e.Kind {
			case "jump":
				jumped += d
			case "suspend":
				s.clock += d
				late = true
			case "gc":
				gen++
				runtime.GC()
			}
		}
	}
}

// overdue lets go off what should have done so while the process was suspended.
//
//go:norace
func (s *sched) overdue() {
	late = false
	for timers != nil && timers.at <= s.clock {
		s.fire()
	}
	for _, t := range s.tasks {
		if t.state == sSleep && t.wake <= s.clock {
			t.state = sReady
		}
	}
}

// ---- what a program may ask about where it runs -------------------------------

func some(name string) (uint64, bool) {
	if place.Vars == 0 {
		return 0, false
	}
	h := place.Vars
	for i := 0; i < len(name); i++ {
		h = Mix(h, uint64(name[i]))
	}
	return h, true
}

var values = []string{"1", "0", "true", "false", "yes", "on", "off", "strict", "debug", "C", "POSIX", "en_US.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "Europe/Berlin", "/nonexistent", "10", "-1", "100000", "km", "x y", "ä€", ","}

// LookupEnv is os.LookupEnv.
func LookupEnv(name string) (string, bool) {
	h, ok := some(name)
	if !ok || h%4 == 0 {
		return "", false
	}
	if h%16 == 1 {
		return "", true
	}
	return values[h>>8%uint64(len(values))], true
}

// Getenv is os.Getenv.
func Getenv(name string) string {
	v, _ := LookupEnv(name)
	return v
}

// ExpandEnv is os.ExpandEnv.
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

// Environ is os.Environ.
func Environ() []string {
	var out []string
	for _, n := range []string{"PATH", "HOME", "LANG", "LC_ALL", "TZ", "USER", "DEBUG", "GODEBUG"} {
		if v, ok := LookupEnv(n); ok {
			out = append(out, n+"="+v)
		}
	}
	return out
}

// Hostname is os.Hostname.
func Hostname() (string, error) {
	h, _ := some("host name")
	return "host" + strconv.FormatUint(h%1000, 10), nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) {
	h, _ := some("directory")
	return "/" + strconv.FormatUint(h%1000, 36), nil
}

// Getpid is os.Getpid.
func Getpid() int {
	h, _ := some("pid")
	return 2 + int(h%32000)
}

// Getppid is os.Getppid.
func Getppid() int {
	h, _ := some("ppid")
	return 1 + int(h%32000)
}

// Getuid is os.Getuid.
func Getuid() int {
	h, _ := some("uid")
	return int(h % 3 * 1000)
}

// NumCPU is runtime.NumCPU.
func NumCPU() int { return max(1, place.CPUs) }

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int { return max(1, place.CPUs) }

// NumGoroutine is runtime.NumGoroutine.
func NumGoroutine() int {
	h, _ := some("goroutines")
	return 1 + int(h%5)
}
