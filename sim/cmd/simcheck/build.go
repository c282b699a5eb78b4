package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// world is a built simulator: the instrumented library and the worker binary.
type built struct {
	dir    string
	worker string
	sites  siteReport
}

type siteReport struct {
	Sites []struct {
		ID   int    `json:"id"`
		File string `json:"file"`
		Line int    `json:"line"`
		Func string `json:"func"`
	} `json:"sites"`
	MapRanges   int            `json:"map_ranges_seamed"`
	MapUnseamed []string       `json:"map_ranges_unseamed"`
	Seams       map[string]int `json:"seams"`
	Files       int            `json:"files"`
}

func (r *siteReport) name(id int) string {
	if id > 0 && id <= len(r.Sites) && r.Sites[id-1].ID == id {
		s := r.Sites[id-1]
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	if id == 0 {
		return "caller"
	}
	for _, s := range r.Sites {
		if s.ID == id {
			return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
		}
	}
	return fmt.Sprint(id)
}

func goEnv(race bool) []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GORACE", "GODEBUG", "GOMAXPROCS", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")
	if race {
		env = append(env, "CGO_ENABLED=1")
	}
	return env
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// build copies the simulator to a scratch directory, instruments the library
// found at repo into it, and builds the worker.
func build(simDir, repo string, race bool) (*built, error) {
	dir, err := os.MkdirTemp("", "geosim-")
	if err != nil {
		return nil, err
	}
	b := &built{dir: dir, worker: filepath.Join(dir, "worker")}
	src := filepath.Join(dir, "sim")
	if err := copyDir(simDir, src); err != nil {
		return b, err
	}
	env := goEnv(race)
	if out, err := run(src, env, "go", "build", "-trimpath", "-o", filepath.Join(dir, "instr"), "./cmd/instr"); err != nil {
		return b, fmt.Errorf("building the instrumenter: %v\n%s", err, out)
	}
	args := []string{"build", "-trimpath", "-o", b.worker}
	if race {
		args = append(args, "-race")
		if o, err := poolOverlay(dir, env); err == nil {
			args = append(args, "-overlay", o)
		}
	}
	mod := "module geosim\n\ngo 1.25\n\nrequire github.com/mmadfox/go-geoql-parser v0.0.0\n\nreplace github.com/mmadfox/go-geoql-parser => ./target\n"
	if err := os.WriteFile(filepath.Join(src, "go.mod"), []byte(mod), 0o644); err != nil {
		return b, err
	}
	var first error
	for _, plain := range []bool{false, true} { // without the rarer seams if they do not fit the source
		if err := b.instrument(src, repo, env, plain); err != nil {
			return b, err
		}
		out, err := run(src, env, "go", append(args, "./cmd/worker")...)
		if err == nil {
			return b, nil
		}
		if first == nil {
			first = fmt.Errorf("building the worker: %v\n%s", err, out)
		}
	}
	return b, first
}

func (b *built) instrument(src, repo string, env []string, plain bool) error {
	rep := filepath.Join(b.dir, "sites.json")
	target := filepath.Join(src, "target")
	if err := os.RemoveAll(target); err != nil {
		return err
	}
	if out, err := run(src, env, filepath.Join(b.dir, "instr"), "-src", repo, "-dst", target, "-report", rep, fmt.Sprintf("-plain=%v", plain)); err != nil {
		return fmt.Errorf("instrumenting %s: %v\n%s", repo, err, out)
	}
	raw, err := os.ReadFile(rep)
	b.sites = siteReport{}
	if err == nil {
		err = json.Unmarshal(raw, &b.sites)
	}
	return err
}

// poolOverlay makes the standard library's pools (those in fmt, for example) drop
// everything when the race detector is on, instead of a random quarter: legal for
// a pool, repeatable, and without accidental ordering between callers.
func poolOverlay(dir string, env []string) (string, error) {
	root, err := run(dir, env, "go", "env", "GOROOT")
	if err != nil {
		return "", err
	}
	file := filepath.Join(strings.TrimSpace(root), "src", "sync", "pool.go")
	raw, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	text := strings.Replace(string(raw), "if runtime_randn(4) == 0 {", "if race.Enabled {", 1)
	if text == string(raw) {
		return "", errors.New("no pool to change")
	}
	changed := filepath.Join(dir, "pool.go")
	if err := os.WriteFile(changed, []byte(text), 0o644); err != nil {
		return "", err
	}
	o, _ := json.Marshal(map[string]any{"Replace": map[string]string{file: changed}})
	name := filepath.Join(dir, "overlay.json")
	return name, os.WriteFile(name, o, 0o644)
}

func (b *built) remove() {
	if b != nil && strings.Contains(filepath.Base(b.dir), "geosim-") {
		os.RemoveAll(b.dir)
	}
}

func copyDir(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(src, p)
		if err != nil {
			return err
		}
		if d.IsDir() {
			if rel == "target" || strings.HasPrefix(d.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), raw, 0o644)
	})
}
