// Package hx is the shared part of the property harness: statistics, failure
// artefacts, driving the c-for-go command line tool, building and running the
// packages it generates.
package hx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// Infra reports a failure of the machinery itself (never of the property).
func Infra(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", a...)
	os.Exit(3)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Thorough tells which tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Work is the scratch directory of this shard.
func Work() string {
	w := os.Getenv("VERIF_WORK")
	if w == "" {
		Infra("VERIF_WORK is not set: start the harness through /verif/check")
	}
	return w
}

var caseNo int64

// CaseDir makes a fresh directory for one case.
func CaseDir() string {
	d := filepath.Join(Work(), fmt.Sprintf("case%d", atomic.AddInt64(&caseNo, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		Infra("mkdir: %v", err)
	}
	return d
}

type stats struct {
	Property    string         `json:"property"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	Message     string         `json:"message"`
	Known       []string       `json:"known"`
}

var (
	st   = stats{Labels: map[string]int{}}
	seen = map[uint64]bool{}
)

// Case collects what one generated case did.
type Case struct {
	*rapid.T
	evals []struct {
		key        string
		nontrivial bool
	}
	labels    []string
	sample    string
	artifacts map[string]string
	dirs      []string
}

// Eval counts one evaluated (sub-)case.
func (c *Case) Eval(key string, nontrivial bool) {
	c.evals = append(c.evals, struct {
		key        string
		nontrivial bool
	}{key, nontrivial})
}

// Label classifies the case for the distribution in the evidence.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// Sample keeps a written-out form of the case.
func (c *Case) Sample(s string) { c.sample = s }

// Artifact is saved beside the replay file when the case fails.
func (c *Case) Artifact(name, content string) { c.artifacts[name] = content }

// Dir is a scratch directory removed after the case.
func (c *Case) Dir() string {
	d := CaseDir()
	c.dirs = append(c.dirs, d)
	return d
}

// Failf reports a violation of the property.
func (c *Case) Failf(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	c.artifacts["violation.txt"] = msg + "\n"
	for i := len(c.dirs) - 1; i >= 0; i-- {
		msg = strings.ReplaceAll(msg, c.dirs[i], "CASE")
	}
	st.Message = msg
	c.T.Fatalf("PROPERTY VIOLATED: %s", Head(msg, 3000))
}

// Known tells whether a failure is one of the listed known findings, and
// notes that it was seen.
func (c *Case) Known(key string) bool {
	for _, k := range strings.Fields(os.Getenv("VERIF_KNOWN")) {
		if k == key {
			for _, x := range st.Known {
				if x == key {
					return true
				}
			}
			st.Known = append(st.Known, key)
			return true
		}
	}
	return false
}

var (
	began   = time.Now()
	sampled int
	hangs   int
)

// overBudget ends a run early on a slow machine: fewer cases, no alarm.
func overBudget() bool {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	return n > 0 && time.Since(began) > time.Duration(n)*time.Second
}

// Check runs the property over generated cases.
func Check(t *testing.T, property, rule string, f func(c *Case)) {
	t.Helper()
	st.Property, st.Rule = property, rule
	defer flush()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, artifacts: map[string]string{}}
		done := false
		if !st.Failed && overBudget() {
			return
		}
		defer func() {
			for _, d := range c.dirs {
				os.RemoveAll(d)
			}
			if !done {
				if r := recover(); r != nil {
					if c.artifacts["violation.txt"] == "" {
						c.artifacts["violation.txt"] = fmt.Sprintf("panic: %v\n", r)
						if !strings.Contains(fmt.Sprintf("%T", r), "rapid.") {
							st.Message = fmt.Sprintf("panic: %v", r)
						}
					}
					if !strings.Contains(fmt.Sprintf("%T", r), "invalidData") {
						st.Failed = true
						c.save()
					}
					panic(r)
				}
			}
		}()
		f(c)
		done = true
		if st.Failed {
			return
		}
		for _, e := range c.evals {
			st.Evaluations++
			if e.nontrivial {
				h := fnv.New64a()
				h.Write([]byte(e.key))
				if s := h.Sum64(); !seen[s] {
					seen[s] = true
					st.Hashes = append(st.Hashes, fmt.Sprintf("%016x", s))
				}
			}
		}
		for _, l := range c.labels {
			st.Labels[l]++
		}
		nontrivial := false
		for _, e := range c.evals {
			nontrivial = nontrivial || e.nontrivial
		}
		if nontrivial && c.sample != "" {
			sampled++
		}
		if nontrivial && c.sample != "" && (sampled == 2 || sampled == 7 || sampled == 25) {
			s := c.sample
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			st.Samples = append(st.Samples, s)
		}
	})
}

func (c *Case) save() {
	dir := os.Getenv("VERIF_REPLAY")
	if dir == "" {
		return
	}
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		Infra("mkdir: %v", err)
	}
	for n, s := range c.artifacts {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(s), 0644)
	}
}

func flush() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	b, _ := json.MarshalIndent(st, "", " ")
	if err := os.WriteFile(p, b, 0644); err != nil {
		Infra("stats: %v", err)
	}
}

// M is a YAML mapping that keeps its order.
type M = yaml.MapSlice

// KV makes a mapping item.
func KV(k, v interface{}) yaml.MapItem { return yaml.MapItem{Key: k, Value: v} }

// YAML renders a configuration.
func YAML(v interface{}) string {
	b, err := yaml.Marshal(v)
	if err != nil {
		Infra("yaml: %v", err)
	}
	return string(b)
}

// Result is one finished command.
type Result struct {
	Code   int
	Stdout string
	Stderr string
	Hung   bool
}

// Run runs a command with a generous limit. A command that does not end is
// tried once more before it is called hung.
func Run(dir string, env []string, limit time.Duration, name string, args ...string) Result {
	var r Result
	if hangs > 0 && limit > 15*time.Second && limit <= 100*time.Second {
		limit = 15 * time.Second // already seen to hang twice: shrinking
	}
	for try := 0; try < 2; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), env...)
		cmd.WaitDelay = 5 * time.Second
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		hung := ctx.Err() == context.DeadlineExceeded
		cancel()
		r = Result{Stdout: so.String(), Stderr: se.String(), Hung: hung}
		if err != nil && !hung {
			ee, ok := err.(*exec.ExitError)
			if !ok {
				Infra("cannot run %s: %v", name, err)
			}
			r.Code = ee.ExitCode()
			if r.Code < 0 { // killed by a signal: out of memory, most likely
				if try == 0 {
					continue
				}
				if strings.Contains(ee.String(), "killed") {
					Infra("%s %v: %s", name, args, ee.String())
				}
			}
		}
		if !hung {
			return r
		}
		if hangs > 0 {
			return r
		}
	}
	if r.Hung {
		hangs++
	}
	return r
}

// CLI runs the tool under test.
func CLI(dir string, args ...string) Result {
	return CLIEnv(dir, nil, args...)
}

// CLIEnv runs the tool under test with extra environment.
func CLIEnv(dir string, env []string, args ...string) Result {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		Infra("VERIF_CLI is not set")
	}
	// a run that eats all memory must not take the sandbox with it
	args = append([]string{"-c", `ulimit -v 5000000; exec "$0" "$@"`, bin}, args...)
	return Run(dir, env, 90*time.Second, "/bin/sh", args...)
}

// WriteFile writes a file of a case.
func WriteFile(dir, name, content string) {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		Infra("mkdir: %v", err)
	}
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		Infra("write: %v", err)
	}
}

// ReadTree reads every file under dir.
func ReadTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		if fi, err := os.Stat(p); err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			Infra("read: %v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return nil
	})
	return out
}

// Keys of a map in order.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Job is one run of the tool on generated sources.
type Job struct {
	Files map[string]string // sources, relative to the case directory
	Cfg   M
	Args  []string // extra flags
	Env   []string
}

// Out is what the tool made.
type Out struct {
	Dir    string            // case directory
	Pkg    string            // generated package directory
	Files  map[string]string // generated files, by name relative to Pkg
	Stderr string
}

// Generate runs the tool on the job, in a fresh directory, and fails the case
// when the tool does not finish successfully.
func Generate(c *Case, j Job) *Out {
	d := c.Dir()
	o, r := TryGenerate(c, d, j)
	if r.Hung {
		c.Failf("c-for-go did not terminate on a valid input")
	}
	if r.Code != 0 {
		c.Failf("c-for-go failed on a valid input (exit %d): %s", r.Code, Tail(r.Stderr, 2000))
	}
	return o
}

// TryGenerate runs the tool on the job in d.
func TryGenerate(c *Case, d string, j Job) (*Out, Result) {
	for n, s := range j.Files {
		WriteFile(d, n, s)
		c.Artifact("case/"+n, s)
	}
	y := YAML(j.Cfg)
	WriteFile(d, "pkg.yml", y)
	c.Artifact("case/pkg.yml", y)
	args := append([]string{"-fancy=false", "-nostamp", "-out", "out"}, j.Args...)
	args = append(args, "pkg.yml")
	c.Artifact("case/cmd.txt", "c-for-go "+strings.Join(args, " ")+"\n")
	r := CLIEnv(d, j.Env, args...)
	o := &Out{Dir: d, Stderr: r.Stderr}
	o.Pkg = filepath.Join(d, "out", PkgName(j.Cfg))
	o.Files = ReadTree(o.Pkg)
	for n, s := range o.Files {
		c.Artifact("generated/"+n, s)
	}
	return o, r
}

// PkgName finds the package path in a configuration.
func PkgName(cfg M) string {
	for _, it := range cfg {
		if it.Key == "GENERATOR" {
			for _, g := range it.Value.(M) {
				if g.Key == "PackageName" {
					return g.Value.(string)
				}
			}
		}
	}
	return ""
}

// Tail keeps the end of a text.
func Tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// Head keeps the start of a text.
func Head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var goEnv = []string{"GO111MODULE=on", "GOFLAGS=-mod=mod", "CGO_ENABLED=1"}

// GoBuild compiles a generated package for real, cgo included. extra files are
// laid into the package directory first.
func GoBuild(c *Case, o *Out, extra map[string]string, target string, flags ...string) Result {
	for n, s := range extra {
		WriteFile(o.Pkg, n, s)
		c.Artifact("generated/"+n, s)
	}
	if _, err := os.Stat(filepath.Join(o.Pkg, "go.mod")); err != nil {
		WriteFile(o.Pkg, "go.mod", "module gen\n\ngo 1.21\n")
	}
	args := append([]string{"build", "-p", "1"}, flags...)
	if target != "" {
		args = append(args, "-o", target, "./cmd")
	} else {
		args = append(args, "./...")
	}
	r := Run(o.Pkg, goEnv, 280*time.Second, "go", args...)
	if r.Hung {
		Infra("go build did not finish")
	}
	return r
}

// OneOf draws one of the given values.
func OneOf[T any](t *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

// Bool draws a boolean.
func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// Int draws an integer in [lo,hi].
func Int(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }
