// Package lib is the frame every check runs in: evidence, violations, known
// findings, scratch directories and the choice-tree explorer.
package lib

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Run is one execution of one check.
type Run struct {
	Prop, Tier  string
	Seed        int
	Verif, Repo string
	Tmp         string
	Start       time.Time
	Level       string
	Budget      time.Duration
	ReplayFile  string

	mu                                   sync.Mutex
	States, Transitions, Execs, Distinct int
	Validated                            int
	Samples                              []any
	Exhaustive                           bool
	Extra                                map[string]any
	Assumptions                          []string
	viol                                 []Viol
	seenKnown                            map[string]bool
	known                                map[string]string
}

// Viol is one violation.
type Viol struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
	Replay   any    `json:"replay"`
}

// Thorough reports the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Left is the time left in the check's own budget.
func (r *Run) Left() time.Duration { return r.Budget - time.Since(r.Start) }

// Violate records a violation identified by key.
func (r *Run) Violate(key, msg string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if what, ok := r.known[key]; ok {
		if !r.seenKnown[key] {
			r.seenKnown[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, what, key)
		}
		return
	}
	for _, v := range r.viol {
		if v.Key == key {
			return
		}
	}
	r.viol = append(r.viol, Viol{r.Prop, key, msg, replay})
}

// Violated reports whether anything unlisted failed.
func (r *Run) Violated() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viol) > 0 }

// Count adds to the coverage counters.
func (r *Run) Count(states, transitions, execs int) {
	r.mu.Lock()
	r.States += states
	r.Transitions += transitions
	r.Execs += execs
	r.mu.Unlock()
}

// Validate counts traces replayed against the implementation.
func (r *Run) Validate(n int) { r.mu.Lock(); r.Validated += n; r.mu.Unlock() }

// Sample keeps up to a few written-out cases.
func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

// NotExhaustive notes that a bound other than the stated ones cut the search.
func (r *Run) NotExhaustive(why string) {
	r.mu.Lock()
	r.Exhaustive = false
	r.Extra["cut"] = why
	r.mu.Unlock()
}

// Set records a named measurement.
func (r *Run) Set(k string, v any) { r.mu.Lock(); r.Extra[k] = v; r.mu.Unlock() }

// Add adds to a named counter.
func (r *Run) Add(k string, n int) {
	r.mu.Lock()
	c, _ := r.Extra[k].(int)
	r.Extra[k] = c + n
	r.mu.Unlock()
}

func (r *Run) loadKnown() {
	r.known, r.seenKnown = map[string]string{}, map[string]bool{}
	b, err := os.ReadFile(filepath.Join(r.Verif, "KNOWN_FINDINGS"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID key=<key> :: <what fails>
		rest, ok := strings.CutPrefix(l, "known: property="+r.Prop+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		r.known[key] = what
	}
}

// Exec runs one check to its end and returns the exit code.
func Exec(r *Run, f func(*Run)) (code int) {
	r.Start = time.Now()
	r.Extra = map[string]any{}
	r.Exhaustive = true
	r.loadKnown()
	tmp, err := os.MkdirTemp("", "gwv-"+r.Prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ = filepath.EvalSymlinks(tmp)
	r.Tmp = tmp
	if os.Getenv("GWV_KEEP") == "" {
		defer os.RemoveAll(tmp)
	}
	f(r)
	return r.finish()
}

func (r *Run) finish() int {
	ev := filepath.Join(r.Verif, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	cov := map[string]any{
		"states": r.States, "transitions": r.Transitions, "traces_validated_against_impl": r.Validated,
		"exhaustive": r.Exhaustive, "samples": r.Samples,
	}
	if r.Samples == nil {
		cov["samples"] = []any{}
	}
	if r.Execs > 0 {
		cov["evaluations"] = r.Execs
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	var known []string
	for k := range r.seenKnown {
		known = append(known, k)
	}
	sort.Strings(known)
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	out := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.Start).Seconds(), "violations": len(r.viol)}
	if len(r.Assumptions) > 0 {
		out["assumptions"] = r.Assumptions
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if len(r.viol) == 0 {
		fmt.Printf("property=%s tier=%s held: states=%d transitions=%d exhaustive=%v wall=%.1fs\n", r.Prop, r.Tier, r.States, r.Transitions, r.Exhaustive, time.Since(r.Start).Seconds())
		return 0
	}
	sort.SliceStable(r.viol, func(i, j int) bool { return r.viol[i].Key < r.viol[j].Key })
	for i, v := range r.viol {
		if i == 12 && os.Getenv("GWV_ALL") == "" {
			fmt.Printf("... and %d more\n", len(r.viol)-i)
			break
		}
		p := filepath.Join(ev, "replay", fmt.Sprintf("%s-%d.json", r.Prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", r.Prop, p, v.Key, firstLines(v.Msg, 6))
	}
	return 1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n  ")
}

// Fatal ends the check with an internal error.
func (r *Run) Fatal(format string, a ...any) {
	panic(fmt.Sprintf("internal: "+format, a...))
}

// CmdResult is what a command did.
type CmdResult struct {
	Out, Err string
	Code     int
	TimedOut bool
}

// Cmd runs a command.
func Cmd(dir string, env []string, stdin string, timeout time.Duration, name string, args ...string) CmdResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.WaitDelay = 5 * time.Second
	c.Env = env
	if env == nil {
		c.Env = os.Environ()
	}
	// the tools resolve the working directory from PWD
	if dir != "" {
		c.Env = append(c.Env[:len(c.Env):len(c.Env)], "PWD="+dir)
	}
	if stdin != "" {
		c.Stdin = strings.NewReader(stdin)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	res := CmdResult{Out: o.String(), Err: e.String()}
	if ctx.Err() != nil {
		res.TimedOut = true
	}
	if err != nil {
		res.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			res.Code = x.ExitCode()
		} else {
			res.Err += err.Error()
		}
	}
	return res
}

// Must runs a command that has to succeed.
func (r *Run) Must(dir, name string, args ...string) string {
	res := Cmd(dir, nil, "", 10*time.Minute, name, args...)
	if res.Code != 0 {
		r.Fatal("%s %s: %s%s", name, strings.Join(args, " "), res.Out, res.Err)
	}
	return res.Out
}

// Write writes a file, making its directory.
func Write(path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

// BuildGowrap builds the command from /repo's working tree.
func (r *Run) BuildGowrap() string {
	bin := filepath.Join(r.Tmp, "gowrap")
	r.Must(filepath.Join(r.Verif, "mc"), "go", "build", "-buildvcs=false", "-o", bin, "github.com/hexdigest/gowrap/cmd/gowrap")
	return bin
}

// Parallel runs f(0..n-1) on all cores.
func Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	var pmu sync.Mutex
	var pan any
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if p := recover(); p != nil {
							pmu.Lock()
							if pan == nil {
								buf := make([]byte, 8192)
								pan = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
							}
							pmu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}
