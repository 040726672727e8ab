package lib

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"verifmc/instr"
)

// Harness describes a decorator checked on the controlled runtime.
type Harness struct {
	Template string // hosted template
	Dir      string // under /verif/harness
	Args     []string
	Real     bool // keep package context
	Bounds   string
}

type hresult struct {
	Name                                                         string
	Execs, Redundant, States, Transitions, StepLimited, MaxDepth int
	Exhaustive                                                   bool
	Msg                                                          string
	Choices                                                      []int
	Trace                                                        []string
	Sample                                                       []string
	Secs                                                         float64
	Outcomes                                                     int
}

// BuildHarness generates, instruments and builds; an empty path means the
// generated code itself is broken, which has been recorded as a violation.
func (r *Run) BuildHarness(h Harness) string {
	gw := r.BuildGowrap()
	src := filepath.Join(r.Tmp, "src")
	vh := filepath.Join(r.Verif, "harness")
	iface, err := os.ReadFile(filepath.Join(vh, "svc", "iface.go"))
	if err != nil {
		r.Fatal("%v", err)
	}
	Write(filepath.Join(src, "go.mod"), "module scr\n\ngo 1.24\n")
	Write(filepath.Join(src, "svc", "iface.go"), string(iface))
	args := append([]string{"gen", "-g", "-p", "./svc", "-i", "Svc", "-t", filepath.Join(r.Repo, "templates", h.Template), "-o", "svc/dec.go"}, h.Args...)
	res := Cmd(src, nil, "", time.Minute, gw, args...)
	if res.Code != 0 {
		r.Violate("gen "+h.Template, fmt.Sprintf("gowrap %s failed: %s", strings.Join(args, " "), res.Err), map[string]any{"args": args})
		return ""
	}
	out := filepath.Join(r.Tmp, "bld")
	err = instr.Package(filepath.Join(src, "svc"), filepath.Join(out, "svc"), nil, instr.Options{Context: !h.Real, Races: true})
	var ce *instr.CompileError
	if errors.As(err, &ce) {
		gen, _ := os.ReadFile(filepath.Join(src, "svc", "dec.go"))
		r.Violate("compile "+h.Template, "the generated decorator "+ce.Error(), map[string]any{"args": args, "generated": string(gen)})
		return ""
	}
	if err != nil {
		r.Fatal("instrument: %v", err)
	}
	Write(filepath.Join(out, "go.mod"), "module scr\n\ngo 1.24\n\nrequire vrt v0.0.0\n\nreplace vrt => "+filepath.Join(r.Verif, "vrt")+"\n")
	for _, d := range []string{"common", h.Dir} {
		fs, err := filepath.Glob(filepath.Join(vh, d, "*.go"))
		if err != nil || len(fs) == 0 {
			r.Fatal("no harness %s", d)
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				r.Fatal("%v", err)
			}
			Write(filepath.Join(out, d+"_"+filepath.Base(f)), string(b))
		}
	}
	bin := filepath.Join(r.Tmp, "harness-"+h.Template)
	b := Cmd(out, nil, "", 10*time.Minute, "go", "build", "-o", bin, ".")
	if b.Code != 0 {
		// the decorator type-checks, so what differs is the API the harness was written against
		r.Violate("api "+h.Template, "the decorator no longer offers the documented constructor or is not usable as the interface: "+b.Out+b.Err, map[string]any{"args": args})
		return ""
	}
	return bin
}

// RunHarness explores every scenario of a harness in parallel processes.
func (r *Run) RunHarness(h Harness) {
	if bin := r.BuildHarness(h); bin != "" {
		r.explore(bin, h.Template)
	}
}

func (r *Run) explore(bin, label string) {
	if r.ReplayFile != "" {
		var v struct {
			Replay struct {
				Scenario string
				Choices  []int
			}
		}
		b, err := os.ReadFile(r.ReplayFile)
		if err != nil {
			r.Fatal("%v", err)
		}
		json.Unmarshal(b, &v)
		c, _ := json.Marshal(v.Replay.Choices)
		res := Cmd("", nil, "", 5*time.Minute, bin, "-tier", r.Tier, "-only", v.Replay.Scenario, "-replay", string(c))
		fmt.Print(res.Out, res.Err)
		if res.Code != 0 {
			r.Violate("replay", "the recorded execution still fails", v.Replay)
		}
		return
	}
	n := runtime.NumCPU()
	budget := (r.Left() - 20*time.Second).Seconds()
	if budget < 5 {
		budget = 5
	}
	total := 0
	Parallel(n, func(i int) {
		res := Cmd("", nil, "", time.Duration(budget+120)*time.Second, bin, "-tier", r.Tier, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-budget", fmt.Sprint(budget))
		sc := bufio.NewScanner(strings.NewReader(res.Out))
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var x hresult
			if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
				r.Fatal("harness output %q: %v", sc.Text(), err)
			}
			if os.Getenv("GWV_VERBOSE") != "" {
				fmt.Printf("%8.2fs %8d execs %8d redundant %s\n", x.Secs, x.Execs, x.Redundant, x.Name)
			}
			r.Count(x.States, x.Transitions, 0)
			r.Validate(x.Execs)
			r.mu.Lock()
			total++
			d, _ := r.Extra["max_depth"].(int)
			if x.MaxDepth > d {
				r.Extra["max_depth"] = x.MaxDepth
			}
			r.Distinct += x.Outcomes
			r.mu.Unlock()
			r.Add("pruned_redundant_executions", x.Redundant)
			r.Add("distinct_histories", x.Outcomes)
			if x.Msg != "" {
				r.Violate(label+": "+x.Name, x.Msg+"\nschedule:\n"+strings.Join(x.Trace, "\n"),
					map[string]any{"scenario": x.Name, "choices": x.Choices, "trace": x.Trace, "how": "check.sh " + r.Prop + " " + r.Tier + " --replay <this file>"})
			} else if !x.Exhaustive {
				r.NotExhaustive("time budget reached in scenario " + x.Name)
			}
			if len(x.Sample) > 0 {
				if len(x.Sample) > 60 {
					x.Sample = append(x.Sample[:60], "...")
				}
				r.Sample(map[string]any{"scenario": x.Name, "executions": x.Execs, "first_execution": x.Sample})
			}
		}
		if res.Code != 0 {
			if strings.Contains(res.Err, "replay diverged") || strings.Contains(res.Err, "did not reproduce") {
				r.Violate(label+": nondeterminism", "the decorator behaves differently under the same schedule: "+firstLines(res.Err, 5), nil)
				return
			}
			r.Fatal("harness %s shard %d: %s", label, i, res.Err)
		}
	})
	r.Add("scenarios", total)
}
