package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"verifmc/lib"
)

func init() {
	checks["G08"] = check{"model_checking", func(r *lib.Run) {
		h := filepath.Join(r.Tmp, "genharness")
		r.Must(filepath.Join(r.Verif, "mc"), "go", "build", "-buildvcs=false", "-o", h, "./cmd/genharness")
		w := filepath.Join(r.Tmp, "w")
		lib.Write(w+"/go.mod", "module scr\n\ngo 1.24\n")
		lib.Write(w+"/oth/o.go", "package oth\n\ntype T struct{}\n\ntype A interface{ Wrong() }\n")
		lib.Write(w+"/src/a.go", "package src\n\nimport (\n\tcx \"context\"\n\n\t\"scr/oth\"\n)\n\ntype A interface {\n\tB\n\tM(c cx.Context, o oth.T, l Loc) (*Loc, error)\n}\n\ntype Loc struct{}\n")
		lib.Write(w+"/src/b.go", "package src\n\nimport tm \"time\"\n\ntype B interface {\n\tN(tm.Duration, ...Loc) func(Loc) tm.Time\n}\n\ntype G[K comparable, V any] interface {\n\tGet(K) (V, Loc)\n\tPut(map[K]V)\n}\n")
		lib.Write(w+"/dst/d.go", "package dst\n\nvar Strings int\n")
		n := runtime.NumCPU()
		var mu sync.Mutex
		runs := 0
		lib.Parallel(n, func(i int) {
			args := []string{"-dir", w, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n)}
			if r.Thorough() {
				args = append(args, "-thorough")
			}
			res := lib.Cmd(r.Tmp, append(os.Environ(), "GOMAXPROCS=2"), "", r.Left(), h, args...)
			sc := bufio.NewScanner(strings.NewReader(res.Out))
			sc.Buffer(nil, 1<<24)
			done := false
			for sc.Scan() {
				var v struct {
					Key, Msg    string
					Runs, Steps int
				}
				json.Unmarshal(sc.Bytes(), &v)
				if v.Key != "" {
					r.Violate(v.Key, v.Msg, nil)
				}
				if v.Steps > 0 {
					done = true
					r.Count(v.Runs, v.Steps, 0)
					r.Validate(v.Runs)
					mu.Lock()
					runs += v.Runs
					mu.Unlock()
				}
			}
			if !done && res.TimedOut {
				r.NotExhaustive("time")
			} else if !done {
				if strings.Contains(res.Err, "panic:") || strings.Contains(res.Err, "fatal error:") {
					r.Violate("crash", firstN(res.Err, 3000), nil)
				} else if !r.Violated() {
					r.Fatal("harness: exit %d %s", res.Code, res.Err)
				}
			}
		})
		r.Set("histories", runs)
		r.Sample("new(path); new(instance); generate #0 into a writer taking 10 bytes; generate #0")
		r.Set("bounds", "every history of 3 steps (thorough 4) over 7 option sets and up to 3 live generators, each step making one, generating or generating into a failing writer; every way of making 2 (thorough 3) generators and then generating with each in every order (quick: 3 in order and reversed); 24 combinations of interface, output and prefix x 4 ways of naming the package and 4 aliases; failing writers at every 200th of the output")
	}}
}
