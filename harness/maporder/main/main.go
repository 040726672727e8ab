// Runs generation in process under every explored order of map iterations.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/hexdigest/gowrap"
	"github.com/hexdigest/gowrap/loader"

	"vrt"
)

// job is one generation.
type job struct {
	Name, Dir, Out string
	Args           []string
	Depth          int // how many iterations may leave the sorted order at once
}

type report struct {
	Name       string
	Msg        string
	Plan       map[string]string
	A, B       string
	Runs       int
	Ranges     int
	Perms      int
	Err        string
	Incomplete bool
}

type outcome struct {
	text string
	ok   bool
	errs string
}

func run(j job, plan func(n int, keys []string) []int) (o outcome) {
	os.Remove(j.Out)
	vrt.Ranges = 0
	vrt.Plan = plan
	defer func() {
		vrt.Plan = nil
		if p := recover(); p != nil {
			o = outcome{ok: false, errs: fmt.Sprint("panic: ", p)}
		}
	}()
	if err := gowrap.NewGenerateCommand(loader.New(nil)).Run(j.Args, io.Discard); err != nil {
		return outcome{errs: err.Error()}
	}
	b, err := os.ReadFile(j.Out)
	if err != nil {
		return outcome{errs: err.Error()}
	}
	return outcome{string(b), true, ""}
}

// perms lists the orders tried for n keys: all for up to four, otherwise the reverse, every rotation and every swap.
func perms(n int) [][]int {
	var out [][]int
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		var rec func(p, left []int)
		rec = func(p, left []int) {
			if len(left) == 0 {
				out = append(out, append([]int{}, p...))
				return
			}
			for i := range left {
				rest := append(append([]int{}, left[:i]...), left[i+1:]...)
				rec(append(p, left[i]), rest)
			}
		}
		rec(nil, id)
		return out[1:]
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	out = append(out, rev)
	for k := 1; k < n; k++ {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + k) % n
		}
		out = append(out, p)
	}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			p := append([]int{}, id...)
			p[a], p[b] = p[b], p[a]
			out = append(out, p)
		}
	}
	return out
}

func explore(j job, deadline time.Time) (r report) {
	r.Name = j.Name
	if err := os.Chdir(j.Dir); err != nil {
		r.Err = err.Error()
		return
	}
	var sizes []int
	var keysOf [][]string
	trace := func(over map[int][]int) func(n int, keys []string) []int {
		sizes, keysOf = nil, nil
		return func(n int, keys []string) []int {
			sizes = append(sizes, len(keys))
			keysOf = append(keysOf, keys)
			return over[n]
		}
	}
	base := run(j, trace(nil))
	r.Runs++
	r.Ranges = len(sizes)
	r.Err = base.errs
	differs := func(o outcome, over map[int][]int, what string) bool {
		if o.ok == base.ok && o.text == base.text {
			return false
		}
		r.Plan = map[string]string{}
		for n, p := range over {
			var l []string
			if n < len(keysOf) && len(keysOf[n]) == len(p) {
				for _, i := range p {
					l = append(l, keysOf[n][i])
				}
			}
			r.Plan[fmt.Sprint("iteration ", n)] = strings.Join(l, ", ")
		}
		r.A, r.B = base.text+base.errs, o.text+o.errs
		r.Msg = what
		return true
	}
	// the same order rule for every iteration
	for _, rule := range []struct {
		name string
		f    func(n int) []int
	}{
		{"every iteration reversed", func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			return p
		}},
		{"every iteration rotated", func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + 1) % n
			}
			return p
		}},
		{"every iteration rotated back", func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + n - 1) % n
			}
			return p
		}},
	} {
		o := run(j, func(_ int, keys []string) []int { return rule.f(len(keys)) })
		r.Runs++
		if differs(o, nil, rule.name) {
			return
		}
	}
	// every set of up to Depth iterations in every explored order
	var rec func(over map[int][]int, from, left int) bool
	rec = func(over map[int][]int, from, left int) bool {
		o := run(j, trace(over))
		r.Runs++
		ks := keysOf
		sz := append([]int{}, sizes...)
		if differs(o, over, fmt.Sprintf("%d iterations in another order", len(over))) {
			return true
		}
		if left == 0 {
			return false
		}
		for i := from; i < len(sz); i++ {
			ps := perms(sz[i])
			if len(over) > 0 && len(ps) > 2 {
				ps = [][]int{ps[len(ps)-1], ps[0]}
			}
			for _, p := range ps {
				if time.Now().After(deadline) {
					r.Incomplete = true
					return false
				}
				r.Perms++
				next := map[int][]int{i: p}
				for k, v := range over {
					next[k] = v
				}
				if rec(next, i+1, left-1) {
					return true
				}
			}
		}
		_ = ks
		return false
	}
	rec(nil, 0, j.Depth)
	return
}

func main() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		panic(err)
	}
	var secs float64
	fmt.Sscan(os.Args[1], &secs)
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].Depth < jobs[b].Depth })
	enc := json.NewEncoder(os.Stdout)
	for _, j := range jobs {
		enc.Encode(explore(j, deadline))
	}
}
