package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"scr/svc"
	"vrt"
)

func mkExtra(t string, tag int) (any, bool) { return nil, false }

const (
	oOK = iota
	oErr
	oPanic
)

var panicValue = "base panicked"

type plan struct {
	s       *Shape
	outcome int
	lat     time.Duration
	wide    bool
}

var plans map[int]plan
var reg *prometheus.Registry

func base(i int, ctx Ctx, args []any) []any {
	p := plans[vrt.TID()]
	if p.lat > 0 {
		vrt.Sleep(p.lat)
	}
	var e error
	if p.outcome == oErr {
		e = anErr(p.wide)
	}
	if p.outcome == oPanic {
		panic(panicValue)
	}
	return makeResults(&shapes[i], 100, e)
}

type obs struct {
	n   uint64
	sum float64
}

func want(w map[string]obs, inst string, p plan) {
	res := "ok"
	if p.outcome == oErr {
		res = "error"
	}
	k := fmt.Sprintf("instance_name=%s method=%s result=%s", inst, p.s.Name, res)
	w[k] = obs{w[k].n + 1, w[k].sum + p.lat.Seconds()}
}

// compare gathers every registered metric and compares it with the expected observations.
func compare(d Dec, w map[string]obs) {
	fams, err := reg.Gather()
	if err != nil {
		vrt.Fail("gather: %v", err)
		return
	}
	got := map[string]obs{}
	for _, f := range fams {
		if f.GetName() != d.Doc {
			vrt.Fail("%s/%s: metric %q is registered, want %q", d.Mode, d.ID, f.GetName(), d.Doc)
			return
		}
		for _, m := range f.Metric {
			var l []string
			for _, p := range m.Label {
				l = append(l, p.GetName()+"="+p.GetValue())
			}
			sort.Strings(l)
			if m.Summary == nil {
				vrt.Fail("%s/%s: not a summary", d.Mode, d.ID)
				return
			}
			got[strings.Join(l, " ")] = obs{m.Summary.GetSampleCount(), m.Summary.GetSampleSum()}
		}
	}
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range w {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, e := got[k], w[k]
		if g.n != e.n || g.sum-e.sum > 1e-6 || e.sum-g.sum > 1e-6 {
			vrt.Fail("%s/%s: {%s} has %d observations totalling %.3fs, want %d totalling %.3fs", d.Mode, d.ID, k, g.n, g.sum, e.n, e.sum)
			return
		}
	}
}

func one(d Dec, dec svc.Svc, p plan, tag int) {
	id := vrt.TID()
	plans[id] = p
	var ctx Ctx
	if p.s.Ctx {
		ctx = newCtx(tag)
	}
	a := 0
	if p.s.Variadic {
		a = 1
	}
	_, c := call(p.s, dec, ctx, makeArgs(p.s, tag, a))
	if (c != nil) != (p.outcome == oPanic) {
		vrt.Fail("%s/%s %s: panic of the implementation %v, seen by the caller %v", d.Mode, d.ID, p.s.Name, p.outcome == oPanic, c != nil)
	}
	vrt.Record(fmt.Sprint(p.s.Name, p.outcome, p.lat, vrt.NowD()))
}

var instance string

func start(d Dec, insts ...string) []svc.Svc {
	reg = prometheus.NewRegistry()
	prometheus.DefaultRegisterer, prometheus.DefaultGatherer = reg, reg
	d.Reset()
	plans = map[int]plan{}
	var out []svc.Svc
	for _, i := range insts {
		instance = i
		out = append(out, d.New(&Base{base}))
	}
	return out
}

var lats = []time.Duration{0, 1500 * time.Millisecond}

func outcomes(s *Shape) []int {
	if s.Err {
		return []int{oOK, oErr, oPanic}
	}
	return []int{oOK, oPanic}
}

func pick(s *Shape) plan {
	o := outcomes(s)
	return plan{s, o[vrt.Choose(len(o), "outcome")], lats[vrt.Choose(len(lats), "latency")], false}
}

func scenarios(tier string) []Scenario {
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	var out []Scenario
	for di := range decs {
		d := decs[di]
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + s.Name, Ex: vrt.Explorer{Preempt: 0},
				Body: func() {
					ds := start(d, "i1", "i 2")
					w := map[string]obs{}
					for k := 0; k < 2; k++ {
						p := pick(s)
						p.wide = k == 0
						one(d, ds[k], p, 7)
						want(w, []string{"i1", "i 2"}[k], p)
						compare(d, w)
					}
				}})
		}
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 1 && len(few) < 4 && (s.Err || len(few) > 1) {
				few = append(few, s)
			}
		}
		// histories over two methods and two instances
		out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/histories", Ex: vrt.Explorer{Preempt: 0},
			Body: func() {
				ds := start(d, "", "b")
				w := map[string]obs{}
				for k := 0; k < depth; k++ {
					i := vrt.Choose(2, "instance")
					s := few[vrt.Choose(2, "method")]
					p := plan{s, outcomes(s)[vrt.Choose(2, "outcome")], time.Duration(k+1) * time.Second, false}
					one(d, ds[i], p, 7)
					want(w, []string{"", "b"}[i], p)
					compare(d, w)
				}
			}})
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b := few[i], few[j]
				out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b.Name, Ex: vrt.Explorer{Preempt: -1},
					Body: func() {
						ds := start(d, "x")
						pa, pb := pick(a), pick(b)
						var bd bool
						vrt.GoNamed("caller 2", func() { one(d, ds[0], pb, 40); bd = true })
						one(d, ds[0], pa, 7)
						vrt.Sleep(10 * time.Second)
						if !bd {
							vrt.Fail("the second call never returned")
							return
						}
						w := map[string]obs{}
						want(w, "x", pa)
						want(w, "x", pb)
						compare(d, w)
					}})
			}
		}
	}
	return out
}
