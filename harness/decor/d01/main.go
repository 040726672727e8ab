package main

import (
	"fmt"

	"scr/svc"
	"vrt"
)

type hist struct {
	who  int
	kind string
	n    int
}

func mkExtra(t string, tag int) (any, bool) { return nil, false }

// multi: the template may call the implementation more than once (retry) or on another goroutine (fallback).
func multi(d Dec) bool { return d.Template == "retry" || d.Template == "fallback" }

const (
	oOK = iota
	oErr
	oPanic
	oNil
)

type plan struct {
	s       *Shape
	arity   int
	outcome int
	tag     int
}

type rec struct {
	args []any
	ctx  Ctx
	idx  int
	res  []any
}

var theCtxErr = "the context given to the implementation was already done during the call"

// one performs a call and checks it against what the implementation saw.
func one(d Dec, dec svc.Svc, b *scripted, p plan) {
	args := makeArgs(p.s, p.tag, p.arity)
	ctx := newCtx(p.tag)
	if !p.s.Ctx {
		ctx = nil
	}
	b.plans[vrt.TID()] = p
	b.calls[vrt.TID()] = nil
	res, c := call(p.s, dec, ctx, args)
	calls := b.calls[vrt.TID()]
	if d.Template == "fallback" {
		calls = b.all
		b.all = nil
	}
	what := fmt.Sprintf("%s/%s %s%s", d.Mode, d.ID, p.s.Name, show(args))
	if len(calls) == 0 {
		vrt.Fail("%s: the implementation was not called (results %s)", what, show(res))
		return
	}
	if len(calls) > 1 && !multi(d) {
		vrt.Fail("%s: the implementation was called %d times", what, len(calls))
		return
	}
	for _, r := range calls {
		if r.idx != index(p.s) {
			vrt.Fail("%s: %s was called on the implementation", what, shapes[r.idx].Name)
			return
		}
		if !sameAll(r.args, args) {
			vrt.Fail("%s: the implementation received %s", what, show(r.args))
			return
		}
		if p.s.Ctx {
			if r.ctx == nil {
				vrt.Fail("%s: the implementation received a nil context", what)
				return
			}
			if t := ctxTag(r.ctx); t != any(p.tag) {
				vrt.Fail("%s: the implementation received a context that is not derived from the caller's", what)
				return
			}
		}
	}
	last := calls[len(calls)-1]
	if p.outcome == oPanic {
		if c == nil {
			vrt.Fail("%s: a panic of the implementation did not reach the caller (results %s)", what, show(res))
		} else if c.V != any(panicValue) {
			vrt.Fail("%s: the caller saw panic %v instead of the implementation's", what, c.V)
		}
		return
	}
	if c != nil {
		vrt.Fail("%s: the decorator panicked: %v", what, c.V)
		return
	}
	if p.outcome == oErr && (d.Template == "fallback" || d.Template == "twirp_error") {
		// documented to replace the error; the other results are the implementation's (twirp_error)
		if res[len(res)-1] == nil {
			vrt.Fail("%s: the error was dropped", what)
		}
		if d.Template == "twirp_error" && !sameAll(res[:len(res)-1], last.res[:len(last.res)-1]) {
			vrt.Fail("%s: returned %s, the implementation returned %s", what, show(res), show(last.res))
		}
		return
	}
	if !sameAll(res, last.res) {
		vrt.Fail("%s: returned %s, the implementation returned %s", what, show(res), show(last.res))
	}
}

func index(s *Shape) int {
	for i := range shapes {
		if &shapes[i] == s {
			return i
		}
	}
	panic("shape")
}

var panicValue = "base panicked"

type scripted struct {
	plans map[int]plan
	calls map[int][]rec
	all   []rec
	yield bool
	tmpl  string
}

func (b *scripted) do(i int, ctx Ctx, args []any) []any {
	p := b.plans[vrt.TID()]
	if b.tmpl == "fallback" {
		p = b.plans[0]
	}
	r := rec{args: args, ctx: ctx, idx: i}
	if ctx != nil {
		if ctxErr(ctx) != nil {
			vrt.Fail("%s: %s", shapes[i].Name, theCtxErr)
		}
	}
	var e error
	if p.outcome == oErr {
		e = anErr(!b.yield && p.tag == 7)
	}
	if i < len(shapes) && p.outcome != oPanic {
		if p.outcome == oNil {
			r.res = make([]any, len(shapes[i].Results))
			for k, t := range shapes[i].Results {
				r.res[k] = zero(t)
			}
			if shapes[i].Err {
				r.res = append(r.res, nil)
			}
		} else {
			r.res = makeResults(&shapes[i], 100+p.tag, e)
		}
	}
	id := vrt.TID()
	b.calls[id] = append(b.calls[id], r)
	b.all = append(b.all, r)
	if b.yield {
		vrt.Yield("in the implementation")
	}
	if p.outcome == oPanic {
		panic(panicValue)
	}
	vrt.Record(hist{id, "ret", i})
	return r.res
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	for di := range decs {
		d := decs[di]
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{
				Name: d.Mode + "/" + d.ID + "/" + s.Name,
				Ex:   vrt.Explorer{Preempt: 0, Horizon: 30e9},
				Body: func() {
					setup(d)
					b := &scripted{plans: map[int]plan{}, calls: map[int][]rec{}, tmpl: d.Template}
					dec := d.New(&Base{b.do})
					n := 1
					if len(s.Params)+len(s.Results) <= 2 {
						n = 2
					}
					for k := 0; k < n; k++ {
						a := arities(s)
						o := []int{oOK, oNil}
						if s.Err {
							o = append(o, oErr)
						}
						if d.Template != "fallback" {
							o = append(o, oPanic)
						}
						p := plan{s, a[vrt.Choose(len(a), "arity")], o[vrt.Choose(len(o), "outcome")], 7 + 20*k}
						one(d, dec, b, p)
					}
				},
			})
		}
		if d.Template == "fallback" {
			continue // D02 explores its schedules
		}
		// two callers, every interleaving
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 2 && (len(s.Results) == 1 || s.Err) && len(few) < 4 {
				few = append(few, s)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b2 := few[i], few[j]
				out = append(out, Scenario{
					Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b2.Name,
					Ex:   vrt.Explorer{Preempt: 3, Horizon: 30e9},
					Body: func() {
						setup(d)
						b := &scripted{plans: map[int]plan{}, calls: map[int][]rec{}, yield: true, tmpl: d.Template}
						dec := d.New(&Base{b.do})
						run := func(s *Shape, tag int) {
							ar := 0
							if s.Variadic {
								ar = 1
							}
							o := []int{oOK, oPanic}
							if s.Err {
								o = append(o, oErr)
							}
							one(d, dec, b, plan{s, ar, o[vrt.Choose(len(o), "outcome")], tag})
						}
						vrt.GoNamed("caller 2", func() { run(b2, 40) })
						run(a, 7)
					},
				})
			}
		}
	}
	return out
}

func zero(t string) any {
	switch t {
	case "int":
		return 0
	case "string":
		return ""
	}
	return reflectZero(t)
}
