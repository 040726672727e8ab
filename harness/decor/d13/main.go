package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/twitchtv/twirp"

	"scr/svc"
	"vrt"
)

func mkExtra(t string, tag int) (any, bool) { return nil, false }

const (
	oNil = iota
	oPlain
	oTwirp
	oTwirpMeta
	oPanic
)

type state struct {
	res    []any
	pan    bool
	called int
	args   []any
	yield  bool
}

var states map[int]*state
var panicValue = "base panicked"

func base(i int, ctx Ctx, args []any) []any {
	s := states[vrt.TID()]
	s.called++
	s.args = args
	if s.yield {
		vrt.Yield("in the implementation")
	}
	if s.pan {
		panic(panicValue)
	}
	return s.res
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return ""
	}
	return string(b)
}

func one(d Dec, dec svc.Svc, s *Shape, arity, outcome, tag int, yield bool) {
	st := &state{pan: outcome == oPanic, yield: yield}
	states[vrt.TID()] = st
	var orig error
	switch outcome {
	case oPlain:
		orig = fmt.Errorf("plain %d%%", tag)
		if tag == 7 && !yield {
			if k := vrt.Choose(len(errAlphabet), "error"); k > 0 {
				orig = errAlphabet[k]
			}
		}
	case oTwirp:
		orig = twirp.NotFoundError("nothing here")
	case oTwirpMeta:
		orig = twirp.NewError(twirp.PermissionDenied, "no").WithMeta("k", "v").WithMeta("k2", "v2")
	}
	st.res = makeResults(s, 100+tag, orig)
	args := makeArgs(s, tag, arity)
	var ctx Ctx
	if s.Ctx {
		ctx = newCtx(tag)
	}
	res, c := call(s, dec, ctx, args)
	what := fmt.Sprintf("%s/%s %s%s outcome %d", d.Mode, d.ID, s.Name, show(args), outcome)
	fail := func(f string, a ...any) { vrt.Fail("%s: %s", what, fmt.Sprintf(f, a...)) }
	if st.called != 1 || !sameAll(st.args, args) {
		fail("the implementation was called %d times with %s", st.called, show(st.args))
		return
	}
	if outcome == oPanic {
		if c == nil || c.V != any(panicValue) {
			fail("panic lost")
		}
		return
	}
	if c != nil {
		fail("panic %v", c.V)
		return
	}
	if !s.Err || orig == nil || len(s.Params) == 0 {
		if !sameAll(res, st.res) {
			fail("returned %s, the implementation returned %s", show(res), show(st.res))
		}
		return
	}
	n := len(res) - 1
	if !sameAll(res[:n], st.res[:n]) {
		fail("results %s, the implementation's %s", show(res[:n]), show(st.res[:n]))
		return
	}
	err, _ := res[n].(error)
	te, ok := err.(twirp.Error)
	if !ok {
		fail("returned %v, not a twirp error", err)
		return
	}
	got := te.Meta("request")
	found := false
	for _, a := range args {
		found = found || got == jsonOf(a)
	}
	if !found {
		fail("request metadata %q is not the JSON of an argument", got)
		return
	}
	if o, ok := orig.(twirp.Error); ok {
		if te.Code() != o.Code() || te.Msg() != o.Msg() {
			fail("%s %q became %s %q", o.Code(), o.Msg(), te.Code(), te.Msg())
			return
		}
		for k, v := range o.MetaMap() {
			if te.Meta(k) != v {
				fail("metadata %s lost", k)
				return
			}
		}
		if o.Meta("request") != "" {
			fail("the implementation's own error was changed")
		}
	} else if te.Code() != twirp.Internal || te.Msg() != orig.Error() || !errors.Is(err, orig) {
		fail("returned %v, want an internal error wrapping the original", err)
	}
	vrt.Record(fmt.Sprint(te.Code(), got))
}

func outcomes(s *Shape) []int {
	if s.Err {
		return []int{oNil, oPlain, oTwirp, oTwirpMeta, oPanic}
	}
	return []int{oNil, oPanic}
}

func start(d Dec) svc.Svc {
	d.Reset()
	states = map[int]*state{}
	return d.New(&Base{base})
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	for di := range decs {
		d := decs[di]
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + s.Name, Ex: vrt.Explorer{Preempt: 0},
				Body: func() {
					dec := start(d)
					for k := 0; k < 2; k++ {
						o, a := outcomes(s), arities(s)
						one(d, dec, s, a[vrt.Choose(len(a), "arity")], o[vrt.Choose(len(o), "outcome")], 7+20*k, false)
					}
				}})
		}
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 1 && len(few) < 5 && s.Err {
				few = append(few, s)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b := few[i], few[j]
				out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b.Name, Ex: vrt.Explorer{Preempt: -1},
					Body: func() {
						dec := start(d)
						run := func(s *Shape, tag int) {
							one(d, dec, s, 1, outcomes(s)[vrt.Choose(len(outcomes(s)), "outcome")], tag, true)
						}
						vrt.GoNamed("caller 2", func() { run(b, 40) })
						run(a, 7)
					}})
			}
		}
	}
	return out
}
