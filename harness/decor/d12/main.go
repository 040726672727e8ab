package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"scr/svc"
	"scr/ty"
	"vrt"
)

func mkExtra(t string, tag int) (any, bool) {
	switch t {
	case "ty.V":
		return ty.V{ID: tag}, true
	case "*ty.PV", "ty.VI":
		return &ty.PV{ID: tag}, true
	case "ty.N":
		return ty.N{ID: tag}, true
	case "ty.L":
		return ty.L{tag, tag}, true
	}
	return nil, false
}

// how an argument behaves
const (
	good   = iota
	bad    // its validation fails
	absent // nil pointer or nil interface: nothing to validate, or a valid nil
	plain  // an interface holding something that cannot validate itself
	holds  // an interface{} holding a value that fails
	holdsG // an interface{} holding a value that passes
)

func behaviours(t string) []int {
	switch t {
	case "ty.V", "ty.L":
		return []int{good, bad}
	case "*ty.PV":
		return []int{good, bad, absent}
	case "ty.VI":
		return []int{good, bad, absent}
	case "interface{}":
		return []int{plain, holds, holdsG, absent}
	}
	return []int{plain}
}

var messages = []string{"is wrong", "100% %d %!s(bad)", ""}

type vErr struct{ id, msg int }

func (e *vErr) Error() string { return messages[e.msg] }

type state struct {
	fails  map[int]*vErr // by argument id
	order  []int
	called int
	args   []any
	shp    int
	res    []any
	pan    bool
}

var states map[int]*state

func validate(id int) error {
	s := states[vrt.TID()]
	s.order = append(s.order, id)
	vrt.Step("validate")
	if s.called > 0 {
		vrt.Fail("argument %d is validated after the implementation was called", id)
	}
	if e := s.fails[id]; e != nil {
		return e
	}
	return nil
}

func base(i int, ctx Ctx, args []any) []any {
	s := states[vrt.TID()]
	s.called++
	s.args, s.shp = args, i
	return s.res
}

func one(d Dec, dec svc.Svc, s *Shape, tag, msg int) {
	st := &state{fails: map[int]*vErr{}}
	states[vrt.TID()] = st
	var args []any
	var expect []int // validations in order, up to the first failure
	var first *vErr
	var desc []string
	for k, t := range s.Params {
		bs := behaviours(t)
		b := bs[vrt.Choose(len(bs), "argument")]
		id := tag + 10*k + 1
		desc = append(desc, fmt.Sprintf("%s:%d", t, b))
		validates := b == good || b == bad || b == holds || b == holdsG
		switch {
		case b == absent && t == "*ty.PV":
			args = append(args, (*ty.PV)(nil))
		case b == absent:
			args = append(args, nil)
		case b == plain && t == "interface{}":
			args = append(args, ty.N{ID: id})
		case b == holds || b == holdsG:
			args = append(args, ty.V{ID: id})
		default:
			v, ok := mkExtra(t, id)
			if !ok {
				v = mk(t, id)
			}
			args = append(args, v)
		}
		if b == bad || b == holds {
			st.fails[id] = &vErr{id, msg}
		}
		if validates && first == nil && s.Err {
			expect = append(expect, id)
			first = st.fails[id]
		}
	}
	e := []error{nil, errBase, context.Canceled, valErr(0)}[vrt.Choose(4, "base")]
	st.res = makeResults(s, 100+tag, e)
	var ctx Ctx
	if s.Ctx {
		ctx = newCtx(tag)
	}
	res, c := call(s, dec, ctx, args)
	what := fmt.Sprintf("%s/%s %s(%s)", d.Mode, d.ID, s.Name, strings.Join(desc, ", "))
	fail := func(f string, a ...any) { vrt.Fail("%s: %s", what, fmt.Sprintf(f, a...)) }
	if c != nil {
		fail("panic %v", c.V)
		return
	}
	if fmt.Sprint(st.order) != fmt.Sprint(expect) {
		fail("validated arguments %v, want %v", st.order, expect)
		return
	}
	if first == nil {
		if st.called != 1 || st.shp != index(s) {
			fail("all arguments are valid but the implementation was called %d times", st.called)
			return
		}
		if !sameAll(st.args, args) {
			fail("the implementation received other arguments")
			return
		}
		if !sameAll(res, st.res) {
			fail("returned %s, the implementation returned %s", show(res), show(st.res))
		}
		return
	}
	if st.called != 0 {
		fail("an argument is invalid but the implementation was called")
		return
	}
	err, _ := res[len(res)-1].(error)
	if err == nil {
		fail("an argument is invalid but no error was returned")
		return
	}
	switch d.Template {
	case "validate":
		if err != error(first) {
			fail("returned %v, want the validation error of argument %d", err, first.id)
		}
	case "twirp_validate":
		var te twirp.Error
		if !errors.As(err, &te) || te.Code() != twirp.InvalidArgument || te.Msg() != first.Error() {
			fail("returned %v, want twirp invalid argument %q", err, first.Error())
		}
	case "grpc_validate":
		st, ok := status.FromError(err)
		if !ok || st.Code() != codes.InvalidArgument || st.Message() != first.Error() {
			fail("returned %v, want gRPC InvalidArgument %q", err, first.Error())
		}
	}
	vrt.Record(fmt.Sprint(err))
}

func index(s *Shape) int {
	for i := range shapes {
		if &shapes[i] == s {
			return i
		}
	}
	panic("shape")
}

func start(d Dec) svc.Svc {
	d.Reset()
	ty.Hook = validate
	states = map[int]*state{}
	return d.New(&Base{base})
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	for di := range decs {
		d := decs[di]
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + s.Name, Ex: vrt.Explorer{Preempt: 0},
				Body: func() {
					dec := start(d)
					one(d, dec, s, 100, vrt.Choose(len(messages), "message"))
				}})
		}
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 1 && s.Params[0] != "ty.N" && s.Err && len(few) < 3 {
				few = append(few, s)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b := few[i], few[j]
				out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b.Name, Ex: vrt.Explorer{Preempt: -1},
					Body: func() {
						dec := start(d)
						vrt.GoNamed("caller 2", func() { one(d, dec, b, 500, 0) })
						one(d, dec, a, 100, 1)
					}})
			}
		}
	}
	return out
}
