package main

import (
	"errors"
	"fmt"
	"reflect"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
	"vrt/vtime"
)

func main() { runMain(scenarios) }

type conf struct {
	m     Method
	other bool // two concurrent calls with different methods
	early int
}

type keyT string

// config gives each context method its own timeout.
func config(pick func(name string) time.Duration) svc.SvcWithTimeoutConfig {
	var c svc.SvcWithTimeoutConfig
	v := reflect.ValueOf(&c).Elem()
	for _, m := range methods {
		f := v.FieldByName(m.Name + "Timeout")
		if !f.IsValid() {
			if m.Ctx {
				vrt.Fail("no timeout setting for %s", m.Name)
			}
			continue
		}
		if !m.Ctx {
			vrt.Fail("timeout setting for %s, which takes no context", m.Name)
			continue
		}
		f.SetInt(int64(pick(m.Name)))
	}
	return c
}

var timeouts = []time.Duration{4 * unit, 0, -unit, 1, 9 * unit}

func body(c conf) func() {
	return func() {
		tm := timeouts[vrt.Choose(len(timeouts), "timeout")]
		i := 0
		cfg := config(func(name string) time.Duration {
			i++
			if name == c.m.Name {
				return tm
			}
			return time.Duration(100+i) * unit
		})
		// the caller's context
		root := vctx.Background()
		ctx := root
		callerDL := time.Duration(-1)
		cancelAt := time.Duration(-1)
		switch vrt.Choose(5, "caller context") {
		case 1:
			ctx, _ = vctx.WithTimeout(ctx, 2*unit)
			callerDL = 2 * unit
		case 2:
			ctx, _ = vctx.WithTimeout(ctx, 6*unit)
			callerDL = 6 * unit
		case 3:
			ctx = vctx.CancelAt(ctx, 3*unit)
			cancelAt = 3 * unit
		case 4:
			cc, cancel := vctx.WithCancel(ctx)
			cancel()
			ctx, cancelAt = cc, 0
		}
		ctx = vctx.WithValue(ctx, keyT("k"), "v")
		if vrt.Choose(2, "call at once or later") == 1 {
			vrt.Sleep(unit)
		}
		start := vrt.NowD()
		var seen vctx.Context
		inside, calls := false, 0
		pan := vrt.Choose(2, "panic") == 1
		lat := []time.Duration{0, 3 * unit, -1}[vrt.Choose(3, "work")]
		base := &Impl{0, func(e Ev) (int, error) {
			calls++
			inside = true
			defer func() { inside = false }()
			checkArgs(c.m, e, 7)
			seen = e.Ctx
			if c.m.Ctx {
				if e.Ctx == nil {
					vrt.Fail("no context passed")
					return 0, nil
				}
				if got := e.Ctx.Value(keyT("k")); got != "v" {
					vrt.Fail("the caller's values are not visible: %v", got)
				}
				dl, ok := e.Ctx.Deadline()
				want := callerDL
				if tm > 0 && (want < 0 || start+tm < want) {
					want = start + tm
				}
				if ok != (want >= 0) || ok && dl.Sub(vtime.Base) != want {
					vrt.Fail("%s with timeout %v called at %v with a caller deadline of %v: the implementation sees deadline %v (%v), want %v", c.m.Name, tm, start, callerDL, dl.Sub(vtime.Base), ok, want)
				}
				if tm <= 0 && e.Ctx != ctx {
					vrt.Fail("timeout %v: the implementation received another context", tm)
				}
				if !vctx.DerivedFrom(e.Ctx, ctx) {
					vrt.Fail("the context is not derived from the caller's")
				}
			}
			switch {
			case lat > 0:
				vrt.Sleep(lat)
			case lat < 0 && c.m.Ctx:
				if e.Ctx.Done() != nil && (callerDL >= 0 || cancelAt >= 0 || tm > 0) {
					e.Ctx.Done().Recv()
					end := max(cancelAt, -1)
					for _, x := range []time.Duration{callerDL, cancelAt} {
						if x >= 0 && (end < 0 || x < end) {
							end = x
						}
					}
					if tm > 0 && (end < 0 || start+tm < end) {
						end = start + tm
					}
					if c.early == 0 && vrt.NowD() != max(end, start) {
						vrt.Fail("the context ended at %v, want %v", vrt.NowD(), max(end, start))
					}
					if e.Ctx.Err() == nil {
						vrt.Fail("the context has no error")
					}
				}
			}
			if tm > 0 && c.m.Ctx && vctx.Released(e.Ctx) && vrt.NowD() < start+tm && !vctx.Released(ctx) {
				vrt.Fail("the context was released before the call returned")
			}
			if pan {
				panic("impl panics")
			}
			return 77, errTest
		}}
		d := svc.NewSvcWithTimeout(base, cfg)
		var r Res
		var got any
		func() {
			defer func() { got = recover() }()
			r = c.m.Call(d, ctx, 7)
		}()
		vrt.Record(fmt.Sprint(tm, callerDL, cancelAt, start, r))
		if calls != 1 || inside {
			vrt.Fail("the implementation was called %d times", calls)
		}
		if pan != (got != nil) || got != nil && got != "impl panics" {
			vrt.Fail("panic not propagated unchanged: %v", got)
		}
		if !pan {
			if c.m.HasN && r.N != 77 || c.m.Err && r.Err != errTest {
				vrt.Fail("results changed: %v", r)
			}
		}
		if seen != nil && c.m.Ctx && tm > 0 && seen != ctx && !vctx.Released(seen) {
			vrt.Fail("the derived context was not released when the call returned")
		}
		if vctx.Live(ctx) > 0 {
			vrt.Fail("a derived context is still attached to the caller's")
		}
	}
}

var errTest = errors.New("test error")

func check(o *vrt.Outcome) error {
	if o.StepLimit {
		return errors.New("step limit")
	}
	if len(o.Blocked) > 0 {
		return fmt.Errorf("blocked: %v", o.Where)
	}
	return nil
}

// two concurrent calls of different methods see their own deadlines
func twoBody(a, b Method) func() {
	return func() {
		ms := []Method{a, b}
		tms := []time.Duration{5 * unit, 3 * unit}
		cfg := config(func(name string) time.Duration {
			for i, m := range ms {
				if m.Name == name {
					return tms[i]
				}
			}
			return 0
		})
		var seen [2]vctx.Context
		base := &Impl{0, func(e Ev) (int, error) {
			i := 0
			if e.Method == b.Name {
				i = 1
			}
			seen[i] = e.Ctx
			vrt.Yield("work")
			if dl, ok := e.Ctx.Deadline(); !ok || dl.Sub(vtime.Base) != tms[i] {
				vrt.Fail("%s sees deadline %v", e.Method, dl.Sub(vtime.Base))
			}
			if vctx.PeekErr(e.Ctx) != nil {
				vrt.Fail("%s: its context was released while it runs", e.Method)
			}
			vrt.Yield("work")
			return i, nil
		}}
		d := svc.NewSvcWithTimeout(base, cfg)
		done := vrt.MakeChan[int](1)
		ctx, cancel := vctx.WithCancel(vctx.Background())
		defer cancel()
		vrt.GoNamed("caller", func() { a.Call(d, ctx, 7); done.Send(1) })
		b.Call(d, ctx, 8)
		done.Recv()
		for _, s := range seen {
			if s == nil || !vctx.Released(s) {
				vrt.Fail("context not released")
			}
		}
	}
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	for _, m := range methods {
		out = append(out, Scenario{Name: m.Name, Ex: vrt.Explorer{Preempt: -1, MaxSteps: 300}, Body: body(conf{m: m}), Check: check})
		out = append(out, Scenario{Name: m.Name + " slow threads", Ex: vrt.Explorer{Preempt: -1, MaxSteps: 300, EarlyClock: 1}, Body: body(conf{m: m, early: 1}), Check: check})
	}
	var cs []Method
	for _, m := range methods {
		if m.Ctx {
			cs = append(cs, m)
		}
	}
	for i := range cs {
		for j := range cs {
			if i != j {
				out = append(out, Scenario{Name: "two calls " + cs[i].Name + " " + cs[j].Name, Ex: vrt.Explorer{Preempt: -1, MaxSteps: 300}, Body: twoBody(cs[i], cs[j]), Check: check})
			}
		}
	}
	return out
}
