package main

import (
	"errors"
	"fmt"
	"io"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

const interval = 4 * unit

type hev struct {
	kind string
	at   time.Duration
	fail bool
	n    int
	res  Res
	call int
}

type conf struct {
	m       Method
	count   int
	lats    []time.Duration
	ctx     time.Duration // 0 none, >0 cancelled at, <0 deadline at -ctx
	calls   int
	par     bool
	early   int
	preempt int
	wide    bool // every kind of error
}

type attemptErr struct {
	call, n int
	under   error
}

func (e *attemptErr) Unwrap() error { return e.under }

// Temporary makes it look like an error that will go away, or not.
func (e *attemptErr) Temporary() bool { return e.under == nil }

func (e *attemptErr) Error() string { return fmt.Sprintf("attempt %d of call %d failed", e.n, e.call) }

func body(c conf) func() {
	return func() {
		attempts := make([]int, max(1, c.calls))
		ctx := vctx.Background()
		switch {
		case c.ctx > 0:
			ctx = vctx.CancelAt(ctx, c.ctx)
		case c.ctx < 0:
			ctx, _ = vctx.WithTimeout(ctx, -c.ctx)
		}
		base := &Impl{0, func(e Ev) (int, error) {
			k := 0
			if c.calls > 1 {
				k = e.Args[0].(int) - 7
			}
			attempts[k]++
			n := attempts[k]
			l := c.lats[vrt.Choose(len(c.lats), "latency")]
			fail := vrt.Choose(2, "outcome") == 1
			vrt.Record(hev{kind: "start", at: vrt.NowD(), call: k})
			checkArgs(c.m, e, 7+k)
			if c.m.Ctx && !vctx.DerivedFrom(e.Ctx, ctx) {
				vrt.Fail("attempt %d received another context", n)
			}
			if l > 0 {
				vrt.Sleep(l)
			} else {
				vrt.Step("work")
			}
			vrt.Record(hev{kind: "end", at: vrt.NowD(), fail: fail, n: n, call: k})
			if fail {
				if c.wide {
					if u := vrt.Choose(len(kinds), "kind of error"); u > 0 {
						return 10*n + 100*k, &attemptErr{k, n, kinds[u]}
					}
				}
				return 10*n + 100*k, &attemptErr{k, n, nil}
			}
			return 10*n + 1 + 100*k, nil
		}}
		d := svc.NewSvcWithRetry(base, c.count, interval)
		for k := 0; k < max(1, c.calls); k++ {
			call := func() {
				r := c.m.Call(d, ctx, 7+k)
				vrt.Record(hev{kind: "ret", at: vrt.NowD(), res: r, call: k})
			}
			if c.par && k+1 < c.calls {
				vrt.GoNamed(fmt.Sprintf("caller%d", k), call)
			} else {
				call()
			}
		}
	}
}

var kinds = []error{nil, vctx.Canceled, vctx.DeadlineExceeded, io.EOF}

// bareBody makes one call whose first attempt fails with a well-known error value.
func bareBody(m Method, e error) func() {
	return func() {
		n := 0
		base := &Impl{0, func(Ev) (int, error) {
			n++
			if n == 1 {
				return 10, e
			}
			return 10 + n, nil
		}}
		r := m.Call(svc.NewSvcWithRetry(base, 1, interval), vctx.Background(), 7)
		if n != 2 || r.Err != nil {
			vrt.Fail("%s: after a first attempt failing with %q there were %d attempts in all, error %v", m.Name, e, n, r.Err)
		}
	}
}

// idleBody makes a call without retries, with intervals no ticker can have.
func idleBody(m Method) func() {
	return func() {
		count := []int{-1, 0}[vrt.Choose(2, "retries")]
		every := []time.Duration{0, -unit}[vrt.Choose(2, "interval")]
		fail := vrt.Choose(2, "first attempt fails") == 1
		n := 0
		base := &Impl{0, func(Ev) (int, error) {
			n++
			if fail {
				return 10, io.EOF
			}
			return 10 + n, nil
		}}
		r := m.Call(svc.NewSvcWithRetry(base, count, every), vctx.Background(), 7)
		if n != 1 || fail != (r.Err == io.EOF) {
			vrt.Fail("%s: %d retries every %v, the first attempt fails: %v: %d attempts, error %v", m.Name, count, every, fail, n, r.Err)
		}
	}
}

func check(c conf) func(o *vrt.Outcome) error {
	return func(o *vrt.Outcome) error {
		if o.StepLimit {
			return errors.New("the call does not terminate: step limit reached")
		}
		if len(o.Blocked) > 0 {
			return fmt.Errorf("blocked for ever: %v", o.Where)
		}
		for k := 0; k < max(1, c.calls); k++ {
			if err := checkCall(c, k, o); err != nil {
				return fmt.Errorf("call %d: %w", k, err)
			}
		}
		for _, t := range o.Timers {
			return fmt.Errorf("a timer outlives the call: %s", t)
		}
		return nil
	}
}

func checkCall(c conf, k int, o *vrt.Outcome) error {
	var starts, ends []hev
	var ret *hev
	for _, x := range o.Hist {
		h := x.(hev)
		if h.call != k {
			continue
		}
		switch h.kind {
		case "start":
			if len(starts) != len(ends) {
				return errors.New("an attempt started before the previous one ended")
			}
			starts = append(starts, h)
		case "end":
			ends = append(ends, h)
		case "ret":
			ret = &h
		}
	}
	if ret == nil || len(ends) == 0 {
		return errors.New("the call did not return")
	}
	if len(ends) != len(starts) {
		return errors.New("returned before the attempt ended")
	}
	limit := 1
	if c.m.Err && c.count > 0 {
		limit = 1 + c.count
	}
	n := len(ends)
	if n > limit {
		return fmt.Errorf("%d attempts with a retry count of %d", n, c.count)
	}
	ctxAt := c.ctx
	if ctxAt < 0 {
		ctxAt = -ctxAt
	}
	if !c.m.Ctx {
		ctxAt = 0
	}
	last := ends[n-1]
	f0 := ends[0].at
	timed := c.early == 0
	for i := 1; i < n; i++ {
		if !ends[i-1].fail {
			return fmt.Errorf("attempt %d was made although attempt %d succeeded", i+1, i)
		}
		s := starts[i].at
		if s < f0+time.Duration(i)*interval {
			return fmt.Errorf("retry %d at %v did not wait for its tick (first failure at %v)", i, s, f0)
		}
		if timed && s > ends[i-1].at+interval {
			return fmt.Errorf("retry %d waited longer than the interval", i)
		}
		if timed && ctxAt > 0 && s > ends[i-1].at && ctxAt < s {
			return fmt.Errorf("retry %d at %v although the context ended at %v", i, s, ctxAt)
		}
	}
	ended := false // the context ended
	if ctxAt > 0 && ret.at >= ctxAt {
		ended = true
	}
	if c.m.Err && last.fail && n < limit {
		if !ended {
			return fmt.Errorf("gave up after %d attempts of %d", n, limit)
		}
		want := ctxAt
		if last.at > want {
			want = last.at
		}
		if timed && ret.at != want {
			return fmt.Errorf("the context ended at %v, the call returned at %v", ctxAt, ret.at)
		}
	} else if timed && ret.at != last.at {
		return fmt.Errorf("the last attempt ended at %v, the call returned at %v", last.at, ret.at)
	}
	wantN := 10*last.n + 1 + 100*k
	if last.fail {
		wantN--
	}
	if c.m.HasN && ret.res.N != wantN {
		return fmt.Errorf("results %d are not those of the last attempt (%d)", ret.res.N, wantN)
	}
	if c.m.Err {
		if !last.fail && ret.res.Err != nil {
			return fmt.Errorf("error %v although the last attempt succeeded", ret.res.Err)
		}
		if last.fail {
			e, ok := ret.res.Err.(*attemptErr)
			if !ok || e.n != last.n || e.call != k {
				return fmt.Errorf("error %v is not the last attempt's", ret.res.Err)
			}
		}
	}
	return nil
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	add := func(name string, c conf) {
		if c.preempt == 0 {
			c.preempt = -1
		}
		ex := vrt.Explorer{Preempt: c.preempt, EarlyClock: c.early, Horizon: 60 * interval, MaxSteps: 400}
		out = append(out, Scenario{Name: name, Ex: ex, Body: body(c), Check: check(c)})
	}
	lats := []time.Duration{0, 2 * unit, interval, 6 * unit, 10 * unit}
	few := []time.Duration{0, 6 * unit}
	counts := []int{-1, 0, 1, 2, 3}
	if tier == "thorough" {
		counts = append(counts, 4, 5)
	}
	for _, m := range methods {
		ctxs := []time.Duration{0}
		if m.Ctx {
			ctxs = []time.Duration{0, 1, 2 * unit, interval, -6 * unit, 11 * unit}
		}
		for _, n := range counts {
			l := lats
			if n > 2 {
				l = few
			}
			for _, cx := range ctxs {
				add(fmt.Sprintf("%s retries=%d ctx=%v", m.Name, n, cx), conf{m: m, count: n, lats: l, ctx: cx})
			}
		}
		for _, cx := range ctxs {
			add(fmt.Sprintf("%s retries=2 ctx=%v slow-threads", m.Name, cx), conf{m: m, count: 2, lats: few, ctx: cx, early: 2})
		}
	}
	for _, m := range methods {
		if !m.Err {
			continue
		}
		bare := func(o *vrt.Outcome) error {
			if len(o.Fails) > 0 {
				return errors.New(o.Fails[0])
			}
			if !o.MainDone {
				return errors.New("the call did not return")
			}
			return nil
		}
		out = append(out, Scenario{Name: m.Name + " without a ticker", Ex: vrt.Explorer{Preempt: 0, Horizon: 60 * interval, MaxSteps: 400}, Body: idleBody(m), Check: bare})
		add(m.Name+" kinds of error", conf{m: m, count: 2, lats: few[:1], wide: true})
		for i, e := range append(kinds[1:], errors.New("")) {
			out = append(out, Scenario{Name: fmt.Sprintf("%s bare error %d", m.Name, i), Ex: vrt.Explorer{Preempt: 0, Horizon: 60 * interval, MaxSteps: 400}, Body: bareBody(m, e), Check: bare})
		}
	}
	for _, m := range []string{"CtxErr", "Err", "Plain"} {
		add(m+" two calls", conf{m: method(m), count: 1, lats: few, calls: 2})
		p := 2
		if tier == "thorough" {
			p = 4
		}
		add(m+" two concurrent calls", conf{m: method(m), count: 1, lats: []time.Duration{0}, calls: 2, par: true, preempt: p})
	}
	return out
}
