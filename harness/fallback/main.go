package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

const interval = 4 * unit

// implementation behaviours
type beh struct {
	lat  time.Duration // <0: hangs (forever, or until the context ends for a context method)
	fail bool
}

type hev struct {
	kind string // start, end, ret
	call int
	impl int
	at   time.Duration
	fail bool
	res  Res
}

func (h hev) String() string {
	return fmt.Sprintf("%s%d@%v fail=%v %v", h.kind, h.impl, h.at, h.fail, h.res)
}

type conf struct {
	m      Method
	n      int
	behs   []beh
	ctx    time.Duration // 0 none, >0 cancel at, <0 deadline at -ctx
	early  int
	ifHang bool // a hanging implementation ignores its context
	calls  int  // number of calls on the same decorator (default 1)
	par    bool // they are concurrent
	kinds  bool // every kind of error
}

type boom struct {
	s     string
	under error
}

func (b *boom) Error() string { return b.s }
func (b *boom) Unwrap() error { return b.under }

func body(c conf) func() {
	return func() {
		impls := make([]svc.Svc, c.n)
		for i := range impls {
			i := i
			impls[i] = &Impl{i, func(e Ev) (int, error) {
				k := 0
				if c.calls > 1 {
					k = e.Args[0].(int) - 7
				}
				b := c.behs[vrt.Choose(len(c.behs), fmt.Sprintf("behaviour of implementation %d", i))]
				start := vrt.NowD()
				vrt.Record(hev{kind: "start", call: k, impl: i, at: start})
				checkArgs(c.m, e, 7+k)
				switch {
				case b.lat < 0 && c.m.Ctx && !c.ifHang:
					e.Ctx.Done().Recv()
				case b.lat < 0:
					vrt.Op("hang", nil, func() bool { return false }, nil)
				case b.lat > 0:
					vrt.Sleep(b.lat)
				default:
					vrt.Step("work")
				}
				fail := b.fail || b.lat < 0
				vrt.Record(hev{kind: "end", call: k, impl: i, at: vrt.NowD(), fail: fail})
				if fail {
					e := &boom{fmt.Sprintf("boom%d.%d", i, k), nil}
					if c.kinds {
						e.under = []error{nil, vctx.Canceled, vctx.DeadlineExceeded, io.EOF}[vrt.Choose(4, "kind of error")]
					}
					return 900 + i + 10*k, e
				}
				return 100 + i + 10*k, nil
			}}
		}
		ctx := vctx.Background()
		switch {
		case c.ctx > 0:
			ctx = vctx.CancelAt(ctx, c.ctx)
		case c.ctx < 0:
			ctx, _ = vctx.WithTimeout(ctx, -c.ctx)
		}
		d := svc.NewSvcWithFallback(interval, impls...)
		for k := 0; k < max(1, c.calls); k++ {
			call := func() {
				vrt.Record(hev{kind: "call", call: k, at: vrt.NowD()})
				r := c.m.Call(d, ctx, 7+k)
				vrt.Record(hev{kind: "ret", call: k, at: vrt.NowD(), res: r})
			}
			if c.par && k+1 < c.calls {
				vrt.GoNamed(fmt.Sprintf("caller%d", k), call)
			} else {
				call()
			}
		}
	}
}

func check(c conf) func(o *vrt.Outcome) error {
	return func(o *vrt.Outcome) error {
		if o.StepLimit {
			return errors.New("the call does not terminate: step limit reached")
		}
		done := true
		for k := 0; k < max(1, c.calls); k++ {
			var hs []hev
			var t0 time.Duration
			for _, x := range o.Hist {
				h := x.(hev)
				if h.call != k {
					continue
				}
				if h.kind == "call" {
					t0 = h.at
				}
				h.at -= t0
				hs = append(hs, h)
			}
			if len(hs) == 0 {
				continue
			}
			ret, err := checkCall(c, k, t0, o.Now-t0, hs)
			if err != nil {
				return fmt.Errorf("call %d: %w", k, err)
			}
			done = done && ret
		}
		if !done {
			return nil
		}
		// nothing may be left behind except implementations that never return
		hung := 0
		for _, w := range o.Where {
			if strings.HasSuffix(w, " in hang") {
				hung++
			}
		}
		if len(o.Blocked) > hung {
			return fmt.Errorf("left running after the call returned: %s", strings.Join(o.Where, "; "))
		}
		for _, t := range o.Timers {
			if strings.Contains(t, "tick") {
				return fmt.Errorf("ticker not stopped: %s", t)
			}
		}
		return nil
	}
}

func checkCall(c conf, call int, t0, now time.Duration, hist []hev) (returned bool, err error) {
	return func() (bool, error) {
		starts := map[int]hev{}
		ends := map[int]hev{}
		var order []int
		var ret *hev
		for _, h := range hist {
			switch h.kind {
			case "start":
				if _, dup := starts[h.impl]; dup {
					return false, fmt.Errorf("implementation %d was called twice", h.impl)
				}
				starts[h.impl] = h
				order = append(order, h.impl)
			case "end":
				ends[h.impl] = h
			case "ret":
				ret = &h
			}
		}
		timed := c.early == 0
		// order of starts: a later implementation never starts at an earlier instant
		for i := range order {
			if _, ok := starts[i]; !ok {
				return false, fmt.Errorf("implementations started out of order: %v", order)
			}
			if i > 0 && starts[i].at < starts[i-1].at {
				return false, fmt.Errorf("implementation %d started before implementation %d", i, i-1)
			}
		}
		var fails []hev
		var wins []hev
		for _, e := range ends {
			if e.fail && c.m.Err {
				fails = append(fails, e)
			} else {
				wins = append(wins, e)
			}
		}
		sort.Slice(wins, func(i, j int) bool { return wins[i].at < wins[j].at })
		ctxAt := c.ctx
		if ctxAt < 0 {
			ctxAt = -ctxAt
		}
		if !c.m.Ctx {
			ctxAt = 0
		}
		if ctxAt > 0 {
			// the context may have ended before this call began
			ctxAt -= t0
			if ctxAt <= 0 {
				ctxAt = -1
			}
		}
		ctxEnds := ctxAt != 0
		if ctxAt < 0 {
			ctxAt = 0
		}
		for i := 1; i < len(order); i++ {
			s := starts[i].at
			n := 1 + int(s/interval)
			for _, f := range fails {
				if f.at <= s {
					n++
				}
			}
			if i+1 > n {
				return false, fmt.Errorf("implementation %d started at %v although nothing failed and the interval had not elapsed", i, s)
			}
		}
		end := now
		if ret != nil {
			end = ret.at
		}
		if timed {
			last := starts[len(order)-1]
			if len(order) == 0 {
				return false, errors.New("no implementation was called")
			}
			for i := 0; i+1 < len(order); i++ {
				if g := starts[i+1].at - starts[i].at; g > interval {
					return false, fmt.Errorf("implementation %d started only %v after implementation %d", i+1, g, i)
				}
			}
			for i := range order {
				e, ok := ends[i]
				if ok && e.fail && c.m.Err && i+1 < c.n && e.at < end {
					if n, ok := starts[i+1]; !ok || n.at > e.at {
						return false, fmt.Errorf("implementation %d failed at %v and the next one was not started then", i, e.at)
					}
				}
			}
			if len(order) < c.n && (ret == nil || end-last.at > interval) {
				return false, fmt.Errorf("only %d of %d implementations were started by %v", len(order), c.n, end)
			}
		}
		allFailed := len(fails) == c.n
		if ret == nil {
			if len(wins) > 0 {
				return false, fmt.Errorf("the call hangs although implementation %d succeeded at %v", wins[0].impl, wins[0].at)
			}
			if allFailed {
				return false, errors.New("the call hangs although every implementation has failed")
			}
			if ctxEnds && now >= ctxAt {
				return false, errors.New("the call hangs although its context ended")
			}
			return false, nil
		}
		r := ret.res
		isCtxErr := r.Err != nil && c.ctx != 0 && (errors.Is(r.Err, vctx.Canceled) || errors.Is(r.Err, vctx.DeadlineExceeded))
		switch {
		case c.m.Err && r.Err != nil && isCtxErr:
			if !ctxEnds || ret.at < ctxAt {
				return false, fmt.Errorf("context error %v without the context having ended", r.Err)
			}
			if c.ctx < 0 && !errors.Is(r.Err, vctx.DeadlineExceeded) || c.ctx > 0 && !errors.Is(r.Err, vctx.Canceled) {
				return false, fmt.Errorf("wrong context error %v", r.Err)
			}
			if timed && len(wins) > 0 && wins[0].at < ctxAt {
				return false, fmt.Errorf("context error although implementation %d succeeded before the context ended", wins[0].impl)
			}
			if timed && ret.at != ctxAt {
				return false, fmt.Errorf("context ended at %v, the call returned at %v", ctxAt, ret.at)
			}
		case c.m.Err && r.Err != nil:
			if !allFailed {
				return false, fmt.Errorf("failed with %q although not every implementation had failed", r.Err)
			}
			lastF := time.Duration(0)
			for _, f := range fails {
				if f.at > lastF {
					lastF = f.at
				}
				if !strings.Contains(r.Err.Error(), fmt.Sprintf("boom%d.%d", f.impl, call)) {
					return false, fmt.Errorf("error %q does not name the failure of implementation %d", r.Err, f.impl)
				}
			}
			if timed && ret.at != lastF {
				return false, fmt.Errorf("all failed at %v, the call returned at %v", lastF, ret.at)
			}
		case !c.m.Err && ctxEnds && ret.at >= ctxAt && (len(wins) == 0 || !timed || wins[0].at >= ctxAt) && (r.N == 0 || r.N == -1):
			// the context ended first and the method cannot report it
			if timed && ret.at != ctxAt {
				return false, fmt.Errorf("context ended at %v, the call returned at %v", ctxAt, ret.at)
			}
		default:
			if len(wins) == 0 {
				return false, errors.New("success reported although no implementation succeeded")
			}
			ok := !c.m.HasN
			okTime := false
			for _, w := range wins {
				val := 100 + w.impl + 10*call
				if w.fail {
					val = 900 + w.impl + 10*call
				}
				if timed && w.at > wins[0].at {
					continue
				}
				if !timed && w.at > ret.at {
					continue
				}
				if r.N == val {
					ok = true
				}
				if w.at == ret.at {
					okTime = true
				}
			}
			if !ok {
				return false, fmt.Errorf("returned %d, which is not the result of the first implementation to succeed (implementation %d at %v)", r.N, wins[0].impl, wins[0].at)
			}
			if timed && !okTime {
				return false, fmt.Errorf("first success at %v, the call returned at %v", wins[0].at, ret.at)
			}
		}
		return true, nil
	}()
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	add := func(name string, c conf) {
		ex := vrt.Explorer{Preempt: -1, EarlyClock: c.early, Horizon: 12 * interval, MaxSteps: 400}
		out = append(out, Scenario{Name: name, Ex: ex, Body: body(c), Check: check(c)})
	}
	small := []beh{{0, false}, {0, true}, {3 * unit, false}, {interval, true}, {6 * unit, false}, {-1, true}}
	tiny := []beh{{0, true}, {interval, false}, {-1, true}, {6 * unit, true}}
	two := []beh{{0, true}, {interval, false}, {-1, true}}
	for _, m := range []string{"CtxErr", "Err"} {
		for _, par := range []bool{false, true} {
			for _, cx := range []time.Duration{0, 2 * unit} {
				if cx > 0 && (m == "Err" || par) {
					continue
				}
				add(fmt.Sprintf("%s two calls par=%v ctx=%v", m, par, cx), conf{m: method(m), n: 2, behs: two, ctx: cx, calls: 2, par: par})
				if par {
					if tier != "thorough" {
						out[len(out)-1] = Scenario{}
						out = out[:len(out)-1]
						add(fmt.Sprintf("%s two calls par=%v ctx=%v", m, par, cx), conf{m: method(m), n: 2, behs: two[:2], ctx: cx, calls: 2, par: par})
					}
					out[len(out)-1].Ex.Preempt = 1
					if tier == "thorough" {
						out[len(out)-1].Ex.Preempt = 2
					}
				}
			}
		}
	}
	for _, m := range methods {
		if m.Err {
			add(m.Name+" n=2 kinds of error", conf{m: m, n: 2, behs: two[:2], kinds: true})
		}
	}
	for _, m := range methods {
		ctxs := []time.Duration{0}
		if m.Ctx {
			ctxs = []time.Duration{0, 2 * unit, -interval}
		}
		for _, cx := range ctxs {
			for _, hang := range []bool{false, true} {
				if hang && !m.Ctx {
					continue
				}
				for n := 1; n <= 2; n++ {
					add(fmt.Sprintf("%s n=%d ctx=%v hang=%v", m.Name, n, cx, hang), conf{m: m, n: n, behs: small, ctx: cx, ifHang: hang})
				}
			}
		}
		main := m.Name == "CtxErr" || m.Name == "Err" || m.Name == "Plain" || m.Name == "CtxNoErr"
		if main || tier == "thorough" {
			for _, cx := range ctxs {
				add(fmt.Sprintf("%s n=3 ctx=%v", m.Name, cx), conf{m: m, n: 3, behs: tiny, ctx: cx})
				add(fmt.Sprintf("%s n=2 ctx=%v slow-threads", m.Name, cx), conf{m: m, n: 2, behs: tiny, ctx: cx, early: 1})
			}
		}
		if tier == "thorough" {
			for _, cx := range ctxs {
				add(fmt.Sprintf("%s n=3 ctx=%v full", m.Name, cx), conf{m: m, n: 3, behs: small, ctx: cx})
				add(fmt.Sprintf("%s n=2 ctx=%v slow-threads full", m.Name, cx), conf{m: m, n: 2, behs: small, ctx: cx, early: 2})
			}
		}
	}
	return out
}
