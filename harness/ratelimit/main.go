package main

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

type cev struct {
	kind string // arrive, start, ret
	th   int
	at   time.Duration
	dl   time.Duration // when its context ends (-1 never)
	res  Res
}

func (e cev) String() string {
	return fmt.Sprintf("%s %d@%v(ctx %v) %v", e.kind, e.th, e.at, e.dl, e.res)
}

type conf struct {
	burst   int
	rps     float64
	callers int
	arrive  []time.Duration
	ctxs    []time.Duration // life of the caller's context, 0: for ever
	lat     []time.Duration // how long the implementation takes
	m       []Method
	early   int
	horizon time.Duration
	preempt int
}

func period(rps float64) time.Duration { return time.Duration(float64(time.Second) / rps) }

func body(c conf) func() {
	return func() {
		base := &Impl{0, func(e Ev) (int, error) {
			th := e.Args[0].(int) - 7
			vrt.Record(cev{kind: "start", th: th, at: vrt.NowD()})
			checkArgs(c.m[th%len(c.m)], e, 7+th)
			if l := c.lat[vrt.Choose(len(c.lat), "latency")]; l > 0 {
				vrt.Sleep(l)
			}
			return 50 + th, nil
		}}
		d := svc.NewSvcWithRateLimit(base, c.burst, c.rps)
		run := func(th int) {
			if a := c.arrive[vrt.Choose(len(c.arrive), "arrival")]; a > 0 {
				vrt.Sleep(a)
			}
			m := c.m[th%len(c.m)]
			ctx := vctx.Background()
			dl := time.Duration(-1)
			if m.Ctx {
				if l := c.ctxs[vrt.Choose(len(c.ctxs), "context")]; l > 0 {
					ctx = vctx.CancelAt(ctx, l)
					dl = vrt.NowD() + l
				} else if l < 0 {
					// already cancelled
					cc, cancel := vctx.WithCancel(ctx)
					cancel()
					ctx, dl = cc, vrt.NowD()
				}
			}
			vrt.Record(cev{kind: "arrive", th: th, at: vrt.NowD(), dl: dl})
			r := m.Call(d, ctx, 7+th)
			vrt.Record(cev{kind: "ret", th: th, at: vrt.NowD(), res: r})
		}
		for t := 0; t < c.callers; t++ {
			vrt.GoNamed(fmt.Sprintf("caller%d", t), func() { run(t) })
		}
	}
}

func check(c conf) func(o *vrt.Outcome) error {
	return func(o *vrt.Outcome) error {
		if o.StepLimit {
			return errors.New("step limit")
		}
		p := period(c.rps)
		type call struct {
			arrive, start, ret, dl time.Duration
			res                    Res
		}
		calls := map[int]*call{}
		var starts, times []time.Duration
		for _, x := range o.Hist {
			e := x.(cev)
			switch e.kind {
			case "arrive":
				calls[e.th] = &call{arrive: e.at, start: -1, ret: -1, dl: e.dl}
				times = append(times, e.at)
			case "start":
				if calls[e.th].start >= 0 {
					return fmt.Errorf("call %d reached the implementation twice", e.th)
				}
				calls[e.th].start = e.at
				starts = append(starts, e.at)
			case "ret":
				calls[e.th].ret, calls[e.th].res = e.at, e.res
			}
		}
		sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
		for i, s := range starts {
			if i+1 > c.burst+int(s/p) {
				return fmt.Errorf("call number %d reached the implementation at %v with a burst of %d and a period of %v", i+1, s, c.burst, p)
			}
		}
		for th, k := range calls {
			m := c.m[th%len(c.m)]
			if k.ret < 0 {
				if c.early == 0 || k.start >= 0 {
					return fmt.Errorf("call %d (arrived %v) never returns", th, k.arrive)
				}
				continue
			}
			gives := m.Ctx && m.Err
			if k.start < 0 {
				if !gives {
					return fmt.Errorf("call %d never reached the implementation", th)
				}
				if k.dl < 0 || k.ret < k.dl {
					return fmt.Errorf("call %d gave up before its context ended", th)
				}
				if !errors.Is(k.res.Err, vctx.Canceled) {
					return fmt.Errorf("call %d gave up with %v", th, k.res.Err)
				}
				if c.early == 0 && k.ret > max(k.dl, k.arrive) {
					return fmt.Errorf("call %d gave up at %v, its context ended at %v", th, k.ret, k.dl)
				}
				continue
			}
			if k.res.Err != nil || m.HasN && k.res.N != 50+th {
				return fmt.Errorf("call %d: results changed: %v", th, k.res)
			}
			if c.early == 0 && gives && k.dl >= 0 && k.start > k.dl && k.start > k.arrive {
				return fmt.Errorf("call %d reached the implementation at %v although its context ended at %v", th, k.start, k.dl)
			}
		}
		if c.early > 0 {
			return nil
		}
		// lower bound: a token bucket of the given capacity would have released this many by now
		var ends []time.Duration
		for _, k := range calls {
			ends = append(ends, k.ret)
		}
		horizon := time.Duration(0)
		for _, e := range ends {
			if e > horizon {
				horizon = e
			}
		}
		for t := p; t <= horizon; t += p {
			times = append(times, t)
		}
		for _, k := range calls {
			if k.dl >= 0 {
				times = append(times, k.dl)
			}
		}
		sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
		tokens, served := c.burst, 0
		var prev time.Duration
		gone := map[int]bool{}
		var ids []int
		for th := range calls {
			ids = append(ids, th)
		}
		sort.Slice(ids, func(i, j int) bool {
			// whoever really was served first is served first here
			a, b := calls[ids[i]].start, calls[ids[j]].start
			if a < 0 {
				a = 1 << 60
			}
			if b < 0 {
				b = 1 << 60
			}
			return a < b || a == b && ids[i] < ids[j]
		})
		for i, t := range times {
			if i > 0 && t == prev {
				continue
			}
			n := int(t/p) - int(prev/p)
			for ; n > 0; n-- {
				// a tick serves a waiter or fills the bucket
				tokens++
				w := 0
				for _, th := range ids {
					if k := calls[th]; !gone[th] && k.arrive <= t {
						w++
					}
				}
				if tokens > c.burst && tokens > c.burst+w {
					tokens = c.burst + w
				}
			}
			prev = t
			for _, th := range ids {
				k := calls[th]
				if gone[th] || k.arrive > t {
					continue
				}
				m := c.m[th%len(c.m)]
				if m.Ctx && m.Err && k.dl >= 0 && k.dl <= t && k.start < 0 {
					gone[th] = true // it left, and may have left before the token came
					continue
				}
				if tokens > 0 {
					tokens--
					served++
					gone[th] = true
				}
			}
			if tokens > c.burst {
				tokens = c.burst
			}
			have := 0
			for _, s := range starts {
				if s <= t {
					have++
				}
			}
			if have < served {
				return fmt.Errorf("at %v only %d calls had been released, %d were due (burst %d, period %v): %v", t, have, served, c.burst, p, o.Hist)
			}
		}
		return nil
	}
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	add := func(name string, c conf) {
		if c.lat == nil {
			c.lat = []time.Duration{0}
		}
		if c.horizon == 0 {
			c.horizon = 12 * period(c.rps)
		}
		if c.preempt == 0 {
			c.preempt = -1
		}
		ex := vrt.Explorer{Preempt: c.preempt, EarlyClock: c.early, Horizon: c.horizon, MaxSteps: 400}
		out = append(out, Scenario{Name: name, Ex: ex, Body: body(c), Check: check(c)})
	}
	u := unit
	never := []time.Duration{0}
	for _, burst := range []int{0, 1, 2, 3} {
		for _, mn := range []string{"CtxErr", "CtxNoErr", "Err", "Plain"} {
			m := []Method{method(mn)}
			n := fmt.Sprintf("%s burst=%d", mn, burst)
			cx := never
			if m[0].Ctx {
				cx = []time.Duration{0, u / 2, -1}
			}
			add(n+" 1 caller", conf{burst: burst, rps: 1, callers: 1, arrive: []time.Duration{0, u / 2, u, 5 * u / 2, 5 * u}, ctxs: []time.Duration{0, u / 4, u, -1}, m: m})
			add(n+" 2 callers", conf{burst: burst, rps: 1, callers: 2, arrive: []time.Duration{0, u / 2, 7 * u / 2}, ctxs: cx, m: m})
			if mn == "CtxErr" || mn == "Plain" || tier == "thorough" {
				add(n+" 3 callers", conf{burst: burst, rps: 2, callers: 3, arrive: []time.Duration{0, 3 * u / 4}, ctxs: never, m: m, preempt: 2})
				add(n+" 3 late callers", conf{burst: burst, rps: 0.5, callers: 3, arrive: []time.Duration{9 * u}, ctxs: never, lat: []time.Duration{0, 3 * u}, m: m, preempt: 1})
			}
			add(n+" slow threads", conf{burst: burst, rps: 1, callers: 2, arrive: []time.Duration{0, 5 * u / 2}, ctxs: cx, m: m, early: 1, preempt: 1})
			if tier == "thorough" {
				add(n+" 4 callers", conf{burst: burst, rps: 1, callers: 4, arrive: []time.Duration{0, 3 * u / 2}, ctxs: never, m: m, preempt: 1})
				add(n+" 3 callers with contexts", conf{burst: burst, rps: 1, callers: 3, arrive: []time.Duration{0, u}, ctxs: cx, m: m, preempt: 1})
				add(n+" slower threads", conf{burst: burst, rps: 1, callers: 2, arrive: []time.Duration{0, 5 * u / 2}, ctxs: never, m: m, early: 2, preempt: 2})
			}
		}
		add(fmt.Sprintf("mixed methods burst=%d", burst), conf{burst: burst, rps: 1, callers: 3, arrive: []time.Duration{0, 3 * u / 2}, ctxs: []time.Duration{0, u / 2},
			m: []Method{method("CtxErr"), method("NoRes")}, preempt: 1})
	}
	return out
}
