package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

const openFor = 4 * unit

var errCounted = errors.New("counted")
var errIgnored = errors.New("ignored")
var errIgnored2 = errors.New("ignored too")

// spec is the reference circuit breaker.
type spec struct {
	max, count int
	open       bool
	until      time.Duration
}

// blocked: 0 passes, 1 blocked, 2 either (the exact instant at which the interval ends)
func (s *spec) blocked(now time.Duration) int {
	if s.open && now < s.until {
		return 1
	}
	if s.open && now == s.until {
		return 2
	}
	return 0
}

func (s *spec) outcome(counted bool, now time.Duration) {
	if !counted {
		s.count, s.open = 0, false
		return
	}
	s.count++
	if s.count >= s.max {
		s.open, s.until = true, now+openFor
	}
}

type outcome struct {
	name    string
	err     error
	counted bool
	pan     bool
}

func outcomes(ign int) []outcome {
	o := []outcome{{"ok", nil, false, false}, {"error", errCounted, true, false}, {"wrapped ignored", fmt.Errorf("w: %w", errIgnored), ign < 1, false}}
	if ign > 1 {
		o = append(o, outcome{"second ignored", errIgnored2, false, false})
	}
	return append(o, outcome{"panic", nil, false, true})
}

// wideOutcomes are counted errors of every kind.
func wideOutcomes(ign int) []outcome {
	o := outcomes(ign)
	for _, e := range []error{vctx.Canceled, vctx.DeadlineExceeded, io.EOF, errors.New(""), fmt.Errorf("w: %w", errCounted), errors.New("ignored")} {
		o = append(o, outcome{"error " + e.Error(), e, true, false})
	}
	return append(o, outcome{"joined ignored", errors.Join(io.EOF, errIgnored), ign < 1, false})
}

func ignore(n int) []error { return []error{errIgnored, errIgnored2}[:n] }

// sequential histories against the reference
func seqBody(max, ign, depth int, ms []Method, wide ...bool) func() {
	return func() {
		outs := outcomes(ign)
		if len(wide) > 0 {
			outs = wideOutcomes(ign)
		}
		var cur outcome
		var calls int
		var m Method
		base := &Impl{0, func(e Ev) (int, error) {
			calls++
			checkArgs(m, e, 7)
			if cur.pan {
				panic("base panics")
			}
			return 42, cur.err
		}}
		d := svc.NewSvcWithCircuitBreaker(base, max, openFor, ignore(ign)...)
		sp := spec{max: max}
		for i := 0; i < depth; i++ {
			op := vrt.Choose(len(outs)+3, "operation")
			switch {
			case op == len(outs):
				vrt.Sleep(3 * unit)
				continue
			case op == len(outs)+1:
				vrt.Sleep(openFor)
				continue
			case op == len(outs)+2:
				m = method("Plain")
				cur, calls = outs[0], 0
				r := m.Call(d, vctx.Background(), 7)
				if calls != 1 || r.N != 42 {
					vrt.Fail("a method without error was not passed through: %d calls, result %v", calls, r)
				}
				continue
			}
			m = ms[i%len(ms)]
			cur, calls = outs[op], 0
			var r Res
			pan := any(nil)
			func() {
				defer func() { pan = recover() }()
				r = m.Call(d, vctx.Background(), 7)
			}()
			b := sp.blocked(vrt.NowD())
			vrt.Record(fmt.Sprintf("%s@%v -> %v %v reached=%d", cur.name, vrt.NowD(), r, pan, calls))
			isOpen := r.Err != nil && strings.Contains(r.Err.Error(), "circuit is open")
			if calls > 1 {
				vrt.Fail("the wrapped method was called %d times", calls)
				return
			}
			if b == 1 && calls != 0 {
				vrt.Fail("step %d: the circuit should be open (until %v, now %v) and the call reached the implementation", i, sp.until, vrt.NowD())
				return
			}
			if b == 0 && calls != 1 {
				vrt.Fail("step %d: the circuit should be closed (count %d of %d, now %v) and the call was blocked", i, sp.count, max, vrt.NowD())
				return
			}
			if calls == 0 {
				if !isOpen || pan != nil {
					vrt.Fail("blocked call returned %v %v", r.Err, pan)
				}
				if m.HasN && r.N != 0 {
					vrt.Fail("blocked call returned results %d", r.N)
				}
				continue
			}
			if cur.pan {
				if pan != "base panics" {
					vrt.Fail("panic not propagated: %v", pan)
				}
				continue
			}
			if pan != nil {
				vrt.Fail("unexpected panic %v", pan)
				return
			}
			if r.Err != cur.err || (m.HasN && r.N != 42) {
				vrt.Fail("results changed: %v, wrapped method returned 42 and %v", r, cur.err)
			}
			sp.outcome(cur.counted, vrt.NowD())
		}
	}
}

func noHang(o *vrt.Outcome) error {
	if o.StepLimit {
		return errors.New("step limit")
	}
	if len(o.Blocked) > 0 {
		return fmt.Errorf("deadlock: %v", o.Where)
	}
	return nil
}

// concurrent histories: linearizability of checks and outcomes
type cev struct {
	kind  string // call, in, out, ret
	th, k int
	at    time.Duration
	o     outcome
	res   Res
	pan   any
}

func (e cev) String() string {
	return fmt.Sprintf("%s %d.%d@%v %s %v", e.kind, e.th, e.k, e.at, e.o.name, e.res)
}

type cconf struct {
	max, ign, threads, calls int
	lats                     []time.Duration
	gaps                     []time.Duration
	noPanic                  bool
	m                        Method
}

func conBody(c cconf) func() {
	return func() {
		outs := outcomes(c.ign)
		if c.noPanic {
			outs = outs[:2]
		}
		k := make([]int, c.threads)
		base := &Impl{0, func(e Ev) (int, error) {
			th := e.Args[0].(int) - 7
			vrt.Yield("enter")
			vrt.Record(cev{kind: "in", th: th, k: k[th], at: vrt.NowD()})
			o := outs[vrt.Choose(len(outs), "outcome")]
			if l := c.lats[vrt.Choose(len(c.lats), "latency")]; l > 0 {
				vrt.Sleep(l)
			}
			vrt.Yield("leave")
			vrt.Record(cev{kind: "out", th: th, k: k[th], at: vrt.NowD(), o: o})
			if o.pan {
				panic("base panics")
			}
			return th, o.err
		}}
		d := svc.NewSvcWithCircuitBreaker(base, c.max, openFor, ignore(c.ign)...)
		run := func(th int) {
			for i := 0; i < c.calls; i++ {
				if g := c.gaps[vrt.Choose(len(c.gaps), "gap")]; g > 0 {
					vrt.Sleep(g)
				}
				k[th] = i
				vrt.Yield("call")
				vrt.Record(cev{kind: "call", th: th, k: i, at: vrt.NowD()})
				e := cev{kind: "ret", th: th, k: i}
				func() {
					defer func() { e.pan = recover() }()
					e.res = c.m.Call(d, vctx.Background(), 7+th)
				}()
				vrt.Yield("return")
				e.at = vrt.NowD()
				vrt.Record(e)
			}
		}
		for t := 0; t < c.threads-1; t++ {
			vrt.GoNamed(fmt.Sprintf("caller%d", t), func() { run(t) })
		}
		run(c.threads - 1)
	}
}

type lin struct {
	lo, hi int // position interval in the history
	check  bool
	pass   bool
	at     time.Duration
	count  bool
}

func conCheck(c cconf) func(o *vrt.Outcome) error {
	return func(o *vrt.Outcome) error {
		if err := noHang(o); err != nil {
			return err
		}
		var ls []lin
		type key struct{ th, k int }
		call, in, out := map[key]int{}, map[key]int{}, map[key]int{}
		ev := make([]cev, len(o.Hist))
		for i, x := range o.Hist {
			e := x.(cev)
			ev[i] = e
			id := key{e.th, e.k}
			switch e.kind {
			case "call":
				call[id] = i
			case "in":
				if _, dup := in[id]; dup {
					return errors.New("the wrapped method was called twice")
				}
				in[id] = i
				ls = append(ls, lin{call[id], i, true, true, e.at, false})
			case "out":
				out[id] = i
			case "ret":
				j, reached := out[id]
				if !reached {
					if e.res.Err == nil || !strings.Contains(e.res.Err.Error(), "circuit is open") {
						return fmt.Errorf("call %v neither reached the implementation nor failed with the open-circuit error: %v", id, e.res.Err)
					}
					ls = append(ls, lin{call[id], i, true, false, ev[call[id]].at, false})
					continue
				}
				w := ev[j].o
				if w.pan {
					if e.pan != "base panics" {
						return fmt.Errorf("panic not propagated: %v", e.pan)
					}
					continue
				}
				if e.pan != nil {
					return fmt.Errorf("unexpected panic: %v", e.pan)
				}
				if e.res.Err != w.err || (c.m.HasN && e.res.N != e.th && !(c.m.Name == "Err" && e.res.N == e.th)) {
					return fmt.Errorf("results changed: %v, wrapped method returned %d and %v", e.res, e.th, w.err)
				}
				ls = append(ls, lin{j, i, false, false, ev[j].at, w.counted})
			}
		}
		if !linearize(ls, spec{max: c.max}) {
			return fmt.Errorf("no ordering of the checks and outcomes explains the history %v", o.Hist)
		}
		return nil
	}
}

func linearize(ls []lin, s spec) bool {
	if len(ls) == 0 {
		return true
	}
	first := ls[0].hi
	for _, l := range ls {
		if l.hi < first {
			first = l.hi
		}
	}
	for i, l := range ls {
		if l.lo > first {
			continue // something else must come before it
		}
		t := s
		if l.check {
			b := t.blocked(l.at)
			if b == 1 && l.pass || b == 0 && !l.pass {
				continue
			}
		} else {
			t.outcome(l.count, l.at)
		}
		rest := append(append([]lin(nil), ls[:i]...), ls[i+1:]...)
		if linearize(rest, t) {
			return true
		}
	}
	return false
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	var ms []Method
	for _, m := range methods {
		if m.Err {
			ms = append(ms, m)
		}
	}
	depth := 5
	if tier == "thorough" {
		depth = 6
	}
	for _, mx := range []int{1, 2, 3} {
		for ign := 0; ign <= 2; ign++ {
			// every sequence, on one method and with the methods taking turns
			for _, v := range []struct {
				n  string
				ms []Method
			}{{"CtxErr", []Method{method("CtxErr")}}, {"mixed", ms}} {
				d := depth
				if v.n == "mixed" {
					d = depth - 1
				}
				if mx == 3 {
					d++
				}
				out = append(out, Scenario{Name: fmt.Sprintf("sequences max=%d ignored=%d %s depth=%d", mx, ign, v.n, d),
					Ex: vrt.Explorer{Preempt: -1, MaxSteps: 500}, Body: seqBody(mx, ign, d, v.ms), Check: noHang})
			}
		}
	}
	for _, m := range ms {
		out = append(out, Scenario{Name: "sequences " + m.Name, Ex: vrt.Explorer{Preempt: -1, MaxSteps: 500}, Body: seqBody(2, 1, 4, []Method{m}), Check: noHang})
		for ign := 0; ign < 2; ign++ {
			out = append(out, Scenario{Name: fmt.Sprintf("kinds of error %s ignored=%d", m.Name, ign), Ex: vrt.Explorer{Preempt: -1, MaxSteps: 500}, Body: seqBody(2, ign, 3, []Method{m}, true), Check: noHang})
		}
	}
	con := func(name string, c cconf, p int) {
		out = append(out, Scenario{Name: name, Ex: vrt.Explorer{Preempt: p, MaxSteps: 500}, Body: conBody(c), Check: conCheck(c)})
	}
	z := []time.Duration{0}
	ce := method("CtxErr")
	for _, mx := range []int{1, 2} {
		con(fmt.Sprintf("2 callers 1 call max=%d", mx), cconf{mx, 1, 2, 1, []time.Duration{0, 5 * unit}, z, false, ce}, -1)
		con(fmt.Sprintf("2 callers 2 calls max=%d", mx), cconf{mx, 0, 2, 2, z, z, true, ce}, 2)
		con(fmt.Sprintf("2 callers 2 calls max=%d timed", mx), cconf{mx, 0, 2, 2, []time.Duration{0, 2 * unit}, []time.Duration{0, 3 * unit}, true, ce}, 0)
		con(fmt.Sprintf("3 callers 1 call max=%d", mx), cconf{mx, 0, 3, 1, z, z, true, ce}, 2)
	}
	con("Err 2 callers 1 call", cconf{1, 0, 2, 1, z, z, true, method("Err")}, -1)
	if tier == "thorough" {
		for _, mx := range []int{1, 2, 3} {
			con(fmt.Sprintf("2 callers 2 calls max=%d deep", mx), cconf{mx, 0, 2, 2, z, z, true, ce}, 3)
			con(fmt.Sprintf("2 callers 3 calls max=%d timed", mx), cconf{mx, 0, 2, 3, []time.Duration{0, 2 * unit}, []time.Duration{0, 3 * unit}, true, ce}, 0)
			con(fmt.Sprintf("2 callers 2 calls max=%d timed, preempted", mx), cconf{mx, 0, 2, 2, []time.Duration{0, 2 * unit}, []time.Duration{0, 3 * unit}, true, ce}, 1)
			con(fmt.Sprintf("3 callers 1 call max=%d timed", mx), cconf{mx, 1, 3, 1, []time.Duration{0, 5 * unit}, z, false, ce}, 1)
		}
	}
	return out
}
