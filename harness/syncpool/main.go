package main

import (
	"errors"
	"fmt"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

type conf struct {
	impls, callers, calls int
	lats                  []time.Duration
	arrive                []time.Duration
	m                     []Method
	preempt               int
	noPanic               bool
}

type span struct {
	impl                   int
	arrive, start, end, rt time.Duration
}

func body(c conf) func() {
	return func() {
		busy := make([]int, c.impls)
		tag := 0
		cur := map[int]*span{}
		panics := map[int]bool{}
		impls := make([]svc.Svc, c.impls)
		for i := range impls {
			impls[i] = &Impl{i, func(e Ev) (int, error) {
				vrt.Yield("enter")
				busy[i]++
				if busy[i] > 1 {
					vrt.Fail("implementation %d executes %d calls at once", i, busy[i])
				}
				var s *span
				var th int
				for _, m := range c.m {
					if m.Name == e.Method {
						for t := range cur {
							if fmt.Sprint(m.Args(t)) == fmt.Sprint(e.Args) || len(m.Args(t)) == 0 {
								s, th = cur[t], t
							}
						}
					}
				}
				if s == nil {
					vrt.Fail("%s called with arguments of no caller: %v", e.Method, e.Args)
					return 0, nil
				}
				if s.start >= 0 && len(e.Args) > 0 {
					vrt.Fail("a call was served twice")
				}
				s.impl, s.start = i, vrt.NowD()
				if l := c.lats[vrt.Choose(len(c.lats), "latency")]; l > 0 {
					vrt.Sleep(l)
				}
				pan := !c.noPanic && vrt.Choose(2, "panic") == 1
				vrt.Yield("leave")
				busy[i]--
				s.end = vrt.NowD()
				if pan {
					panics[th] = true
					panic("impl panics")
				}
				return 300 + th, nil
			}}
		}
		d := svc.NewSvcPool(impls...)
		one := func(m Method, th int) {
			s := &span{impl: -1, arrive: vrt.NowD(), start: -1, end: -1}
			cur[th] = s
			panics[th] = false
			var r Res
			var pan any
			func() {
				defer func() { pan = recover() }()
				r = m.Call(d, vctx.Background(), th)
			}()
			s.rt = vrt.NowD()
			delete(cur, th)
			vrt.Record(*s)
			if panics[th] != (pan != nil) || pan != nil && pan != "impl panics" {
				vrt.Fail("panic not propagated unchanged: implementation panicked %v, caller saw %v", panics[th], pan)
			}
			if pan == nil && m.HasN && r.N != 300+th {
				vrt.Fail("%s returned %d, the implementation returned %d", m.Name, r.N, 300+th)
			}
		}
		done := vrt.MakeChan[int](c.callers)
		for t := 0; t < c.callers; t++ {
			vrt.GoNamed(fmt.Sprintf("caller%d", t), func() {
				for k := 0; k < c.calls; k++ {
					if a := c.arrive[vrt.Choose(len(c.arrive), "arrival")]; a > 0 {
						vrt.Sleep(a)
					}
					tag++
					one(c.m[(t+k)%len(c.m)], 1000*tag)
				}
				done.Send(1)
			})
		}
		for t := 0; t < c.callers; t++ {
			done.Recv()
		}
		vrt.Record("all returned")
		// the pool still has every implementation: as many calls as there are
		// implementations run at once
		seen := map[int]bool{}
		gate := vrt.MakeChan[int]()
		in := vrt.MakeChan[int](c.impls)
		for i := range impls {
			impls[i].(*Impl).f = func(e Ev) (int, error) {
				if seen[i] {
					vrt.Fail("implementation %d handed out twice", i)
				}
				seen[i] = true
				in.Send(i)
				gate.Recv()
				return 0, nil
			}
		}
		end := vrt.MakeChan[int](c.impls)
		for i := 0; i < c.impls; i++ {
			vrt.GoNamed(fmt.Sprintf("probe%d", i), func() { c.m[0].Call(d, vctx.Background(), i); end.Send(1) })
			in.Recv()
		}
		gate.Close()
		for i := 0; i < c.impls; i++ {
			end.Recv()
		}
	}
}

func check(c conf) func(o *vrt.Outcome) error {
	return func(o *vrt.Outcome) error {
		if o.StepLimit {
			return errors.New("step limit")
		}
		if len(o.Blocked) > 0 {
			for _, x := range o.Hist {
				if x == "all returned" {
					return fmt.Errorf("the pool has lost an implementation: %v", o.Where)
				}
			}
			return fmt.Errorf("a call waits although an implementation is free: %v", o.Where)
		}
		var ss []span
		for _, x := range o.Hist {
			if s, ok := x.(span); ok {
				ss = append(ss, s)
			}
		}
		for _, s := range ss {
			if s.start < 0 {
				return errors.New("a call returned without reaching an implementation")
			}
			if s.rt != s.end {
				return fmt.Errorf("served until %v, returned at %v", s.end, s.rt)
			}
			// every implementation is busy while a call waits
			for t := s.arrive; t < s.start; t += unit / 2 {
				n := 0
				for _, x := range ss {
					if x.start <= t && t < x.end {
						n++
					}
				}
				if n < c.impls {
					return fmt.Errorf("a call that arrived at %v waited until %v although only %d of %d implementations were busy at %v", s.arrive, s.start, n, c.impls, t)
				}
			}
		}
		return nil
	}
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	add := func(name string, c conf) {
		if len(c.arrive) == 0 {
			c.arrive = []time.Duration{0}
		}
		ex := vrt.Explorer{Preempt: c.preempt, Horizon: 200 * unit, MaxSteps: 500}
		out = append(out, Scenario{Name: name, Ex: ex, Body: body(c), Check: check(c)})
	}
	out = append(out, Scenario{Name: "empty pool", Ex: vrt.Explorer{Preempt: -1}, Body: func() {
		func() {
			defer func() {
				if recover() == nil {
					vrt.Fail("an empty pool was accepted")
				}
			}()
			svc.NewSvcPool()
		}()
	}, Check: func(*vrt.Outcome) error { return nil }})
	z := []time.Duration{0}
	zl := []time.Duration{0, 2 * unit}
	for _, m := range methods {
		add(m.Name+" 1 caller 3 calls", conf{1, 1, 3, zl, nil, []Method{m}, -1, false})
		add(m.Name+" 2 impls 1 caller 3 calls", conf{2, 1, 3, z, nil, []Method{m}, -1, false})
		if len(m.Args(1)) > 0 {
			add(m.Name+" 1 impl 2 callers", conf{1, 2, 1, zl, nil, []Method{m}, -1, false})
			add(m.Name+" 2 impls 2 callers", conf{2, 2, 1, z, nil, []Method{m}, 1, false})
		}
	}
	ce, er, pl := method("CtxErr"), method("Err"), method("Plain")
	for n := 1; n <= 3; n++ {
		add(fmt.Sprintf("timed %d impls 3 callers", n), conf{n, 3, 1, []time.Duration{unit, 3 * unit}, []time.Duration{0, 2 * unit}, []Method{ce, er, pl}, [4]int{0, 1, 1, 0}[n], true})
		add(fmt.Sprintf("%d impls 2 callers 2 calls", n), conf{n, 2, 2, z, nil, []Method{pl}, 1, false})
		add(fmt.Sprintf("%d impls 3 callers 1 call", n), conf{n, 3, 1, z, nil, []Method{pl}, 1, n == 3})
	}
	if tier == "thorough" {
		for n := 1; n <= 3; n++ {
			add(fmt.Sprintf("timed %d impls 4 callers", n), conf{n, 4, 1, []time.Duration{unit, 3 * unit}, []time.Duration{0, 2 * unit}, []Method{ce, er, pl}, 1, true})
			add(fmt.Sprintf("%d impls 3 callers, panics", n), conf{n, 3, 1, z, nil, []Method{pl}, 2, false})
			add(fmt.Sprintf("%d impls 2 callers 3 calls", n), conf{n, 2, 3, z, nil, []Method{pl}, 2, false})
		}
	}
	return out
}
