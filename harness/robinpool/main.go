package main

import (
	"errors"
	"fmt"

	"scr/svc"
	"vrt"
	"vrt/vatomic"
	"vrt/vctx"
)

func main() { runMain(scenarios) }

type conf struct {
	impls, threads, calls int
	must                  bool
	m                     []Method
	preempt               int
	skip                  uint64 // calls already made (a multiple of impls, minus one is still to come)
}

func body(c conf) func() {
	return func() {
		vatomic.Skip32 = 0
		served := make([]int, c.impls)
		impls := make([]svc.Svc, c.impls)
		var order []int
		for i := range impls {
			impls[i] = &Impl{i, func(e Ev) (int, error) {
				served[i]++
				order = append(order, i)
				return 10 + i, nil
			}}
		}
		var d svc.Svc
		if c.must {
			d = svc.MustNewSvcRoundRobinPool(impls...)
		} else {
			var err error
			d, err = svc.NewSvcRoundRobinPool(impls...)
			if err != nil {
				vrt.Fail("constructor: %v", err)
				return
			}
		}
		vatomic.Skip32 = uint32(c.skip)
		one := func(m Method, tag int) {
			before := len(order)
			r := m.Call(d, vctx.Background(), tag)
			if c.threads == 1 {
				if len(order) != before+1 {
					vrt.Fail("a call was served by %d implementations", len(order)-before)
				}
				if m.HasN && r.N != 10+order[before] {
					vrt.Fail("results changed")
				}
			}
		}
		done := vrt.MakeChan[int](c.threads)
		for t := 1; t < c.threads; t++ {
			vrt.GoNamed(fmt.Sprintf("caller%d", t), func() {
				for k := 0; k < c.calls; k++ {
					one(c.m[k%len(c.m)], t)
				}
				done.Send(1)
			})
		}
		for k := 0; k < c.calls; k++ {
			one(c.m[k%len(c.m)], 0)
		}
		for t := 1; t < c.threads; t++ {
			done.Recv()
		}
		vrt.Record(fmt.Sprint(order))
		lo, hi, sum := served[0], served[0], 0
		for _, n := range served {
			lo, hi, sum = min(lo, n), max(hi, n), sum+n
		}
		if sum != c.threads*c.calls {
			vrt.Fail("%d calls were served %d times", c.threads*c.calls, sum)
		}
		if hi-lo > 1 {
			vrt.Fail("after %d calls the implementations have served %v", sum, served)
		}
		if c.threads == 1 {
			for i := 1; i < len(order); i++ {
				if i >= c.impls && order[i] != order[i-c.impls] {
					vrt.Fail("sequential calls are not cyclic: %v (after %d earlier calls)", order, c.skip)
					return
				}
				if i < c.impls {
					for j := 0; j < i; j++ {
						if order[i] == order[j] {
							vrt.Fail("sequential calls are not cyclic: %v (after %d earlier calls)", order, c.skip)
							return
						}
					}
				}
			}
		}
	}
}

func check(o *vrt.Outcome) error {
	if o.StepLimit {
		return errors.New("step limit")
	}
	if len(o.Blocked) > 0 {
		return fmt.Errorf("blocked: %v", o.Where)
	}
	return nil
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	add := func(name string, c conf) {
		if c.preempt == 0 {
			c.preempt = -1
		}
		out = append(out, Scenario{Name: name, Ex: vrt.Explorer{Preempt: c.preempt, MaxSteps: 500}, Body: body(c), Check: check})
	}
	out = append(out, Scenario{Name: "empty pool", Ex: vrt.Explorer{Preempt: -1}, Body: func() {
		if _, err := svc.NewSvcRoundRobinPool(); err == nil {
			vrt.Fail("an empty pool was accepted")
		}
		func() {
			defer func() {
				if recover() == nil {
					vrt.Fail("an empty pool was accepted by the Must constructor")
				}
			}()
			svc.MustNewSvcRoundRobinPool()
		}()
	}, Check: check})
	for _, must := range []bool{false, true} {
		for n := 1; n <= 4; n++ {
			for _, m := range methods {
				add(fmt.Sprintf("sequential %s impls=%d must=%v", m.Name, n, must), conf{n, 1, 3*n + 2, must, []Method{m}, 0, 0})
			}
			add(fmt.Sprintf("sequential mixed impls=%d must=%v", n, must), conf{n, 1, 3*n + 2, must, methods, 0, 0})
			// a multiple of the pool size of earlier calls, just before a 32-bit counter would wrap
			skip := (uint64(1)<<32 - 2) / uint64(n) * uint64(n)
			add(fmt.Sprintf("sequential across 2^32 impls=%d must=%v", n, must), conf{n, 1, 3*n + 4, must, methods[:1], 0, skip})
			skip = (uint64(1)<<31 - 2) / uint64(n) * uint64(n)
			add(fmt.Sprintf("sequential across 2^31 impls=%d must=%v", n, must), conf{n, 1, 3*n + 4, must, methods[:1], 0, skip})
		}
	}
	for n := 1; n <= 3; n++ {
		for _, mn := range []string{"CtxErr", "Plain", "Nothing"} {
			m := []Method{method(mn)}
			add(fmt.Sprintf("%s impls=%d 2 threads 2 calls", mn, n), conf{n, 2, 2, false, m, 0, 0})
			add(fmt.Sprintf("%s impls=%d 3 threads 1 call", mn, n), conf{n, 3, 1, n == 2, m, 0, 0})
		}
		add(fmt.Sprintf("mixed impls=%d 2 threads 3 calls", n), conf{n, 2, 3, false, methods, 0, 0})
		add(fmt.Sprintf("mixed impls=%d 3 threads 2 calls", n), conf{n, 3, 2, false, methods, 0, 0})
		if tier == "thorough" {
			add(fmt.Sprintf("mixed impls=%d 4 threads 1 call", n), conf{n, 4, 1, false, methods, 0, 0})
			add(fmt.Sprintf("mixed impls=%d 2 threads 5 calls", n), conf{n, 2, 5, false, methods, 0, 0})
			add(fmt.Sprintf("mixed impls=%d 4 threads 2 calls", n), conf{n, 4, 2, false, methods, 3, 0})
		}
	}
	return out
}
