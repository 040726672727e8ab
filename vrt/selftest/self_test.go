package selftest

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"vrt"
	"vrt/vatomic"
	"vrt/vctx"
	"vrt/vsync"
	"vrt/vtime"
)

func outcomes(t *testing.T, e *vrt.Explorer, body func()) []string {
	set := map[string]bool{}
	v, ex := e.Run(body, func(o *vrt.Outcome) error {
		set[fmt.Sprint(o.Hist, len(o.Blocked))] = true
		return nil
	})
	if v != nil || !ex {
		t.Fatalf("unexpected: %+v %v", v, ex)
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// the same program gives the same set of outcomes with sleep sets and without
func same(t *testing.T, want int, body func()) {
	t.Helper()
	a := &vrt.Explorer{Preempt: -1}
	b := &vrt.Explorer{Preempt: 1000}
	x, y := outcomes(t, a, body), outcomes(t, b, body)
	if fmt.Sprint(x) != fmt.Sprint(y) {
		t.Fatalf("sleep sets lose outcomes:\n%v\n%v", x, y)
	}
	if want > 0 && len(x) != want {
		t.Fatalf("%d outcomes, want %d: %v", len(x), want, x)
	}
	t.Logf("sleep: %d execs + %d redundant; full: %d execs; outcomes %v", a.Execs, a.Redundant, b.Execs, x)
}

func TestSendRecv(t *testing.T) {
	same(t, 2, func() {
		c := vrt.MakeChan[int]()
		for i := 0; i < 2; i++ {
			vrt.Go(func() { c.Send(i) })
		}
		a := c.Recv()
		b := c.Recv()
		vrt.Record(fmt.Sprint(a, b))
	})
}

func TestNonblocking(t *testing.T) {
	same(t, 0, func() {
		c, d := vrt.MakeChan[int](), vrt.MakeChan[int](1)
		vrt.Go(func() { d.Send(1); c.Recv() })
		vrt.Go(func() { d.Recv() })
		k := vrt.SendCase(c, 1)
		vrt.Record(vrt.Select(true, k))
	})
}

func TestNonblockingBuffered(t *testing.T) {
	same(t, 0, func() {
		c := vrt.MakeChan[int](1)
		done := vrt.MakeChan[int](2)
		for i := 0; i < 2; i++ {
			vrt.Go(func() {
				vrt.Select(true, vrt.SendCase(c, i+1))
				done.Send(1)
			})
		}
		done.Recv()
		r := vrt.RecvCase(c)
		k := vrt.Select(true, r)
		vrt.Record(fmt.Sprint(k, r.Val))
		done.Recv()
	})
}

func TestMutexCounter(t *testing.T) {
	same(t, 2, func() {
		var mu vsync.Mutex
		var wg vsync.WaitGroup
		x := ""
		for i := 0; i < 2; i++ {
			wg.Add(1)
			vrt.Go(func() {
				mu.Lock()
				*vrt.W(&x, "x") = *vrt.R(&x, "x") + fmt.Sprint(i)
				mu.Unlock()
				wg.Done()
			})
		}
		wg.Wait()
		vrt.Record(*vrt.R(&x, "x"))
	})
}

func TestRaceFound(t *testing.T) {
	e := &vrt.Explorer{Preempt: -1}
	v, _ := e.Run(func() {
		var n int
		var f vatomic.Int32
		vrt.Go(func() { *vrt.W(&n, "n") = 1; f.Store(1) })
		if f.Load() == 0 {
			_ = *vrt.R(&n, "n")
		}
	}, func(*vrt.Outcome) error { return nil })
	if v == nil {
		t.Fatal("race missed")
	}
	e = &vrt.Explorer{Preempt: -1}
	v, _ = e.Run(func() {
		var n int
		var f vatomic.Int32
		vrt.Go(func() { *vrt.W(&n, "n") = 1; f.Store(1) })
		if f.Load() == 1 {
			_ = *vrt.R(&n, "n")
		}
	}, func(*vrt.Outcome) error { return nil })
	if v != nil {
		t.Fatal("false race", v.Msg)
	}
}

func TestDeadlock(t *testing.T) {
	e := &vrt.Explorer{Preempt: -1}
	v, _ := e.Run(func() {
		var a, b vsync.Mutex
		vrt.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		a.Lock()
		b.Lock()
		b.Unlock()
		a.Unlock()
	}, func(o *vrt.Outcome) error {
		if len(o.Blocked) > 0 {
			return fmt.Errorf("deadlock")
		}
		return nil
	})
	if v == nil {
		t.Fatal("deadlock missed")
	}
}

func TestTimersAndContext(t *testing.T) {
	for _, ec := range []int{0, 2} {
		body := func() {
			ctx, cancel := vctx.WithTimeout(vctx.Background(), 10*time.Second)
			defer cancel()
			ch := vrt.MakeChan[int](1)
			vrt.Go(func() { vtime.Sleep(10 * time.Second); ch.Send(7) })
			a, b := vrt.RecvCase(ctx.Done()), vrt.RecvCase(ch)
			k := vrt.Select(false, a, b)
			vrt.Record(fmt.Sprint(k, vctx.PeekErr(ctx), vtime.Since(vtime.Base)))
		}
		a := &vrt.Explorer{Preempt: -1, EarlyClock: ec}
		b := &vrt.Explorer{Preempt: 1000, EarlyClock: ec}
		x, y := outcomes(t, a, body), outcomes(t, b, body)
		if fmt.Sprint(x) != fmt.Sprint(y) || len(x) < 2 {
			t.Fatalf("%v\n%v", x, y)
		}
	}
}

func TestCancelTree(t *testing.T) {
	same(t, 0, func() {
		p, cp := vctx.WithCancel(vctx.Background())
		vrt.Go(func() { cp() })
		c, cc := vctx.WithCancel(p)
		vrt.Go(func() { cc() })
		c.Done().Recv()
		vrt.Record(fmt.Sprint(c.Err(), p.Err() != nil))
	})
}

func TestTicker(t *testing.T) {
	same(t, 1, func() {
		tk := vtime.NewTicker(time.Second)
		n := 0
		for range tk.C.All() {
			n++
			if n == 3 {
				tk.Stop()
				break
			}
		}
		vrt.Record(fmt.Sprint(n, vtime.Since(vtime.Base)))
	})
}

func TestThreeThreadsAtomic(t *testing.T) {
	same(t, 0, func() {
		var a, b vatomic.Int32
		var wg vsync.WaitGroup
		wg.Add(3)
		r := [3]int32{}
		vrt.Go(func() { a.Store(1); r[0] = b.Load(); wg.Done() })
		vrt.Go(func() { b.Store(1); r[1] = a.Load(); wg.Done() })
		vrt.Go(func() { a.Add(2); r[2] = a.Load() + 10*b.Load(); wg.Done() })
		wg.Wait()
		vrt.Record(fmt.Sprint(r))
	})
}
