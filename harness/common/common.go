package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"time"

	"scr/svc"
	"vrt"
	"vrt/vctx"
)

// Ev is one call of an implementation.
type Ev struct {
	Impl   int
	Method string
	Ctx    vctx.Context
	Args   []any
}

// Impl is a scripted implementation of svc.Svc.
type Impl struct {
	id int
	f  func(e Ev) (int, error)
}

func (i *Impl) do(m string, ctx vctx.Context, args ...any) (int, error) {
	return i.f(Ev{i.id, m, ctx, args})
}

func str(n int) string { return fmt.Sprintf("s%d", n) }

func (i *Impl) CtxErr(ctx vctx.Context, a int, b string) (int, error) {
	return i.do("CtxErr", ctx, a, b)
}
func (i *Impl) CtxErrVar(ctx vctx.Context, xs ...string) (int, string, error) {
	n, err := i.do("CtxErrVar", ctx, xs)
	return n, str(n), err
}
func (i *Impl) CtxOnlyErr(ctx vctx.Context) error {
	_, err := i.do("CtxOnlyErr", ctx)
	return err
}
func (i *Impl) CtxNoErr(ctx vctx.Context, a int) int {
	n, _ := i.do("CtxNoErr", ctx, a)
	return n
}
func (i *Impl) CtxNoRes(ctx vctx.Context) { i.do("CtxNoRes", ctx) }
func (i *Impl) Err(a int) (string, error) {
	n, err := i.do("Err", nil, a)
	return str(n), err
}
func (i *Impl) ErrOnly() error { _, err := i.do("ErrOnly", nil); return err }
func (i *Impl) ErrVar(p string, xs ...int) (int, error) {
	return i.do("ErrVar", nil, p, xs)
}
func (i *Impl) Plain(a int, b int) (int, string) {
	n, _ := i.do("Plain", nil, a, b)
	return n, str(n)
}
func (i *Impl) PlainVar(p string, xs ...int) int {
	n, _ := i.do("PlainVar", nil, p, xs)
	return n
}
func (i *Impl) NoRes(a int) { i.do("NoRes", nil, a) }
func (i *Impl) Nothing()    { i.do("Nothing", nil) }

var _ svc.Svc = (*Impl)(nil)

// Res is what a call returned: n recovered from the results (-1 if it has
// none, -2 if the results disagree), and the error.
type Res struct {
	N   int
	Err error
}

// Method describes one method of Svc.
type Method struct {
	Name     string
	Ctx, Err bool
	HasN     bool // the results carry n
	Call     func(s svc.Svc, ctx vctx.Context, tag int) Res
	Args     func(tag int) []any // what the implementation must receive
}

func pair(n int, s string) int {
	if s == str(n) || (n == 0 && s == "") {
		return n
	}
	return -2
}

func unstr(s string) int {
	if s == "" {
		return 0
	}
	n := -2
	fmt.Sscanf(s, "s%d", &n)
	return n
}

var methods = []Method{
	{"CtxErr", true, true, true, func(s svc.Svc, c vctx.Context, t int) Res { n, e := s.CtxErr(c, t, str(t)); return Res{n, e} },
		func(t int) []any { return []any{t, str(t)} }},
	{"CtxErrVar", true, true, true, func(s svc.Svc, c vctx.Context, t int) Res {
		n, x, e := s.CtxErrVar(c, str(t), "y")
		return Res{pair(n, x), e}
	}, func(t int) []any { return []any{[]string{str(t), "y"}} }},
	{"CtxOnlyErr", true, true, false, func(s svc.Svc, c vctx.Context, t int) Res { return Res{-1, s.CtxOnlyErr(c)} },
		func(t int) []any { return nil }},
	{"CtxNoErr", true, false, true, func(s svc.Svc, c vctx.Context, t int) Res { return Res{s.CtxNoErr(c, t), nil} },
		func(t int) []any { return []any{t} }},
	{"CtxNoRes", true, false, false, func(s svc.Svc, c vctx.Context, t int) Res { s.CtxNoRes(c); return Res{-1, nil} },
		func(t int) []any { return nil }},
	{"Err", false, true, true, func(s svc.Svc, c vctx.Context, t int) Res { x, e := s.Err(t); return Res{unstr(x), e} },
		func(t int) []any { return []any{t} }},
	{"ErrOnly", false, true, false, func(s svc.Svc, c vctx.Context, t int) Res { return Res{-1, s.ErrOnly()} },
		func(t int) []any { return nil }},
	{"ErrVar", false, true, true, func(s svc.Svc, c vctx.Context, t int) Res { n, e := s.ErrVar("p", t, t+1); return Res{n, e} },
		func(t int) []any { return []any{"p", []int{t, t + 1}} }},
	{"Plain", false, false, true, func(s svc.Svc, c vctx.Context, t int) Res { n, x := s.Plain(t, t+1); return Res{pair(n, x), nil} },
		func(t int) []any { return []any{t, t + 1} }},
	{"PlainVar", false, false, true, func(s svc.Svc, c vctx.Context, t int) Res { return Res{s.PlainVar("q", t), nil} },
		func(t int) []any { return []any{"q", []int{t}} }},
	{"NoRes", false, false, false, func(s svc.Svc, c vctx.Context, t int) Res { s.NoRes(t); return Res{-1, nil} },
		func(t int) []any { return []any{t} }},
	{"Nothing", false, false, false, func(s svc.Svc, c vctx.Context, t int) Res { s.Nothing(); return Res{-1, nil} },
		func(t int) []any { return nil }},
}

func method(name string) Method {
	for _, m := range methods {
		if m.Name == name {
			return m
		}
	}
	panic(name)
}

// checkArgs reports arguments that differ from the caller's.
func checkArgs(m Method, e Ev, tag int) {
	if e.Method != m.Name {
		vrt.Fail("%s on the decorator called %s on the implementation", m.Name, e.Method)
		return
	}
	if w := m.Args(tag); !(len(w) == 0 && len(e.Args) == 0) && !reflect.DeepEqual(w, e.Args) {
		vrt.Fail("%s: implementation received %v, caller passed %v", m.Name, e.Args, w)
	}
}

// Scenario is one bounded state space.
type Scenario struct {
	Name  string
	Ex    vrt.Explorer
	Body  func()
	Check func(o *vrt.Outcome) error
}

type result struct {
	Name                                                         string
	Execs, Redundant, States, Transitions, StepLimited, MaxDepth int
	Exhaustive                                                   bool
	Msg                                                          string   `json:",omitempty"`
	Choices                                                      []int    `json:",omitempty"`
	Trace                                                        []string `json:",omitempty"`
	Sample                                                       []string `json:",omitempty"`
	Secs                                                         float64
	Outcomes                                                     int
}

func runMain(scenarios func(tier string) []Scenario) {
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.String("only", "", "")
	replay := flag.String("replay", "", "JSON list of choices")
	budget := flag.Float64("budget", 300, "seconds for this process")
	flag.Parse()
	start := time.Now()
	enc := json.NewEncoder(os.Stdout)
	all := scenarios(*tier)
	for i, sc := range all {
		if *only != "" {
			if sc.Name != *only {
				continue
			}
		} else if i%*shards != *shard {
			continue
		}
		body := func() { svc.VrtReset(); sc.Body() }
		ex := sc.Ex
		if *replay != "" {
			if err := json.Unmarshal([]byte(*replay), &ex.Choices); err != nil {
				panic(err)
			}
			err, trace := ex.Replay(body, sc.Check)
			for _, l := range trace {
				fmt.Println(l)
			}
			fmt.Println("verdict:", err)
			if err != nil {
				os.Exit(1)
			}
			return
		}
		ex.Deadline = start.Add(time.Duration(*budget * float64(time.Second)))
		t0 := time.Now()
		outs := map[string]bool{}
		v, exh := ex.Run(body, func(o *vrt.Outcome) error {
			if len(outs) < 100000 {
				outs[fmt.Sprint(o.Now, o.Where, len(o.Hist), o.Hist)] = true
			}
			return sc.Check(o)
		})
		r := result{Name: sc.Name, Execs: ex.Execs, Redundant: ex.Redundant, States: ex.States, Transitions: ex.Transitions,
			StepLimited: ex.StepLimited, MaxDepth: ex.MaxDepth, Exhaustive: exh, Secs: time.Since(t0).Seconds(), Outcomes: len(outs)}
		if v != nil {
			r.Msg, r.Choices, r.Trace = v.Msg, v.Choices, v.Trace
		} else if i < 2**shards {
			e2 := sc.Ex
			_, tr := e2.Replay(body, sc.Check)
			r.Sample = tr
		}
		enc.Encode(r)
	}
}

// unit is the virtual time unit of the scenarios.
const unit = time.Second
