package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"time"

	"scr/svc"
	"scr/ty"
	"vrt"
)

// Shape is one method of svc.Svc.
type Shape struct {
	Name            string
	Ctx, Err        bool
	Variadic        bool
	Params, Results []string
	PNames          []string
	Call            func(s svc.Svc, ctx Ctx, a []any) []any
}

// Dec is one generated decorator.
type Dec struct {
	ID, Template, Mode, Doc string
	Reset                   func()
	New                     func(b svc.Svc) svc.Svc
}

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

const nTags = 100

// mk makes a value of the type that differs for every tag.
func mk(t string, tag int) any {
	switch t {
	case "int":
		return tag + 1
	case "string":
		return fmt.Sprintf("v%d", tag)
	case "*ty.T":
		return &ty.T{ID: tag + 1}
	case "ty.T":
		return ty.T{ID: tag + 1}
	case "[]byte":
		return []byte(fmt.Sprintf("b%d", tag))
	case "interface{}":
		return fmt.Sprintf("any%d", tag)
	case "bool":
		return tag%2 == 0
	case "error":
		return fmt.Errorf("e%d", tag)
	case "func() int":
		return func() int { return tag }
	case "map[string]int":
		return map[string]int{fmt.Sprint(tag): tag}
	}
	if v, ok := mkExtra(t, tag); ok {
		return v
	}
	panic("no maker for " + t)
}

// same reports identity: the very value, not merely an equal one.
func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func, reflect.Map, reflect.Pointer, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		if va.Len() != vb.Len() || va.IsNil() != vb.IsNil() {
			return false
		}
		for i := 0; i < va.Len(); i++ {
			if !same(va.Index(i).Interface(), vb.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return a == b
}

func sameAll(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func show(l []any) string {
	var o []string
	for _, v := range l {
		switch x := v.(type) {
		case *ty.T:
			if x == nil {
				o = append(o, "(*T)(nil)")
			} else {
				o = append(o, fmt.Sprintf("*T%d", x.ID))
			}
		case func() int:
			o = append(o, "func")
		default:
			o = append(o, fmt.Sprintf("%#v", v))
		}
	}
	return "[" + strings.Join(o, ", ") + "]"
}

// makeArgs makes the arguments of a call: base tag, n variadic elements (-1: a nil slice spread).
func makeArgs(s *Shape, tag, n int) []any {
	var out []any
	for k, p := range s.Params {
		if !strings.HasPrefix(p, "...") {
			out = append(out, mk(p, tag+10*k))
			continue
		}
		et := p[3:]
		st := reflect.SliceOf(typeOf(et))
		if n < 0 {
			out = append(out, reflect.Zero(st).Interface())
			continue
		}
		v := reflect.MakeSlice(st, 0, n)
		for i := 0; i < n; i++ {
			v = reflect.Append(v, reflect.ValueOf(mk(et, tag+10*k+1+i)))
		}
		out = append(out, v.Interface())
	}
	return out
}

func typeOf(t string) reflect.Type {
	switch t {
	case "interface{}":
		return reflect.TypeFor[interface{}]()
	case "error":
		return reflect.TypeFor[error]()
	}
	return reflect.TypeOf(mk(t, 0))
}

// makeResults makes what the implementation returns.
func makeResults(s *Shape, tag int, err error) []any {
	var out []any
	for k, p := range s.Results {
		out = append(out, mk(p, tag+10*k))
	}
	if s.Err {
		var e any
		if err != nil {
			e = err
		}
		out = append(out, e)
	}
	return out
}

// arities are the variadic arities worth trying for a method.
func arities(s *Shape) []int {
	if s.Variadic {
		return []int{-1, 0, 1, 2}
	}
	return []int{0}
}

// Caught is a panic that reached the caller.
type Caught struct{ V any }

// call calls the decorator and catches a panic.
func call(s *Shape, d svc.Svc, ctx Ctx, args []any) (res []any, c *Caught) {
	done := false
	defer func() {
		if !done {
			if vrt.Killed() {
				return
			}
			v := recover()
			c = &Caught{v}
		}
	}()
	res = s.Call(d, ctx, args)
	done = true
	return
}

var errBase = errors.New("base failed")

// ptrErr is an error with a pointer receiver that works on a nil pointer.
type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "nil pointer error"
	}
	return e.s
}

// Timeout makes it look like a network error.
func (e *ptrErr) Timeout() bool { return true }

// valErr is a comparable value error.
type valErr int

func (e valErr) Error() string { return fmt.Sprintf("value error %d", int(e)) }

// errAlphabet are the errors an implementation may return.
var errAlphabet = []error{errBase, context.Canceled, context.DeadlineExceeded, io.EOF, &ptrErr{"pointer"}, (*ptrErr)(nil), valErr(0),
	errors.New(""), errors.New("100% %s\nsecond line"), fmt.Errorf("wrapped: %w", context.Canceled), errors.Join(io.EOF, errBase)}

// anErr lets the explorer choose the error when wide.
func anErr(wide bool) error {
	if !wide {
		return errBase
	}
	return errAlphabet[vrt.Choose(len(errAlphabet), "error")]
}

// Scenario is one bounded state space.
type Scenario struct {
	Name  string
	Ex    vrt.Explorer
	Body  func()
	Check func(o *vrt.Outcome) error
}

type result struct {
	Name                                                         string
	Execs, Redundant, States, Transitions, StepLimited, MaxDepth int
	Exhaustive                                                   bool
	Msg                                                          string   `json:",omitempty"`
	Choices                                                      []int    `json:",omitempty"`
	Trace                                                        []string `json:",omitempty"`
	Sample                                                       []string `json:",omitempty"`
	Secs                                                         float64
	Outcomes                                                     int
}

// stdCheck reports failures, races and stuck callers.
func stdCheck(o *vrt.Outcome) error {
	if len(o.Fails) > 0 {
		return errors.New(strings.Join(o.Fails, "; "))
	}
	if len(o.Races) > 0 {
		return errors.New("data race: " + o.Races[0])
	}
	for i, b := range o.Blocked {
		if strings.HasPrefix(b, "caller") || strings.Contains(b, "main") {
			return fmt.Errorf("the call never returns: %s waits for %s", b, o.Where[i])
		}
	}
	if !o.MainDone {
		return errors.New("the call never returns")
	}
	return nil
}

func main() {
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.String("only", "", "")
	replay := flag.String("replay", "", "JSON list of choices")
	budget := flag.Float64("budget", 300, "seconds for this process")
	flag.Parse()
	start := time.Now()
	enc := json.NewEncoder(os.Stdout)
	all := scenarios(*tier)
	for i, sc := range all {
		if *only != "" {
			if sc.Name != *only {
				continue
			}
		} else if i%*shards != *shard {
			continue
		}
		check := sc.Check
		if check == nil {
			check = stdCheck
		}
		ex := sc.Ex
		if ex.MaxSteps == 0 {
			ex.MaxSteps = 2000
		}
		if ex.Horizon == 0 {
			ex.Horizon = time.Hour
		}
		if *replay != "" {
			if err := json.Unmarshal([]byte(*replay), &ex.Choices); err != nil {
				panic(err)
			}
			err, trace := ex.Replay(sc.Body, check)
			for _, l := range trace {
				fmt.Println(l)
			}
			fmt.Println("verdict:", err)
			if err != nil {
				os.Exit(1)
			}
			return
		}
		ex.Deadline = start.Add(time.Duration(*budget * float64(time.Second)))
		t0 := time.Now()
		outs := map[string]bool{}
		e2 := ex
		v, exh := ex.Run(sc.Body, func(o *vrt.Outcome) error {
			if len(outs) < 100000 {
				outs[fmt.Sprint(o.Now, o.Where, len(o.Hist), o.Hist)] = true
			}
			return check(o)
		})
		r := result{Name: sc.Name, Execs: ex.Execs, Redundant: ex.Redundant, States: ex.States, Transitions: ex.Transitions,
			StepLimited: ex.StepLimited, MaxDepth: ex.MaxDepth, Exhaustive: exh, Secs: time.Since(t0).Seconds(), Outcomes: len(outs)}
		if v != nil {
			r.Msg, r.Choices, r.Trace = v.Msg, v.Choices, v.Trace
		} else if i < 2**shards {
			_, tr := e2.Replay(sc.Body, check)
			r.Sample = tr
		}
		enc.Encode(r)
	}
}

func reflectZero(t string) any { return reflect.Zero(typeOf(t)).Interface() }
