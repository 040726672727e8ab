package main

import (
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/sirupsen/logrus"

	"scr/svc"
	"vrt"
)

func mkExtra(t string, tag int) (any, bool) { return nil, false }

type ev struct {
	kind string // log, base
	dest string // out, err
	text string
	data logrus.Fields
	args []any
	shp  int
}

var evs map[int][]ev

func push(e ev) {
	evs[vrt.TID()] = append(evs[vrt.TID()], e)
	vrt.Record(e.kind + e.dest)
}

type sink string

func (s sink) Write(b []byte) (int, error) {
	push(ev{kind: "log", dest: string(s), text: string(b)})
	return len(b), nil
}

func outW() io.Writer { return sink("out") }
func errW() io.Writer { return sink("err") }

type hook struct{}

func (hook) Levels() []logrus.Level { return logrus.AllLevels }
func (hook) Fire(e *logrus.Entry) error {
	d := "other:" + e.Level.String()
	switch e.Level {
	case logrus.DebugLevel:
		d = "out"
	case logrus.ErrorLevel:
		d = "err"
	}
	data := logrus.Fields{}
	for k, v := range e.Data {
		data[k] = v
	}
	push(ev{kind: "log", dest: d, text: e.Message, data: data})
	return nil
}

func logEntry() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.TraceLevel)
	l.AddHook(hook{})
	l.ExitFunc = func(int) { panic("logrus exit") }
	return logrus.NewEntry(l)
}

const (
	oOK = iota
	oNil
	oErr
	oPanic
)

var panicValue = "base panicked"

type plan struct {
	s       *Shape
	outcome int
	tag     int
	yield   bool
	res     []any
}

var plans map[int]*plan

func base(i int, ctx Ctx, args []any) []any {
	p := plans[vrt.TID()]
	push(ev{kind: "base", args: args, shp: i})
	if p.yield {
		vrt.Yield("in the implementation")
	}
	if p.outcome == oPanic {
		panic(panicValue)
	}
	return p.res
}

func zeros(s *Shape) []any {
	var out []any
	for _, t := range s.Results {
		out = append(out, reflectZero(t))
	}
	if s.Err {
		out = append(out, nil)
	}
	return out
}

// named matches the decorator and the method as whole words.
func named(text, dec, m string) bool {
	return regexp.MustCompile(`\b`+dec+`\b`).MatchString(text) && regexp.MustCompile(`\b`+m+`\b`).MatchString(text)
}

// carries checks the values of an entry; names maps written names to positions.
func carries(d Dec, e ev, vals []any, names map[string]int) string {
	if d.Template == "log" {
		want := strings.TrimSuffix(fmt.Sprintln(vals...), "\n")
		if !strings.HasSuffix(strings.TrimSuffix(e.text, "\n"), want) {
			return fmt.Sprintf("entry %q does not end with %d values %q", clean(e.text), len(vals), clean(want))
		}
		return ""
	}
	// logrus itself refuses fields holding functions
	n := 0
	for _, v := range vals {
		if _, fn := v.(func() int); !fn {
			n++
		}
	}
	if len(e.data) != n {
		return fmt.Sprintf("entry has %d fields, want %d", len(e.data), n)
	}
	for n, i := range names {
		if _, fn := vals[i].(func() int); fn {
			continue
		}
		v, ok := e.data[n]
		if !ok || !same(v, vals[i]) {
			return fmt.Sprintf("field %q is not the value of %s", n, n)
		}
	}
	for i, v := range vals {
		_, found := v.(func() int)
		for _, f := range e.data {
			found = found || same(f, v)
		}
		if !found {
			return fmt.Sprintf("value %d is in no field", i)
		}
	}
	return ""
}

var addr = regexp.MustCompile(`0x[0-9a-f]+|\d{4}/\d\d/\d\d \d\d:\d\d:\d\d`)

func clean(s string) string { return addr.ReplaceAllString(s, "#") }

func one(d Dec, dec svc.Svc, s *Shape, arity, outcome, tag int, yield bool) {
	args := makeArgs(s, tag, arity)
	var ctx Ctx
	if s.Ctx {
		ctx = newCtx(tag)
	}
	var e error
	if outcome == oErr {
		e = anErr(!yield && tag == 7)
	}
	p := &plan{s: s, outcome: outcome, tag: tag, yield: yield}
	switch outcome {
	case oNil, oPanic:
		p.res = zeros(s)
	default:
		p.res = makeResults(s, 100+tag, e)
	}
	id := vrt.TID()
	plans[id] = p
	evs[id] = nil
	res, c := call(s, dec, ctx, args)
	got := evs[id]
	what := fmt.Sprintf("%s/%s %s", d.Mode, d.ID, s.Name)
	bad := func(f string, a ...any) { vrt.Fail("%s: %s", what, fmt.Sprintf(f, a...)) }
	if (outcome == oPanic) != (c != nil) || c != nil && c.V != any(panicValue) {
		bad("panic of the implementation %v, seen by the caller %v", outcome == oPanic, c != nil)
		return
	}
	var kinds []string
	for _, x := range got {
		kinds = append(kinds, x.kind+x.dest)
	}
	post := "logout"
	if outcome == oErr {
		post = "logerr"
	}
	if w := "logout base " + post; strings.Join(kinds, " ") != w {
		bad("events %v, want %s", kinds, w)
		return
	}
	if got[1].shp != index(s) || !sameAll(got[1].args, args) {
		bad("the implementation received %s(%s), the caller passed %s", shapes[got[1].shp].Name, show(got[1].args), show(args))
		return
	}
	if c == nil && !sameAll(res, p.res) {
		bad("returned %s, the implementation returned %s", show(res), show(p.res))
		return
	}
	name := d.Doc
	pv, pn := args, map[string]int{}
	if s.Ctx {
		pv = append([]any{ctx}, args...)
		pn["ctx"] = 0
	}
	for i, n := range s.PNames {
		k := i
		if s.Ctx {
			k++
		}
		pn[n] = k
	}
	for i, x := range []ev{got[0], got[2]} {
		if !named(x.text, name, s.Name) {
			bad("entry %d %q does not name %s and %s", i, clean(x.text), name, s.Name)
			return
		}
	}
	if m := carries(d, got[0], pv, pn); m != "" {
		bad("before: %s", m)
		return
	}
	rn := map[string]int{}
	if s.Err {
		rn["err"] = len(p.res) - 1
	}
	if len(p.res) > 0 {
		if m := carries(d, got[2], p.res, rn); m != "" {
			bad("after: %s", m)
		}
	}
}

func index(s *Shape) int {
	for i := range shapes {
		if &shapes[i] == s {
			return i
		}
	}
	panic("shape")
}

func outcomes(s *Shape) []int {
	o := []int{oOK, oNil, oPanic}
	if s.Err {
		o = append(o, oErr)
	}
	return o
}

func start(d Dec) svc.Svc {
	d.Reset()
	evs, plans = map[int][]ev{}, map[int]*plan{}
	return d.New(&Base{base})
}

func scenarios(tier string) []Scenario {
	var out []Scenario
	for di := range decs {
		d := decs[di]
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + s.Name, Ex: vrt.Explorer{Preempt: 0},
				Body: func() {
					dec := start(d)
					for k := 0; k < 2; k++ {
						a, o := arities(s), outcomes(s)
						one(d, dec, s, a[vrt.Choose(len(a), "arity")], o[vrt.Choose(len(o), "outcome")], 7+20*k, false)
					}
				}})
		}
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 2 && len(few) < 6 {
				few = append(few, s)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b := few[i], few[j]
				out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b.Name, Ex: vrt.Explorer{Preempt: -1},
					Body: func() {
						dec := start(d)
						run := func(s *Shape, tag int) {
							o := outcomes(s)
							one(d, dec, s, 1, o[vrt.Choose(len(o), "outcome")], tag, true)
						}
						vrt.GoNamed("caller 2", func() { run(b, 40) })
						run(a, 7)
					}})
			}
		}
	}
	return out
}
