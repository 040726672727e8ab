package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"

	opentracing "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"go.elastic.co/apm/v2"
	octrace "go.opencensus.io/trace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	oteltrace "go.opentelemetry.io/otel/trace"

	"scr/svc"
	"vrt"
)

func mkExtra(t string, tag int) (any, bool) { return nil, false }

// span is a span in the terms of the property.
type span struct {
	id, parent any
	name       string
	tracer     string // opentelemetry
	kind       string // elasticapm span type
	ends       int
	failed     bool
	text       string // everything recorded about the error
}

// world is one tracing library.
type world interface {
	reset()
	parent(ctx context.Context, depth int) (context.Context, any)
	carried(ctx context.Context) (id any, live bool)
	ended() []span
	leaveParents()
}

// --- opentracing

type otWorld struct {
	t    *mocktracer.MockTracer
	pars map[any]bool
}

func (w *otWorld) reset() {
	w.t = mocktracer.New()
	opentracing.SetGlobalTracer(w.t)
	w.pars = map[any]bool{}
}
func (w *otWorld) parent(ctx context.Context, depth int) (context.Context, any) {
	var id any
	for i := 0; i < depth; i++ {
		var s opentracing.Span
		s, ctx = opentracing.StartSpanFromContext(ctx, "caller")
		id = s.(*mocktracer.MockSpan).SpanContext.SpanID
	}
	return ctx, id
}
func (w *otWorld) carried(ctx context.Context) (any, bool) {
	s, _ := opentracing.SpanFromContext(ctx).(*mocktracer.MockSpan)
	if s == nil {
		return nil, false
	}
	return s.SpanContext.SpanID, s.FinishTime.IsZero()
}
func (w *otWorld) leaveParents() {}
func (w *otWorld) ended() []span {
	var out []span
	byID := map[any]int{}
	for _, s := range w.t.FinishedSpans() {
		id := any(s.SpanContext.SpanID)
		if i, ok := byID[id]; ok {
			out[i].ends++
			continue
		}
		x := span{id: id, name: s.OperationName, ends: 1}
		if s.ParentID != 0 {
			x.parent = s.ParentID
		}
		if b, _ := s.Tag("error").(bool); b {
			x.failed = true
		}
		for _, l := range s.Logs() {
			x.failed = true
			for _, f := range l.Fields {
				x.text += f.ValueString + "\n"
			}
		}
		byID[id] = len(out)
		out = append(out, x)
	}
	return out
}

// --- opencensus

type ocWorld struct{ got []span }

func (w *ocWorld) ExportSpan(d *octrace.SpanData) {
	x := span{id: d.SpanContext.SpanID, name: d.Name, ends: 1}
	if (d.ParentSpanID != octrace.SpanID{}) {
		x.parent = d.ParentSpanID
	}
	if b, _ := d.Attributes["error"].(bool); b || d.Status.Code != 0 {
		x.failed = true
	}
	for _, v := range d.Attributes {
		x.text += fmt.Sprint(v) + "\n"
	}
	w.got = append(w.got, x)
}

var ocOnce sync.Once
var ocCur *ocWorld

type ocExp struct{}

func (ocExp) ExportSpan(d *octrace.SpanData) { ocCur.ExportSpan(d) }

func (w *ocWorld) reset() {
	ocCur = w
	w.got = nil
	ocOnce.Do(func() {
		octrace.ApplyConfig(octrace.Config{DefaultSampler: octrace.AlwaysSample()})
		octrace.RegisterExporter(ocExp{})
	})
}
func (w *ocWorld) parent(ctx context.Context, depth int) (context.Context, any) {
	var id any
	for i := 0; i < depth; i++ {
		var s *octrace.Span
		ctx, s = octrace.StartSpan(ctx, "caller")
		id = s.SpanContext().SpanID
	}
	return ctx, id
}
func (w *ocWorld) carried(ctx context.Context) (any, bool) {
	s := octrace.FromContext(ctx)
	if s == nil {
		return nil, false
	}
	id := s.SpanContext().SpanID
	for _, e := range w.got {
		if e.id == any(id) {
			return id, false
		}
	}
	return id, true
}
func (w *ocWorld) ended() []span { return w.got }
func (w *ocWorld) leaveParents() {}

// --- opentelemetry (stand-in library)

type oteWorld struct{ spans []*oteSpan }
type oteTracer struct {
	w    *oteWorld
	name string
}
type oteSpan struct {
	w *oteWorld
	s span
}

func (w *oteWorld) Tracer(n string, _ ...oteltrace.TracerOption) oteltrace.Tracer {
	return oteTracer{w, n}
}
func (t oteTracer) Start(ctx context.Context, n string, _ ...oteltrace.SpanStartOption) (context.Context, oteltrace.Span) {
	s := &oteSpan{t.w, span{id: len(t.w.spans) + 1, name: n, tracer: t.name}}
	if p, ok := oteltrace.SpanFromContext(ctx).(*oteSpan); ok {
		s.s.parent = p.s.id
	}
	t.w.spans = append(t.w.spans, s)
	return oteltrace.ContextWithSpan(ctx, s), s
}
func (s *oteSpan) End(...oteltrace.SpanEndOption)                { s.s.ends++ }
func (s *oteSpan) AddEvent(n string, _ ...oteltrace.EventOption) { s.late(); s.s.text += n + "\n" }
func (s *oteSpan) IsRecording() bool                             { return s.s.ends == 0 }
func (s *oteSpan) SetName(n string)                              { s.s.name = n }
func (s *oteSpan) TracerProvider() oteltrace.TracerProvider      { return s.w }
func (s *oteSpan) RecordError(err error, _ ...oteltrace.EventOption) {
	s.late()
	if err != nil {
		s.s.failed = true
		s.s.text += err.Error() + "\n"
	}
}
func (s *oteSpan) SetStatus(c codes.Code, d string) {
	s.late()
	if c == codes.Error {
		s.s.failed = true
		s.s.text += d + "\n"
	}
}
func (s *oteSpan) SetAttributes(kv ...attribute.KeyValue) {
	s.late()
	for _, a := range kv {
		s.s.text += a.Value.Emit() + "\n"
	}
}
func (s *oteSpan) late() {
	if s.s.ends > 0 {
		vrt.Fail("something is recorded on the span after it ended")
	}
}
func (w *oteWorld) reset() { w.spans = nil; otel.SetTracerProvider(w) }
func (w *oteWorld) parent(ctx context.Context, depth int) (context.Context, any) {
	var id any
	for i := 0; i < depth; i++ {
		var s oteltrace.Span
		ctx, s = oteTracer{w, "caller"}.Start(ctx, "caller")
		id = s.(*oteSpan).s.id
	}
	return ctx, id
}
func (w *oteWorld) carried(ctx context.Context) (any, bool) {
	s, _ := oteltrace.SpanFromContext(ctx).(*oteSpan)
	if s == nil {
		return nil, false
	}
	return s.s.id, s.s.ends == 0
}
func (w *oteWorld) leaveParents() {}
func (w *oteWorld) ended() []span {
	var out []span
	for _, s := range w.spans {
		if s.s.ends > 0 {
			out = append(out, s.s)
		}
	}
	return out
}

// --- elastic apm

type apmWorld struct {
	t   *apm.Tracer
	mu  sync.Mutex
	got []span
	er  map[string]string
	txs []*apm.Transaction
	sps []*apm.Span
}

func (w *apmWorld) SendStream(_ context.Context, r io.Reader) error {
	z, err := zlib.NewReader(r)
	if err != nil {
		return err
	}
	sc := bufio.NewScanner(z)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var e struct {
			Span *struct {
				Name, Type string
				ID         string
				ParentID   string `json:"parent_id"`
			}
			Error *struct {
				ParentID  string `json:"parent_id"`
				Exception struct{ Message string }
			}
		}
		if err := json.Unmarshal(bytes.TrimSpace(sc.Bytes()), &e); err != nil {
			return err
		}
		w.mu.Lock()
		if e.Span != nil {
			w.got = append(w.got, span{id: e.Span.ID, parent: e.Span.ParentID, name: e.Span.Name, kind: e.Span.Type, ends: 1})
		}
		if e.Error != nil {
			w.er[e.Error.ParentID] += e.Error.Exception.Message + "\n"
		}
		w.mu.Unlock()
	}
	return sc.Err()
}
func (w *apmWorld) reset() {
	if w.t == nil {
		t, err := apm.NewTracerOptions(apm.TracerOptions{ServiceName: "x", Transport: w})
		if err != nil {
			panic(err)
		}
		w.t = t
		apm.SetDefaultTracer(t)
	}
	w.t.Flush(nil)
	w.got, w.er, w.txs, w.sps = nil, map[string]string{}, nil, nil
}
func (w *apmWorld) parent(ctx context.Context, depth int) (context.Context, any) {
	if depth == 0 {
		return ctx, nil
	}
	tx := w.t.StartTransaction("caller", "test")
	w.txs = append(w.txs, tx)
	ctx = apm.ContextWithTransaction(ctx, tx)
	id := tx.TraceContext().Span.String()
	if depth > 1 {
		var s *apm.Span
		s, ctx = apm.StartSpan(ctx, "caller", "test")
		w.sps = append(w.sps, s)
		id = s.TraceContext().Span.String()
	}
	return ctx, id
}
func (w *apmWorld) carried(ctx context.Context) (any, bool) {
	s := apm.SpanFromContext(ctx)
	if s == nil {
		return nil, false
	}
	return s.TraceContext().Span.String(), s.SpanData != nil
}
func (w *apmWorld) leaveParents() {
	for _, t := range w.txs {
		t.End()
	}
}
func (w *apmWorld) ended() []span {
	w.t.Flush(nil)
	w.mu.Lock()
	defer w.mu.Unlock()
	out := append([]span{}, w.got...)
	for i := range out {
		if m, ok := w.er[out[i].id.(string)]; ok {
			out[i].failed, out[i].text = true, m
		}
	}
	return out
}

var worlds = map[string]world{"opentracing": &otWorld{}, "opencensus": &ocWorld{}, "opentelemetry": &oteWorld{}, "elasticapm": &apmWorld{}}

// --- span decorators

const (
	decNone = iota
	decNil
	decSet
)

var decMode int

type decCall struct {
	id              any
	live            bool
	params, results map[string]interface{}
}

var decCalls map[int][]decCall

func gotDec(ctx context.Context, p, r map[string]interface{}) {
	id, live := cur.carried(ctx)
	decCalls[vrt.TID()] = append(decCalls[vrt.TID()], decCall{id, live, p, r})
}

func otDecs() []func(opentracing.Span, map[string]interface{}, map[string]interface{}) {
	switch decMode {
	case decNil:
		return []func(opentracing.Span, map[string]interface{}, map[string]interface{}){nil}
	case decSet:
		return []func(opentracing.Span, map[string]interface{}, map[string]interface{}){func(s opentracing.Span, p, r map[string]interface{}) {
			gotDec(opentracing.ContextWithSpan(context.Background(), s), p, r)
		}}
	}
	return nil
}

func ocDecs() []func(*octrace.Span, map[string]interface{}, map[string]interface{}) {
	switch decMode {
	case decNil:
		return []func(*octrace.Span, map[string]interface{}, map[string]interface{}){nil}
	case decSet:
		return []func(*octrace.Span, map[string]interface{}, map[string]interface{}){func(s *octrace.Span, p, r map[string]interface{}) {
			gotDec(octrace.NewContext(context.Background(), s), p, r)
		}}
	}
	return nil
}

func oteDecs() []func(oteltrace.Span, map[string]interface{}, map[string]interface{}) {
	switch decMode {
	case decNil:
		return []func(oteltrace.Span, map[string]interface{}, map[string]interface{}){nil}
	case decSet:
		return []func(oteltrace.Span, map[string]interface{}, map[string]interface{}){func(s oteltrace.Span, p, r map[string]interface{}) {
			gotDec(oteltrace.ContextWithSpan(context.Background(), s), p, r)
		}}
	}
	return nil
}

// --- the implementation and the property

const (
	oOK = iota
	oNil
	oErr
	oPanic
)

var panicValue = "base panicked"
var cur world

type seen struct {
	called int
	id     any
	live   bool
	tag    any
	args   []any
}

type state struct {
	outcome int
	res     []any
	yield   bool
	seen    seen
}

var states map[int]*state

func base(i int, ctx Ctx, args []any) []any {
	s := states[vrt.TID()]
	s.seen.called++
	s.seen.args = args
	if ctx != nil {
		s.seen.id, s.seen.live = cur.carried(ctx)
		s.seen.tag = ctxTag(ctx)
	}
	if s.yield {
		vrt.Yield("in the implementation")
		if ctx != nil {
			if id, live := cur.carried(ctx); id != s.seen.id || !live {
				vrt.Fail("the span ended during the call")
			}
		}
	}
	if s.outcome == oPanic {
		panic(panicValue)
	}
	return s.res
}

type expect struct {
	s       *Shape
	outcome int
	parent  any
	id      any // the span carried by the implementation's context
	traced  bool
	err     error
}

func zeros(s *Shape) []any {
	var out []any
	for _, t := range s.Results {
		out = append(out, reflectZero(t))
	}
	if s.Err {
		out = append(out, nil)
	}
	return out
}

func holds(m map[string]interface{}, vals []any, names []string, extra int) string {
	if len(m) != len(vals)+extra {
		return fmt.Sprintf("has %d entries, want %d", len(m), len(vals)+extra)
	}
	for i, v := range vals {
		if i < len(names) && names[i] != "" {
			if x, ok := m[names[i]]; !ok || !same(x, v) {
				return fmt.Sprintf("%q is not the value of %s", names[i], names[i])
			}
		}
		found := false
		for _, x := range m {
			found = found || same(x, v)
		}
		if !found {
			return fmt.Sprintf("value %d is missing", i)
		}
	}
	return ""
}

func what(d Dec, s *Shape) string { return fmt.Sprintf("%s/%s %s", d.Mode, d.ID, s.Name) }

func one(d Dec, dec svc.Svc, s *Shape, arity, outcome, tag, depth int, yield bool) *expect {
	st := &state{outcome: outcome, yield: yield}
	id := vrt.TID()
	states[id] = st
	decCalls[id] = nil
	var e error
	if outcome == oErr {
		e = fmt.Errorf("failure of call %d", tag)
		if !yield && tag == 7 {
			if k := vrt.Choose(len(errAlphabet), "error"); k > 0 {
				e = errAlphabet[k]
			}
		}
	}
	if outcome == oOK || outcome == oErr {
		st.res = makeResults(s, 100+tag, e)
	} else {
		st.res = zeros(s)
	}
	args := makeArgs(s, tag, arity)
	x := &expect{s: s, outcome: outcome, err: e}
	var ctx Ctx
	if s.Ctx {
		ctx, x.parent = cur.parent(newCtx(tag), depth)
	}
	fail := func(f string, a ...any) { vrt.Fail("%s: %s", what(d, s), fmt.Sprintf(f, a...)) }
	res, c := call(s, dec, ctx, args)
	if st.seen.called != 1 || !sameAll(st.seen.args, args) {
		fail("the implementation was called %d times", st.seen.called)
		return nil
	}
	if outcome == oPanic {
		if c == nil || c.V != any(panicValue) {
			fail("panic lost or changed")
			return nil
		}
	} else if c != nil || !sameAll(res, st.res) {
		fail("returned %s, the implementation returned %s", show(res), show(st.res))
		return nil
	}
	if !s.Ctx {
		if len(decCalls[id]) > 0 {
			fail("the span decorator ran for a method without context")
		}
		return x
	}
	if st.seen.tag != any(tag) {
		fail("the implementation's context is not derived from the caller's")
		return nil
	}
	x.traced = true
	x.id = st.seen.id
	if x.id == nil || x.id == x.parent || !st.seen.live {
		if d.Template == "elasticapm" && depth == 0 {
			x.traced = false // nothing to be a child of: the library records no span
			return x
		}
		fail("the context given to the implementation carries no running span of its own")
		return nil
	}
	dc := decCalls[id]
	if decMode == decSet && d.Template != "elasticapm" {
		if len(dc) != 1 {
			fail("the span decorator ran %d times", len(dc))
			return nil
		}
		if dc[0].id != x.id || !dc[0].live {
			fail("the span decorator got another or an ended span")
			return nil
		}
		if m := holds(dc[0].params, args, s.PNames, 1); m != "" {
			fail("params %s", m)
			return nil
		}
		var rn []string
		if s.Err {
			rn = make([]string, len(st.res))
			rn[len(rn)-1] = "err"
		}
		if m := holds(dc[0].results, st.res, rn, 0); m != "" {
			fail("results %s", m)
			return nil
		}
	}
	return x
}

// wellNamed compares a span name with "prefix.Method"; {P} in the prefix stands for any qualifier.
func wellNamed(name, pre, method string) bool {
	head, tail, any := strings.Cut(pre, "{P}")
	if !any {
		return name == pre+"."+method
	}
	tail += "." + method
	if !strings.HasPrefix(name, head) || !strings.HasSuffix(name, tail) || len(name) < len(head)+len(tail) {
		return false
	}
	mid := name[len(head) : len(name)-len(tail)]
	return mid == "" || strings.HasSuffix(mid, ".")
}

// finish compares every recorded span with the calls.
func finish(d Dec, xs []*expect, tag map[*expect]int) {
	cur.leaveParents()
	got := cur.ended()
	n := 0
	pre, kind, _ := strings.Cut(d.Doc, "|")
	for _, x := range xs {
		if x == nil {
			return
		}
		if !x.traced {
			continue
		}
		n++
		fail := func(f string, a ...any) { vrt.Fail("%s: %s", what(d, x.s), fmt.Sprintf(f, a...)) }
		var s *span
		for i := range got {
			if got[i].id == x.id {
				s = &got[i]
			}
		}
		if s == nil {
			fail("its span never ended")
			return
		}
		if s.ends != 1 {
			fail("its span ended %d times", s.ends)
			return
		}
		if s.parent != x.parent {
			fail("its span is not a child of the caller's span")
			return
		}
		if !wellNamed(s.name, pre, x.s.Name) {
			fail("its span is named %q, want %s.%s", s.name, pre, x.s.Name)
			return
		}
		if d.Template == "opentelemetry" && s.tracer != "inst" {
			fail("its span is made by tracer %q, want the instance name", s.tracer)
			return
		}
		if d.Template == "elasticapm" && s.kind != kind {
			fail("its span has type %q, want %q", s.kind, kind)
			return
		}
		wantErr := x.outcome == oErr && (decMode != decSet || d.Template == "elasticapm")
		if s.failed != wantErr {
			fail("outcome %d, error recorded on the span: %v", x.outcome, s.failed)
			return
		}
		if wantErr && !strings.Contains(s.text, x.err.Error()) {
			fail("the recorded error does not say what failed: %q", s.text)
			return
		}
	}
	others := 0
	for _, g := range got {
		if g.name == "caller" {
			others++
		}
	}
	if len(got)-others != n {
		vrt.Fail("%s/%s: %d spans for %d traced calls", d.Mode, d.ID, len(got)-others, n)
	}
}

func outcomes(s *Shape) []int {
	o := []int{oOK, oNil, oPanic}
	if s.Err {
		o = append(o, oErr)
	}
	return o
}

func start(d Dec) svc.Svc {
	d.Reset()
	cur = worlds[d.Template]
	cur.reset()
	states, decCalls = map[int]*state{}, map[int][]decCall{}
	return d.New(&Base{base})
}

func pick(l []int, w string) int { return l[vrt.Choose(len(l), w)] }

func scenarios(tier string) []Scenario {
	var out []Scenario
	for di := range decs {
		d := decs[di]
		depths := []int{0, 1, 2}
		if d.Template == "elasticapm" {
			depths = []int{1, 2}
		}
		modes := []int{decNone, decNil, decSet}
		if d.Template == "elasticapm" {
			modes = []int{decNone}
		}
		for si := range shapes {
			s := &shapes[si]
			out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + s.Name, Ex: vrt.Explorer{Preempt: 0},
				Body: func() {
					decMode = pick(modes, "span decorator")
					dec := start(d)
					depth := 0
					if s.Ctx {
						depth = pick(depths, "caller spans")
					}
					tag := map[*expect]int{}
					var xs []*expect
					n := 1
					if len(s.Params) < 2 && tier == "thorough" || len(s.Params) == 0 {
						n = 2
					}
					for k := 0; k < n; k++ {
						x := one(d, dec, s, pick(arities(s), "arity"), pick(outcomes(s), "outcome"), 7+20*k, depth, false)
						tag[x] = 7 + 20*k
						xs = append(xs, x)
					}
					finish(d, xs, tag)
				}})
		}
		var few []*Shape
		for si := range shapes {
			if s := &shapes[si]; len(s.Params) == 1 && s.Ctx && len(few) < 3 && (s.Err || len(few) > 0) {
				few = append(few, s)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				a, b := few[i], few[j]
				out = append(out, Scenario{Name: d.Mode + "/" + d.ID + "/" + a.Name + "||" + b.Name, Ex: vrt.Explorer{Preempt: -1},
					Body: func() {
						decMode = pick(modes, "span decorator")
						dec := start(d)
						tag := map[*expect]int{}
						var xs []*expect
						run := func(s *Shape, t int) {
							x := one(d, dec, s, 1, pick(outcomes(s), "outcome"), t, 1, true)
							tag[x] = t
							xs = append(xs, x)
						}
						vrt.GoNamed("caller 2", func() { run(b, 40) })
						run(a, 7)
						vrt.Sleep(1e9)
						if len(xs) == 2 {
							finish(d, xs, tag)
						} else {
							vrt.Fail("a call never returned")
						}
					}})
			}
		}
	}
	return out
}
