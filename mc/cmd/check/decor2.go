package main

import (
	"fmt"

	"verifmc/lib"
)

func init() {
	checks["D09"] = check{"model_checking", func(r *lib.Run) {
		sh := matrix(allParams, allResults, style, r.Thorough())
		r.Set("bounds", fmt.Sprintf("log and logrus x %d method shapes x same/cross package x DecoratorName set or not x arity x outcome value/zero/error/panic, two calls in sequence; two concurrent callers, every interleaving", len(sh)))
		r.RunDecor(lib.DecorSpec{Shapes: sh, Dir: "d09", Modes: []string{"cross", "same"}, Decs: []lib.Decor{
			{Template: "log", Doc: "SvcWithLog", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithLog(b, outW(), errW()) }`},
			{Template: "logrus", Doc: "SvcWithLogrus", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithLogrus(b, logEntry()) }`},
			{Template: "log", ID: "log2", Vars: []string{"DecoratorName=Chatty"}, Modes: []string{"cross"}, Doc: "Chatty", Ctor: `func(b svc.Svc) svc.Svc { return P.NewChatty(b, outW(), errW()) }`},
			{Template: "logrus", ID: "logrus2", Vars: []string{"DecoratorName=Chatty"}, Modes: []string{"cross"}, Iface: "UserStore", Doc: "Chatty", Ctor: `func(b svc.Svc) svc.Svc { return P.NewChatty(b, logEntry()) }`},
		}})
	}}
	checks["D10"] = check{"model_checking", func(r *lib.Run) {
		sh := matrix(allParams, allResults, style, r.Thorough())
		r.Set("bounds", fmt.Sprintf("%d method shapes x MetricName/DecoratorName variants x outcome ok/error/panic x latency 0/1.5s x two instances; every history of 4 (6 thorough) calls over 2 methods, 2 instances, 2 outcomes; two concurrent callers, every interleaving", len(sh)))
		r.RunDecor(lib.DecorSpec{Shapes: sh, Dir: "d10", Modes: []string{"cross"}, Decs: []lib.Decor{
			{Template: "prometheus", ID: "p1", Doc: "svc_duration_seconds", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithPrometheus(b, instance) }`},
			{Template: "prometheus", ID: "p2", Modes: []string{"same"}, Vars: []string{"MetricName=my_metric"}, Doc: "my_metric", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithPrometheus(b, instance) }`},
			{Template: "prometheus", ID: "p3", Iface: "UserStore", Vars: []string{"DecoratorName=Metered"}, Doc: "userstore_duration_seconds", Ctor: `func(b svc.Svc) svc.Svc { return P.NewMetered(b, instance) }`},
		}})
	}}
}

// product lists all sequences of the letters with the given lengths.
func product(letters []string, min, max int) [][]string {
	var out [][]string
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) >= min {
			out = append(out, append([]string{}, p...))
		}
		if len(p) == max {
			return
		}
		for _, l := range letters {
			rec(append(p, l))
		}
	}
	rec(nil)
	return out
}

const validTypes = `
// Hook decides every validation.
var Hook func(id int) error

// V validates itself by value.
type V struct{ ID int }

func (v V) Validate() error { return Hook(v.ID) }

// PV validates itself by pointer; a nil one is valid.
type PV struct{ ID int }

func (v *PV) Validate() error {
	if v == nil {
		return nil
	}
	return Hook(v.ID)
}

// VI is an interface that validates.
type VI interface{ Validate() error }

// L is a slice that validates itself.
type L []int

func (l L) Validate() error { return Hook(l[0]) }

// N cannot validate itself.
type N struct{ ID int }
`

func init() {
	checks["D12"] = check{"model_checking", func(r *lib.Run) {
		var sh []lib.Shape
		ps := product([]string{"ty.V", "*ty.PV", "ty.VI", "ty.N", "interface{}"}, 0, 2)
		if r.Thorough() {
			ps = product([]string{"ty.V", "*ty.PV", "ty.VI", "ty.N", "interface{}"}, 0, 3)
		} else {
			ps = append(ps, product([]string{"ty.V", "*ty.PV", "ty.N"}, 3, 3)...)
		}
		ps = append(ps, []string{"ty.L"}, []string{"int", "ty.L"})
		for i, p := range ps {
			pn := []string{"a", "b", "c"}[:len(p)]
			if i%3 == 0 {
				pn = nil
			}
			s := lib.Shape{Name: fmt.Sprintf("E%d", i), Params: p, Err: "err", PNames: pn, Results: [][]string{{"int"}, {}, {"*ty.T", "string"}}[i%3]}
			if len(s.Results) > 0 || pn == nil {
				s.Err = "_"
			}
			if i%2 == 0 {
				s.Ctx = "ctx"
				if pn == nil || i%4 == 0 {
					s.Ctx = "c9"
				}
			}
			sh = append(sh, s)
			if i%5 == 0 || len(p) == 1 {
				s.Name, s.Err = fmt.Sprintf("X%d", i), ""
				sh = append(sh, s)
			}
		}
		r.Set("bounds", fmt.Sprintf("validate, twirp_validate, grpc_validate x %d methods with every list of up to 3 parameters over validating value/pointer/interface/slice and non-validating types x every combination of valid/invalid/nil/other per argument x message x implementation outcome; two concurrent callers, every interleaving", len(sh)))
		r.RunDecor(lib.DecorSpec{Shapes: sh, Dir: "d12", Modes: []string{"cross", "same"}, TyExtra: validTypes, Decs: []lib.Decor{
			{Template: "validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithValidation")},
			{Template: "twirp_validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithTwirpValidation")},
			{Template: "grpc_validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithGRPCValidation")},
		}})
	}}
	checks["D13"] = check{"model_checking", func(r *lib.Run) {
		sh := matrix(append(allParams, []string{"map[string]int"}, []string{"...interface{}"}), allResults, style, r.Thorough())
		r.Set("bounds", fmt.Sprintf("%d method shapes x same/cross package x arity x {nil, plain error, twirp error, twirp error with metadata, panic}, two calls in sequence; two concurrent callers, every interleaving", len(sh)))
		r.RunDecor(lib.DecorSpec{Shapes: sh, Dir: "d13", Modes: []string{"cross", "same"}, Decs: []lib.Decor{
			{Template: "twirp_error", Ctor: fmt.Sprintf(ctorBase, "SvcWithTwirpError")},
			{Template: "twirp_error", ID: "te2", Modes: []string{"cross"}, Vars: []string{"DecoratorName=Deco"}, Iface: "UserStore", Ctor: fmt.Sprintf(ctorBase, "Deco")},
		}})
	}}
}

func init() {
	checks["D11"] = check{"model_checking", func(r *lib.Run) {
		sh := matrix(allParams, allResults, style, r.Thorough())
		r.Set("bounds", fmt.Sprintf("opentracing, opencensus, opentelemetry (stand-in API), elasticapm x %d method shapes x same/cross package x naming variables x span decorator absent/nil/set x caller without span/with a span/with nested spans x arity x outcome value/zero/error/panic; two concurrent callers, every interleaving", len(sh)))
		both := []string{"cross", "same"}
		one := []string{"cross"}
		ot := func(c, f string) string {
			return `func(b svc.Svc) svc.Svc { return P.New` + c + `(b, "inst", ` + f + `()...) }`
		}
		r.RunDecor(lib.DecorSpec{Shapes: sh, Dir: "d11", Modes: both, Decs: []lib.Decor{
			{Template: "opentracing", Doc: "inst.{P}Svc", Ctor: ot("SvcWithTracing", "otDecs")},
			{Template: "opentracing", ID: "ot2", Modes: one, Iface: "UserStore", Vars: []string{"DecoratorName=Deco"}, Doc: "inst.{P}UserStore", Ctor: ot("Deco", "otDecs")},
			{Template: "opencensus", Doc: "inst.{P}Svc", Ctor: ot("SvcWithTracing", "ocDecs")},
			{Template: "opencensus", ID: "oc2", Modes: one, Iface: "UserStore", Vars: []string{"DecoratorName=Deco"}, Doc: "inst.{P}UserStore", Ctor: ot("Deco", "ocDecs")},
			{Template: "opentelemetry", Doc: "Svc", Ctor: ot("SvcWithTracing", "oteDecs")},
			{Template: "opentelemetry", ID: "ote2", Modes: one, Iface: "UserStore", Vars: []string{"DecoratorName=Deco", "SpanNamePrefix=pre.fix"}, Doc: "pre.fix", Ctor: ot("Deco", "oteDecs")},
			{Template: "elasticapm", Doc: "svc|svc", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcAPMTracing(b) }`},
			{Template: "elasticapm", ID: "apm2", Modes: one, Vars: []string{"DecoratorName=Deco", "ComponentName=comp"}, Doc: "comp|custom", Ctor: `func(b svc.Svc) svc.Svc { return P.NewDeco(b, P.DecoWithUsingSetLabel(), P.DecoWithSpanType("custom")) }`},
		}})
	}}
}
