package main

import (
	"fmt"

	"verifmc/lib"
)

// matrix makes methods from every combination of context, parameters, results and error.
func matrix(params, results [][]string, naming func(i int) (pn, rn, ctx, err bool), both bool) []lib.Shape {
	var out []lib.Shape
	i := 0
	pnames := []string{"a", "b", "c", "d"}
	rnames := []string{"x", "y", "z"}
	for _, ps := range params {
		for _, rs := range results {
			for _, ctx := range []bool{false, true} {
				for _, er := range []bool{false, true} {
					for v := 0; v < 2; v++ {
						if v == 1 && !both {
							continue
						}
						pn, rn, cn, en := naming(i + v)
						s := lib.Shape{Name: fmt.Sprintf("M%d", i), Params: ps, Results: rs}
						if v == 1 {
							s.Name += "b"
						}
						if pn && len(ps) > 0 {
							s.PNames = pnames[:len(ps)]
						}
						if ctx {
							s.Ctx = "_"
							if pn {
								s.Ctx = "c9"
								if cn {
									s.Ctx = "ctx"
								}
							}
						}
						if rn && len(rs) > 0 {
							s.RNames = rnames[:len(rs)]
						}
						if er {
							s.Err = "_"
							if rn {
								s.Err = "err"
								if en {
									s.Err = "e"
								}
							}
							if len(rs) > 0 && rn && s.Err == "_" {
								s.Err = "err"
							}
						}
						out = append(out, s)
					}
					i++
				}
			}
		}
	}
	return out
}

// style mixes naming styles so that every pair of choices occurs.
func style(i int) (pn, rn, ctx, err bool) { return i%2 == 1, i%3 == 1, i%5 < 2, i%7 < 3 }

const (
	ctorBase = `func(b svc.Svc) svc.Svc { return P.New%s(b) }`
)

var modelDecs = []lib.Decor{
	{Template: "circuitbreaker", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithCircuitBreaker(b, 50, 5000000000) }`},
	{Template: "fallback", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithFallback(5000000000, b) }`},
	{Template: "ratelimit", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithRateLimit(b, 5, 1) }`},
	{Template: "retry", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithRetry(b, 1, 1000000000) }`},
	{Template: "robinpool", Ctor: `func(b svc.Svc) svc.Svc { return P.MustNewSvcRoundRobinPool(b, b) }`},
	{Template: "syncpool", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcPool(b, b) }`},
	{Template: "timeout", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithTimeout(b, P.SvcWithTimeoutConfig{}) }`},
}

var realDecs = []lib.Decor{
	{Template: "elasticapm", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcAPMTracing(b) }`},
	{Template: "grpc_validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithGRPCValidation")},
	{Template: "log", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithLog(b, io.Discard, io.Discard) }`},
	{Template: "logrus", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithLogrus(b, quietLogrus()) }`},
	{Template: "opencensus", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithTracing(b, "inst") }`},
	{Template: "opentelemetry", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithTracing(b, "inst") }`},
	{Template: "opentracing", Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithTracing(b, "inst") }`},
	{Template: "prometheus", Vars: []string{"MetricName=m_{mode}"}, Ctor: `func(b svc.Svc) svc.Svc { return P.NewSvcWithPrometheus(b, "inst") }`},
	{Template: "twirp_error", Ctor: fmt.Sprintf(ctorBase, "SvcWithTwirpError")},
	{Template: "twirp_validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithTwirpValidation")},
	{Template: "validate", Ctor: fmt.Sprintf(ctorBase, "SvcWithValidation")},
}

var allParams = [][]string{{}, {"int"}, {"int", "int"}, {"string", "*ty.T", "[]byte"}, {"...string"}, {"int", "...*ty.T"}, {"interface{}", "error", "func() int"}, {"...interface{}"}}
var allResults = [][]string{{}, {"int"}, {"int", "int"}, {"*ty.T", "string"}, {"error", "int"}, {"interface{}"}}

func init() {
	checks["D01"] = check{"model_checking", func(r *lib.Run) {
		sh := matrix(allParams, allResults, style, r.Thorough())
		r.Set("bounds", fmt.Sprintf("%d method shapes x 18 templates x same/cross package x variadic arity nil,0,1,2 x outcome value/zero/error/panic, two calls in sequence for small shapes; two concurrent callers, preemption bound 3", len(sh)))
		modes := []string{"cross", "same"}
		r.RunDecor(lib.DecorSpec{Decs: modelDecs, Modes: modes, Shapes: sh, Model: true, Dir: "d01"})
		r.RunDecor(lib.DecorSpec{Decs: realDecs, Modes: modes, Shapes: sh, Dir: "d01", Extra: []string{"sinks"}, Imports: []string{`"io"`}})
	}}
}
