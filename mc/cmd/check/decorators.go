package main

import "verifmc/lib"

func harness(h lib.Harness) check {
	return check{"model_checking", func(r *lib.Run) {
		r.Set("bounds", h.Bounds)
		r.RunHarness(h)
	}}
}

func init() {
	checks["D02"] = harness(lib.Harness{Template: "fallback", Dir: "fallback",
		Bounds: "12 method shapes, 1-3 implementations, every combination of latency and outcome per implementation from the listed sets, caller context none/cancelled/deadline, every interleaving (partial-order reduced)"})
	checks["D03"] = harness(lib.Harness{Template: "retry", Dir: "retry",
		Bounds: "12 method shapes, retry counts -1..3 (5 thorough), every latency/outcome sequence from the listed sets, context ending at six instants, every interleaving; two concurrent callers"})
	checks["D04"] = harness(lib.Harness{Template: "circuitbreaker", Dir: "circuitbreaker",
		Bounds: "every operation sequence up to the stated depth against a reference breaker; 2-3 concurrent callers, every schedule within the preemption bound, linearizability of checks and outcomes"})
	checks["D05"] = harness(lib.Harness{Template: "ratelimit", Dir: "ratelimit",
		Bounds: "burst 0-2, up to 4 callers, every combination of arrival and cancellation instants from the listed sets, every interleaving"})
	checks["D06"] = harness(lib.Harness{Template: "syncpool", Dir: "syncpool",
		Bounds: "1-3 implementations, up to 4 callers, every latency/panic combination, every interleaving"})
	checks["D07"] = harness(lib.Harness{Template: "robinpool", Dir: "robinpool",
		Bounds: "1-3 implementations, up to 3 threads x 2 calls, every interleaving; sequential runs across the wrap of a 32-bit counter"})
	checks["D08"] = harness(lib.Harness{Template: "timeout", Dir: "timeout",
		Bounds: "12 method shapes, timeouts negative/zero/positive, caller deadline/cancellation/values, implementation latency, panics, two concurrent callers, every interleaving"})
}
