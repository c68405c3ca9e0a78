package main

import (
	"fmt"
	"unsafe"
)

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// show makes a replay print what happens.
var show bool

const histories = "Each run draws one history (1..40 steps, swarm-selected request kinds, schema settings and cache threshold) from a generator seeded with (VERIF_SEED, run number). "

// rules says how runs are made and when one counts.
var rules = map[string]string{
	"C01": histories + "Every request's answer is compared with the answer of a fresh server. Nontrivial: an answer given after at least one other request was compared. Distinct: by the digest of all answers, callbacks and statement counts.",
	"C02": histories + "One server per cache threshold (off, 0, 1, as drawn) serves the same history; thresholds change in between and histories beyond the cache's capacity are drawn. Nontrivial: a query was remembered and served again.",
	"C03": histories + "Steps take copies of any instance at any time; every answer of every instance is compared with a fresh server. Nontrivial: an answer of a copy was compared.",
	"C04": "Each run draws 2..4 copies with a request list each and a schedule: a list of context switches after a drawn number of library statements or at callbacks. Simulated threads run one at a time under that schedule, in the plain build (answers, calls and traces compared with a single-threaded run) and in the race detector's build, where only the library's own synchronisation is visible to the detector. Nontrivial: at least one switch happened inside of a request. Distinct: by digest; interleavings by the hash of (thread, next thread, statement count) of every switch.",
	"C05": histories + "Planned panics strike in resolvers, directives, form lookups, Go contexts and error values. Every later answer is compared with a fresh server. Nontrivial: user code panicked.",
	"C06": "Each run draws requests of every kind and damages most of them on the way to the server: truncated, corrupted, duplicated, reordered, spliced or inserted bytes, wrong transports, absurd sizes and nesting. Nontrivial: an answer that reports errors was judged.",
	"C07": histories + "A reference model predicts data, errors, paths and callbacks with resolver errors planned at drawn calls. Nontrivial: a resolver returned an error.",
	"C08": histories + "The Go context ends by cancellation in a callback, at a drawn library statement, by a deadline on the simulated clock, or is replaced; the reference model predicts the answer. Nontrivial: the context ended while a callback ran or between two statements.",
	"C09": histories + "The reference model predicts every callback, in order, and the order of the members of the response. Nontrivial: more than three callbacks or a directive that skipped.",
	"C10": "Each run sends the same requests alone, in batches and over every transport, with damaged items and failing form lookups. Nontrivial: a batch of several items or two transports were compared.",
	"C11": histories + "The reference model predicts every argument; arguments are kept and compared again at the end of the run, after garbage collections. Nontrivial: a callback with arguments, or a rejected argument.",
	"C12": histories + "The host's form lookup delivers, fails, or is missing; the reference model predicts the callbacks and errors. Nontrivial: a file was looked up.",
	"C13": histories + "Resolvers take simulated time, the wall clock jumps; the reference model and the recorded start and end of each callback predict the trace. Nontrivial: a traced request that took time.",
	"C14": histories + "Introspection questions are asked at drawn moments over seven routes and their answers, piece by piece, compared with each other and with those of a fresh server. Nontrivial: an answer after other requests was compared.",
	"C15": histories + "Two to five servers are built from the same code, each with its own order of map iterations, and must answer with equal bytes. Nontrivial: answers of servers with different orders were compared.",
	"C16": histories + "Resolvers set values and contexts at drawn calls, hosts supply some, nested and batched requests share neither; the reference model predicts what every callback sees. Nontrivial: a request with callbacks and values or planned acts.",
	"C17": "Each run draws queries nested right at, below and beyond the maximum depth through fields, lists, interfaces and fragments (also fragments that include themselves) over endless data; served ones are compared with the model, refused ones must be cheap. Nontrivial: a query at or beyond the limit was judged.",
	"C18": "Each run serves thousands of different requests of one of four kinds in batches and measures the heap in use after a collection: it must reach a plateau, and new queries must still be remembered. Nontrivial: a plateau was measured.",
}

var common = []string{
	"user code is deterministic and does not share state between requests",
	"the instrumentation (a counter before each statement, a simulated clock, seeded map order) does not change what the library does",
	"search, not proof: only the drawn runs were judged",
}

func assume(more ...string) []string { return append(append([]string{}, common...), more...) }

var assumptions = map[string][]string{
	"C01": assume("a fresh server is the reference for what a request's answer should be"),
	"C02": assume("a server that never remembers a query is the reference"),
	"C03": assume("a fresh server is the reference"),
	"C04": assume("interleavings switch between statements, not within one; accesses within a statement are covered by the race detector's happens-before analysis"),
	"C05": assume("the host recovers the panic outside of the library and does not use the aborted request's context again"),
	"C06": assume("bounded work means at most 30 million + 2000 statements per byte of the request (C17 judges nesting more closely)"),
	"C07": assume("the reference model (sim/model.go) states the intended meaning of a request"),
	"C08": assume("the reference model (sim/model.go) states the intended meaning of a request", "when a context ends between two library statements, the field being completed may count as returned before or after it"),
	"C09": assume("the reference model (sim/model.go) states the intended meaning of a request"),
	"C10": assume("a batch whose JSON cannot be read as a whole is out of scope: it is answered as one malformed request"),
	"C11": assume("the reference model (sim/model.go) states the intended meaning of a request"),
	"C12": assume("the reference model (sim/model.go) states the intended meaning of a request"),
	"C13": assume("the simulated clock advances only in callbacks and at drawn library statements"),
	"C14": assume(),
	"C15": assume("Go's map iteration is the only source of randomness in the library"),
	"C16": assume("values a host passes in its own map for a single request are that request's"),
	"C17": assume("bounded work means a number of statements proportional to the request's size and the maximum depth"),
	"C18": assume("the heap after two garbage collections is what the instance keeps"),
}

func showOutcome(step int, q *ReqSpec, o *Outcome) {
	fmt.Printf("--- step %d via %q op %q ctx %q\n", step, q.Via, q.Op, q.Ctx)
	if q.Body != nil || len(q.Items) > 0 {
		fmt.Printf("  body  %s\n", cl(string(q.body()), 3000))
	} else {
		fmt.Printf("  query %s\n", cl(string(q.query()), 3000))
		fmt.Printf("  vars  %s\n", cl(q.variables(), 1000))
	}
	for _, a := range q.Plan {
		fmt.Printf("  plan  %+v\n", a)
	}
	for _, a := range q.Net {
		fmt.Printf("  net   %+v\n", a)
	}
	for _, c := range o.Log {
		fmt.Printf("  call  %d-%d %s\n", c.T0, c.T1, cl(c.String(), 300))
	}
	fmt.Printf("  errs  %q\n  panic %q\n  steps %d\n  answer %s\n", o.Errs, o.Panic, o.Steps, cl(string(o.Body), 3000))
}
