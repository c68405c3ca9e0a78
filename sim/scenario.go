package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/mjarkk/yarql/verifsim"
)

// Scenario is one simulated run: everything that happens in it. It is a pure
// function of (property, seed, tier), never of the code under test.
type Scenario struct {
	Prop    string     `json:"prop"`
	Seed    uint64     `json:"seed"`
	Kind    string     `json:"kind,omitempty"`
	Cfg     schemaCfg  `json:"cfg"`
	Steps   []Step     `json:"steps"`
	Workers [][]Step   `json:"workers,omitempty"`
	Subs    []*ReqSpec `json:"subs,omitempty"` // requests that resolvers make on another copy
	Sched   []Switch   `json:"sched,omitempty"`
	Seeds   []uint64   `json:"mapseeds,omitempty"` // of further servers
	N       int        `json:"n,omitempty"`
	Hot     bool       `json:"hot,omitempty"`
	Text    string     `json:"text,omitempty"`
}

// Step is one thing a host does.
type Step struct {
	Op    string   `json:"op"` // req, copy, cache, fill, gc
	On    int      `json:"on,omitempty"`
	N     int      `json:"n,omitempty"`
	To    int      `json:"to,omitempty"`
	Req   *ReqSpec `json:"req,omitempty"`
	NoCmp bool     `json:"nocmp,omitempty"`
	Times int      `json:"times,omitempty"` // the request has been served so many times before
}

// runner executes one scenario.
type runner struct {
	sc       *Scenario
	insts    []*inst
	viol     string
	class    string
	step     int
	nontriv  bool
	digest   uint64
	requests int64
	calls    int64
	steps    int64
	maxSteps int64
	simTime  int64
	sched    uint64
	switches int64
	retain   []retained
	held     []heldErr
	static   *static
}

type heldErr struct {
	errs []error
	want []string
	step int
}

// fail records a violation; the first one counts.
func (x *runner) fail(class, format string, a ...interface{}) {
	if x.viol == "" {
		x.class = class
		x.viol = fmt.Sprintf(format, a...)
		if x.step >= 0 {
			x.viol = fmt.Sprintf("step %d: ", x.step) + x.viol
		}
	}
}

func (x *runner) hit(name string) {
	x.nontriv = true
	probe("hit." + name)
}

// rec takes an outcome into account.
func (x *runner) rec(o *Outcome) {
	x.requests++
	x.calls += int64(len(o.Log))
	x.steps += o.Steps
	if o.Steps > x.maxSteps {
		x.maxSteps = o.Steps
	}
	x.simTime += o.Elapsed
	h := mixs(x.digest, string(o.Body))
	h = mixs(h, o.Panic)
	for _, e := range o.Errs {
		h = mixs(h, e)
	}
	for _, c := range o.Log {
		h = mixs(h, c.String())
	}
	x.digest = mix(h, uint64(o.Steps))
	if o.Panic != "" {
		probe("seen.panic")
	}
	if len(o.Errs) > 0 {
		probe("seen.errors")
	}
}

func (x *runner) exec(in *inst, q *ReqSpec, o execOpts) *Outcome {
	for _, i := range x.insts {
		if i == in {
			o.static = x.static
		}
	}
	out := in.exec(q, o)
	x.rec(out)
	if show {
		showOutcome(x.step, q, out)
	}
	return out
}

// fresh is a new server.
func (x *runner) fresh() *inst {
	c := x.sc.Cfg
	return buildSchema(&c)
}

// subFunc serves the nested requests of resolvers on an instance of its own.
func (x *runner) subFunc(in *inst) func(n int) string {
	return func(n int) string {
		if len(x.sc.Subs) == 0 {
			return ""
		}
		syncOn() // the nested request's own synchronisation counts
		defer syncOff()
		q := x.sc.Subs[n%len(x.sc.Subs)]
		o := in.exec(q, execOpts{})
		return sprint("%s|%s|%s|%d", o.Body, o.Panic, strings.Join(o.Errs, ";"), len(o.Log))
	}
}

// do executes the steps that are no requests. It reports whether the step was one of them.
func (x *runner) do(s *Step) bool {
	switch s.Op {
	case "req":
		return false
	case "copy":
		src := s.On % len(x.insts)
		c := x.insts[src].copy()
		if s.To > 0 && s.To < len(x.insts) {
			x.insts[s.To] = c
		} else {
			x.insts = append(x.insts, c)
		}
		probe("op.copy")
	case "cache":
		x.insts[s.On%len(x.insts)].setCache(s.N)
		probe("op.cache")
	case "limit":
		x.insts[s.On%len(x.insts)].setLimit(s.N)
		probe("op.limit")
	case "fill":
		x.fill(x.insts[s.On%len(x.insts)], s.N, s.To)
	case "gc":
		runtime.GC()
		probe("op.gc")
	default:
		harnessFail("step %q", s.Op)
	}
	return true
}

// fillQuery is a cheap query, different from all others, of a chosen length.
func fillQuery(i, length int) *ReqSpec {
	head := fmt.Sprintf("{f%07d:title}", i)
	if n := length - len(head) - 1; n > 0 {
		head += "#" + strings.Repeat("p", n)
	}
	return &ReqSpec{RawB: []byte(head)}
}

// fill serves n different long queries.
func (x *runner) fill(in *inst, n, from int) {
	for i := 0; i < n; i++ {
		x.exec(in, fillQuery(from+i, 60+(from+i)*7%331), execOpts{})
	}
	probeN("op.fill", int64(n))
}

// result is what a run yields.
type result struct {
	Violation string
	Class     string
	Nontriv   bool
	Digest    uint64
	Print     uint64 // fingerprint of what the library did
	Sched     uint64
	Switches  int64
	Requests  int64
	Calls     int64
	Steps     int64
	MaxSteps  int64
	SimTime   int64
}

// runScenario executes a scenario and applies the property's oracle.
func runScenario(sc *Scenario) (res result) {
	x := &runner{sc: sc, step: -1, static: newStatic()}
	verifsim.Cov = [len(verifsim.Cov)]uint32{}
	setMapSeed(mix(sc.Seed, 9))
	func() {
		defer func() {
			if p := recover(); p != nil {
				x.fail("outside", "panic outside of a request: %v\n%s", p, debug.Stack())
				// the kernel's state is that of an interrupted request
				cur = mainWorker
				cur.run, cur.depth, sched = nil, 0, nil
				verifsim.Next = never
			}
		}()
		oracle := oracles[sc.Prop]
		if oracle == nil {
			harnessFail("no property %q", sc.Prop)
		}
		oracle(x)
	}()
	var fp uint64
	for i, c := range verifsim.Cov {
		if c != 0 {
			fp = mix(fp, uint64(i)<<8|uint64(bits.Len32(c)))
		}
	}
	return result{x.viol, x.class, x.nontriv, x.digest, fp, x.sched, x.switches, x.requests, x.calls, x.steps, x.maxSteps, x.simTime}
}

func scenarioFor(prop string, seed uint64, tier string) *Scenario {
	g := generators[prop]
	if g == nil {
		harnessFail("no property %q", prop)
	}
	r := newRand(mixs(seed, prop+"/"+tier))
	sc := &Scenario{Prop: prop, Seed: seed}
	sc.Cfg.World = uint64(r.n(40))
	if appProps[prop] && r.p(1, 3) {
		sc.Cfg.World |= uint64(r.n(2)+1) << 32
		if r.p(2, 3) {
			sc.Cfg.World = sc.Cfg.World&0xffffffff | 1<<32
		}
	}
	genWorld = sc.Cfg.World
	sc.Cfg.MapSeed = r.u64() >> 1
	g(r, sc, tier == "thorough")
	return sc
}

func (sc *Scenario) json() []byte {
	b, err := json.MarshalIndent(sc, "", " ")
	if err != nil {
		harnessFail("%v", err)
	}
	return b
}
