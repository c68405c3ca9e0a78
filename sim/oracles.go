package main

import (
	"bytes"
	"encoding/json"
	"runtime"
	"sort"
	"strings"

	"github.com/mjarkk/yarql/verifsim"
)

// The properties' workloads and oracles.

var generators map[string]func(r *Rand, sc *Scenario, thorough bool)
var oracles map[string]func(x *runner)

func init() {
	generators = map[string]func(r *Rand, sc *Scenario, thorough bool){
		"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06,
		"C07": genModel, "C08": genModel, "C09": genModel, "C11": genModel, "C12": genModel, "C13": genModel, "C16": genModel,
		"C10": genC10, "C14": genC14, "C15": genC15, "C17": genC17, "C18": genC18,
	}
	oracles = map[string]func(x *runner){
		"C01": runGolden, "C02": runC02, "C03": runGolden, "C04": runC04, "C05": runGolden, "C06": runC06,
		"C07": runModel, "C08": runModel, "C09": runModel, "C11": runModel, "C12": runModel, "C13": runModel, "C16": runModel,
		"C10": runC10, "C14": runC14, "C15": runC15, "C17": runC17, "C18": runC18,
	}
}

// ---- scenario parts ----

func randCfg(r *Rand, sc *Scenario) {
	if r.p(1, 2) {
		sc.Cfg.MaxDepth = pick(r, []int{4, 5, 6, 8, 12, 20, 40})
	}
	if r.p(2, 3) {
		n := pick(r, []int{0, 1, 20, 60, 150})
		sc.Cfg.Cache = &n
	}
	if r.p(1, 12) {
		sc.Cfg.NoIntro = true
	}
}

func cloneReq(q *ReqSpec) *ReqSpec {
	b, err := json.Marshal(q)
	if err != nil {
		harnessFail("%v", err)
	}
	c := &ReqSpec{}
	if err := json.Unmarshal(b, c); err != nil {
		harnessFail("%v", err)
	}
	return c
}

// variant is a request that is nearly one that was sent before.
func variant(r *Rand, q *ReqSpec, cfg *schemaCfg) *ReqSpec {
	c := cloneReq(q)
	switch r.n(7) {
	case 0: // exactly the same
	case 1: // the same text, other faults
		c.Plan = nil
		if c.Doc != nil && c.Ctx != "panics" && r.p(1, 2) {
			someErrs(r, c, calls(c, cfg))
		}
	case 2: // another operation of the same text
		if c.Doc != nil && len(c.Doc.Ops) > 0 {
			c.Op = pick(r, c.Doc.Ops).Name
			c.Plan = nil
		}
	case 3: // another text of the same length
		if c.Doc != nil {
			eachSel(c.Doc, func(s *Sel) {
				if s.Kind == 0 && s.Alias != "" && r.p(1, 2) {
					s.Alias = s.Alias[:len(s.Alias)-1] + pick(r, []string{"a", "b", "c", "_", "9"})
				}
			})
			c.Plan = nil
		}
	case 4:
		if c.Via != "batch" && c.Via != "batchform" && c.Body == nil {
			c.Via = pick(r, []string{"", "", "json", "get"})
			c.NoMeta = false
		}
	case 5:
		c.Tracing = !c.Tracing
	case 6:
		c.Style = uint64(r.n(1 << 20))
	}
	return c
}

// history draws n requests, many of them related to earlier ones.
func history(r *Rand, cfg *schemaCfg, n int, w weights) []*ReqSpec {
	var qs []*ReqSpec
	for i := 0; i < n; i++ {
		if len(qs) > 0 && r.p(1, 4) {
			qs = append(qs, variant(r, pick(r, qs), cfg))
			continue
		}
		qs = append(qs, request(r, w.pick(r), cfg))
	}
	return qs
}

// swarm switches some kinds of requests off.
func swarm(r *Rand, w weights) weights {
	c := weights{}
	for _, k := range sortedKeys(w) {
		if r.p(3, 4) {
			c[k] = w[k]
		}
	}
	if len(c) == 0 {
		return w
	}
	return c
}

func length(r *Rand, thorough bool, lo, hi int) int {
	if thorough && r.p(1, 3) {
		hi *= 4
	}
	return r.rng(lo, hi)
}

// often makes an instance serve some requests many times in a row: counters
// that nobody resets need repetition, narrow ones need 256 of it.
func often(r *Rand, sc *Scenario) {
	if !r.p(1, 8) {
		return
	}
	for k := r.rng(1, 2); k > 0; k-- {
		s := &sc.Steps[r.n(len(sc.Steps))]
		if s.Op == "req" {
			s.Times = pick(r, []int{1, 2, 5, 12, 40, 110, 260})
		}
	}
}

// again serves a request as often as its step says and little work allows.
func (x *runner) again(s *Step, in *inst) {
	work := int64(0)
	for k := 0; k < s.Times && work < 2e6; k++ {
		o := x.exec(in, s.Req, execOpts{})
		work += o.Steps
		x.hit("again")
	}
}

// ---- comparison with a fresh server: C01, C03, C05 ----

func genC01(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	w := swarm(r, everything)
	w["async"] = 1
	for _, q := range history(r, &sc.Cfg, length(r, thorough, 3, 14), w) {
		s := Step{Op: "req", Req: q}
		for _, a := range q.Plan {
			if a.Step {
				s.NoCmp = true
			}
		}
		sc.Steps = append(sc.Steps, s)
		if r.p(1, 25) {
			sc.Steps = append(sc.Steps, Step{Op: "fill", N: r.rng(1, 60), To: r.n(1000)})
		}
		if r.p(1, 25) {
			sc.Steps = append(sc.Steps, Step{Op: "gc"})
		}
	}
	often(r, sc)
}

func genC03(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	w := swarm(r, everything)
	w["intro"] = 5
	w["deep"] += 2
	n := 1
	qs := history(r, &sc.Cfg, length(r, thorough, 4, 14), w)
	for i, q := range qs {
		if i == 0 && r.p(1, 2) || r.p(1, 4) || i == len(qs)-1 && n == 1 {
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: r.n(n)})
			n++
		}
		on := r.n(n)
		if r.p(1, 3) {
			on = n - 1
		}
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, On: on})
		if r.p(1, 30) {
			sc.Steps = append(sc.Steps, Step{Op: "cache", On: r.n(n), N: pick(r, []int{0, 50, 1000})})
		}
		if r.p(1, 15) {
			sc.Steps = append(sc.Steps, Step{Op: "limit", On: r.n(n), N: r.rng(2, 12)})
			if r.p(1, 2) {
				sc.Steps = append(sc.Steps, Step{Op: "copy", On: sc.Steps[len(sc.Steps)-1].On})
				n++
			}
		}
	}
	// the same question to everyone
	q := request(r, pick(r, []string{"intro", "ok", "deep", "err"}), &sc.Cfg)
	for i := 0; i < n; i++ {
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, On: i})
	}
	often(r, sc)
}

func genC05(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	for i := length(r, thorough, 2, 6); i > 0; i-- {
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: request(r, pick(r, []string{"panic", "panic", "panic", "ok", "err", "trace"}), &sc.Cfg)})
		if r.p(1, 4) {
			sc.Steps[len(sc.Steps)-1].Req = batchPanic(r, &sc.Cfg)
		}
		if r.p(1, 10) {
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: 0, To: 0})
		}
		for k := r.rng(1, 2); k > 0; k-- {
			kind := swarm(r, everything).pick(r)
			q := request(r, kind, &sc.Cfg)
			if r.p(1, 4) {
				// the same request again
				q = cloneReq(sc.Steps[r.n(len(sc.Steps))].reqOr(q))
				if r.p(2, 3) {
					q.Plan = nil
					if q.Ctx == "panics" {
						q.Ctx = "live"
					}
					q.FilePl = nil
				}
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: q})
		}
	}
	often(r, sc)
}

func (s *Step) reqOr(q *ReqSpec) *ReqSpec {
	if s.Req != nil {
		return s.Req
	}
	return q
}

// batchPanic is a batch in which an item panics.
func batchPanic(r *Rand, cfg *schemaCfg) *ReqSpec {
	q := batch(r, cfg, weights{"ok": 3, "err": 1})
	n := 1
	for _, it := range q.Items {
		if it.Doc != nil {
			n += predict(it, cfg).n
		}
	}
	q.Plan = append(q.Plan, Act{At: r.n(n), Do: "panic", S: "in a batch", N: int64(r.n(3))})
	return q
}

func runGolden(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	panicked := false
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if x.do(s) {
			continue
		}
		on := s.On % len(x.insts)
		x.again(s, x.insts[on])
		o := x.exec(x.insts[on], s.Req, execOpts{})
		x.hold(o)
		if o.Planned {
			x.hit("panic")
			panicked = true
			if o.Panic == "" {
				x.fail("swallowed", "the panic of user code did not reach the host")
				return
			}
			if !o.PanicOK && !o.Fuel {
				x.fail("changed", "user code's panic reached the host as: %s", o.Panic)
				return
			}
		} else if o.Panic != "" && !o.Fuel && sc.Prop == "C05" {
			x.fail("panic", "the request panics: %s", o.Panic)
			return
		}
		if !s.NoCmp {
			cfg := *x.insts[on].cfg
			g := x.exec(buildSchema(&cfg), s.Req, execOpts{})
			if d := o.same(g); d != "" {
				x.fail("golden", "instance %d: %s", on, d)
				return
			}
			if i > 0 && (sc.Prop != "C05" || panicked) && (sc.Prop != "C03" || on > 0) {
				x.hit("compared")
			}
		}
		if x.checkHeld(); x.viol != "" {
			return
		}
	}
}

// hold keeps the errors handed to the host.
func (x *runner) hold(o *Outcome) {
	if len(o.Raw) > 0 && o.Panic == "" {
		x.held = append(x.held, heldErr{o.Raw, o.Errs, x.step})
	}
}

func (x *runner) checkHeld() {
	for _, h := range x.held {
		for k, e := range h.errs {
			if t := errText(e); t != h.want[k] {
				x.fail("held", "error %d of step %d was %q and is now %q", k, h.step, h.want[k], t)
				return
			}
		}
	}
}

// ---- C02 ----

func genC02(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	n := pick(r, []int{0, 0, 1, 10, 30, 60, 120, 300})
	sc.Cfg.Cache = &n
	if r.p(1, 10) {
		sc.Cfg.Cache = nil
	}
	w := swarm(r, weights{"ok": 8, "err": 3, "net": 2, "junk": 1, "bad": 3, "deep": 2, "intro": 2, "batch": 2, "via": 3, "values": 1, "reject": 1, "file": 1, "cancel": 2, "panic": 1, "trace": 1})
	var pool []*ReqSpec
	for i := r.rng(1, 6); i > 0; i-- {
		q := request(r, w.pick(r), &sc.Cfg)
		if r.p(1, 3) {
			q = opsReq(r, &sc.Cfg)
		}
		pool = append(pool, q)
	}
	from := 0
	for i := length(r, thorough, 5, 24); i > 0; i-- {
		switch {
		case r.p(1, 6):
			v := variant(r, pick(r, pool), &sc.Cfg)
			pool = append(pool, v)
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: v})
		case r.p(1, 12):
			sc.Steps = append(sc.Steps, Step{Op: "cache", N: pick(r, []int{0, 0, 20, 50, 100, 1 << 30})})
		case r.p(1, 14):
			n := pick(r, []int{3, 19, 21, 40, 110, 150})
			if thorough && r.p(1, 3) || r.p(1, 20) {
				n = 2300
			}
			sc.Steps = append(sc.Steps, Step{Op: "fill", N: n, To: from})
			from += n + 1
		default:
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: pick(r, pool)})
		}
	}
	if r.p(1, 8) {
		// many queries of the length of one of them
		q := pick(r, pool)
		l := len(q.query())
		if l > 14 && q.Via == "" {
			for i := r.rng(15, 25); i > 0; i-- {
				sc.Steps = append(sc.Steps, Step{Op: "req", Req: fillQuery(i, l)})
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: q}, Step{Op: "req", Req: fillQuery(3, l)}, Step{Op: "req", Req: fillQuery(15, l)})
		}
	}
}

// opsReq is a document of several operations whose names resemble each other.
func opsReq(r *Rand, cfg *schemaCfg) *ReqSpec {
	o := defOpts(r)
	o.Frags = 30
	for i := 0; i < 8; i++ {
		q := genReq(r, o)
		if len(q.Doc.Ops) > 1 {
			q.Op = pick(r, q.Doc.Ops).Name
			if r.p(1, 6) {
				q.Op = "nope"
			}
			return q
		}
	}
	return genReq(r, o)
}

func runC02(x *runner) {
	sc := x.sc
	off := sc.Cfg
	none := 1 << 40
	off.Cache = &none
	x.insts = []*inst{x.fresh()}
	plain := buildSchema(&off)
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		switch s.Op {
		case "req":
			a := x.exec(x.insts[0], s.Req, execOpts{})
			b := x.exec(plain, s.Req, execOpts{})
			if a.Steps < b.Steps {
				x.hit("cached")
			}
			if d := a.same(b); d != "" {
				x.fail("cache", "%s", d)
				return
			}
		case "fill":
			for k := 0; k < s.N; k++ {
				q := fillQuery(s.To+k, 60+(s.To+k)*7%331)
				a := x.exec(x.insts[0], q, execOpts{})
				if k%16 == 0 {
					b := x.exec(plain, q, execOpts{})
					if d := a.same(b); d != "" {
						x.fail("cache", "fill %d: %s", k, d)
						return
					}
				}
			}
			probeN("op.fill", int64(s.N))
		default:
			x.do(s)
		}
	}
}

// ---- C04 ----

func genC04(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	sc.Cfg.NoIntro = false
	w := swarm(r, weights{"ok": 8, "err": 3, "cancel": 2, "intro": 4, "batch": 1, "via": 2, "trace": 3, "deep": 1, "big": 1, "file": 2, "reject": 1, "bad": 2, "values": 3, "nometa": 1, "net": 1, "panic": 1})
	for i := r.n(3); i > 0; i-- {
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: request(r, everything.pick(r), &sc.Cfg)})
	}
	n := r.rng(2, 4)
	var first *ReqSpec
	total := int64(0)
	dense := r.p(1, 5)
	if dense || r.p(1, 4) {
		// everyone is busy with the same few fields
		n = 2
		genFocus = r.u64() | 1
		defer func() { genFocus = 0 }()
	}
	nested := r.p(1, 4)
	if nested {
		for i := r.rng(1, 3); i > 0; i-- {
			q := request(r, pick(r, []string{"ok", "err", "intro", "trace"}), &sc.Cfg)
			sc.Subs = append(sc.Subs, q)
		}
	}
	for i := 0; i < n; i++ {
		var steps []Step
		for k := r.rng(1, 3); k > 0; k-- {
			q := request(r, w.pick(r), &sc.Cfg)
			if first == nil {
				first = q
			} else if r.p(1, 4) {
				q = first // everyone asks the same
			}
			if nested && q.Doc != nil && r.p(1, 2) {
				q = cloneReq(q)
				q.Plan = append(q.Plan, Act{At: r.n(calls(q, &sc.Cfg)), Do: "sub", N: int64(r.n(10))})
			}
			total += int64(2000 + 200*calls(q, &sc.Cfg))
			steps = append(steps, Step{Op: "req", Req: q})
			if r.p(1, 8) {
				steps = append(steps, Step{Op: "copy"})
			}
		}
		sc.Workers = append(sc.Workers, steps)
	}
	sc.N = r.n(4) // how the workers' copies are made
	m := r.rng(1, 6)
	if r.p(1, 2) {
		m = r.rng(6, 60)
	}
	if dense {
		// and nobody for long
		m = r.rng(60, 600)
		g := r.rng(2, 60)
		for i := 0; i < m; i++ {
			sc.Sched = append(sc.Sched, Switch{To: i % 2, Gap: int64(r.n(g))})
		}
		m = 0
	} else if r.p(1, 2) {
		// switches at certain statements, however rarely they are executed
		m = r.rng(1, 10)
		sc.Hot = r.p(1, 2)
		for i := 0; i < m; i++ {
			s := Switch{To: r.n(n - 1), Pick: r.u64() | 1}
			sc.Sched = append(sc.Sched, s)
			switch r.n(4) {
			case 0:
				s.To = r.n(n - 1)
				sc.Sched = append(sc.Sched, s)
			case 1:
				sc.Sched = append(sc.Sched, Switch{To: r.n(n), Gap: int64(r.n(200))})
			case 2:
				sc.Sched = append(sc.Sched, Switch{To: r.n(n), Gap: int64(r.n(int(total)))})
			}
		}
		m = 0
	}
	for i := 0; i < m; i++ {
		s := Switch{To: r.n(n)}
		switch r.n(4) {
		case 0:
			s.Call = true
		case 1:
			s.Gap = int64(r.n(40))
		case 2:
			s.Gap = int64(r.n(2000))
		default:
			s.Gap = int64(r.n(int(total/int64(m)) + 1))
		}
		sc.Sched = append(sc.Sched, s)
	}
}

func runC04(x *runner) {
	sc := x.sc
	base := x.fresh()
	x.insts = []*inst{base}
	for i := range sc.Steps {
		x.step = i
		if !x.do(&sc.Steps[i]) {
			x.exec(base, sc.Steps[i].Req, execOpts{})
		}
	}
	x.step = -1
	n := len(sc.Workers)
	pick := false
	for _, s := range sc.Sched {
		pick = pick || s.Pick != 0
	}
	var before [len(verifsim.Cov)]uint32
	var hot []int
	executed := map[int]int{} // by which workers
	// what every request gets when it is served alone
	want := make([][]*Outcome, n)
	for i := range sc.Workers {
		for k := range sc.Workers[i] {
			s := &sc.Workers[i][k]
			if s.Op != "req" {
				want[i] = append(want[i], nil)
				continue
			}
			in, opts := x.fresh(), execOpts{sub: x.subFunc(x.fresh()), static: x.static}
			before = verifsim.Cov
			if sc.Hot && !raceBuild {
				startHot()
			}
			want[i] = append(want[i], x.exec(in, s.Req, opts))
			if sc.Hot && !raceBuild {
				hot = append(hot, stopHot()...)
			}
			if pick {
				for k, n := range verifsim.Cov {
					if n != before[k] {
						executed[k] |= 1 << i
					}
				}
			}
		}
	}
	x.static.frozen = true
	insts := make([]*inst, n)
	subs := make([]*inst, n)
	for i := range insts {
		switch {
		case i == 0 && sc.N == 1:
			insts[i] = base
		case sc.N == 3:
			// every worker copies the unused base itself
		case i > 0 && sc.N == 2:
			insts[i] = insts[i-1].copy()
		default:
			insts[i] = base.copy()
		}
		if len(sc.Subs) > 0 {
			subs[i] = base.copy()
		}
	}
	got := make([][]*Outcome, n)
	races := raceErrors()
	fns := make([]func(), n)
	for i := range fns {
		i := i
		fns[i] = func() {
			in := insts[i]
			if in == nil {
				in = base.copy()
			}
			for k := range sc.Workers[i] {
				s := &sc.Workers[i][k]
				if s.Op == "copy" {
					if sc.N == 3 {
						in = base
					}
					in = in.copy()
					got[i] = append(got[i], nil)
					continue
				}
				got[i] = append(got[i], in.exec(s.Req, execOpts{sub: x.subFunc(subs[i]), static: x.static}))
			}
		}
	}
	var sites []int
	for i := range sc.Sched {
		if sc.Sched[i].Pick == 0 {
			continue
		}
		if sites == nil {
			for k, by := range executed {
				if by&(by-1) != 0 {
					sites = append(sites, k)
				}
			}
			sort.Ints(sites)
		}
		if len(hot) > 0 && sc.Sched[i].Pick%4 != 0 {
			sc.Sched[i].Site = hot[sc.Sched[i].Pick/4%uint64(len(hot))] + 1
			probe("sched.hot")
		} else if len(sites) > 0 {
			sc.Sched[i].Site = sites[sc.Sched[i].Pick%uint64(len(sites))] + 1
		}
		sc.Sched[i].Pick = 0
	}
	s := runWorkers(sc.Sched, fns)
	x.sched, x.switches = s.points, s.switches
	if s.switches > 0 {
		x.hit("interleaved")
	}
	probeN("sched.switches", s.switches)
	if n := raceErrors() - races; n > 0 {
		x.fail("race", "%d data races", n)
	}
	for i := range got {
		for k, o := range got[i] {
			if o == nil {
				continue
			}
			x.rec(o)
			if d := o.same(want[i][k]); d != "" {
				x.fail("interfere", "worker %d request %d: %s", i, k, d)
				return
			}
		}
	}
}

// ---- C06 ----

func genC06(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	w := swarm(r, weights{"ok": 2, "err": 3, "cancel": 2, "net": 10, "junk": 6, "intro": 1, "batch": 3, "via": 2, "trace": 1, "nometa": 1, "deep": 2, "big": 1, "file": 2, "reject": 4, "bad": 8})
	for _, q := range history(r, &sc.Cfg, length(r, thorough, 3, 16), w) {
		switch {
		case r.p(1, 12):
			q = hugeReq(r, thorough)
		case r.p(1, 25):
			sc.Steps = append(sc.Steps, sweep(r)...)
			continue
		case r.p(1, 25):
			sc.Steps = append(sc.Steps, cuts(r)...)
			continue
		case r.p(1, 8) && q.Body == nil && q.RawB == nil && len(q.Items) == 0:
			someNet(r, q)
		case r.p(1, 10) && len(q.Items) > 0:
			// damage to the whole body
			someNet(r, q)
		case r.p(1, 10):
			q.Tracing = true
		case r.p(1, 14):
			q.Method = pick(r, []string{"GET", "post", "PUT", "HEAD", "", "é"})
		case r.p(1, 14):
			q.CType = pick(r, []string{"application/json", "text/plain", "multipart/form-data", "application/json; charset=utf-8", "multipart/form-data; boundary=x", ";", ";;;", " ", "application/jsonp", "", "text/html", "\x00"})
			if q.Via == "" {
				q.Via = "json"
			}
			q.NoMeta = false
		case r.p(1, 14) && (q.Via == "form" || q.Via == "batchform"):
			q.FormErr = pick(r, errTexts)
		}
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: q})
	}
}

// hugeReq nests or repeats one thing very often.
func hugeReq(r *Rand, thorough bool) *ReqSpec {
	n := pick(r, []int{100, 1000, 5000, 30000})
	if r.p(1, 6) {
		n = 300_000
	}
	rep := strings.Repeat
	var s string
	if r.p(1, 300) {
		// more than three bytes can count
		n = 16_777_216 + r.n(1000)
		s = pick(r, []string{"{texts(s:\"%\")b:__typename}", "{texts(s:\"\"\"%\"\"\")b:__typename}", "{a(x:0.%)}", "#%\n{a}", "{__typename @tag(s:\"%\")}"})
		return &ReqSpec{RawB: []byte(strings.Replace(s, "%", rep("0", n), 1)), Note: "huge"}
	}
	switch r.n(25) {
	default:
		s = repeated(r, n)
	case 0:
		s = rep("{a", n)
	case 1:
		s = rep("{node", n) + "{name" + rep("}", n+1)
	case 2:
		s = "{input(in:" + rep("{sub:", n) + "1" + rep("}", n) + ")}"
	case 3:
		s = "{texts(l:" + rep("[", n) + rep("]", n) + ")}"
	case 4:
		s = "query($a:" + rep("[", n) + "Int" + rep("]", n) + "){a}"
	case 5:
		s = "{" + rep("...on Query{", n) + "a" + rep("}", n) + "}"
	case 6:
		s = "{" + rep("a ", n) + "}"
	case 7:
		s = "{a" + rep(" @skip(if:true)", n%300) + "}"
	case 8:
		s = rep("#", n) + "{a}"
	case 9:
		s = rep(",\n ", n) + "{a}"
	case 10:
		s = "{texts(s:\"" + rep("\\n", n) + "\")}"
	case 11:
		s = "{" + rep("a", n) + "}"
	case 12:
		m := n % 800
		s = "{a}"
		for i := 0; i < m; i++ {
			s += sprint(" fragment f%d on Query{a}", i)
		}
	case 13:
		s = "{texts(l:[" + rep("\"x\",", n%9000) + "])}"
	case 14:
		s = "query(" + rep("$a:Int ", n%9000) + "){a}"
	}
	if r.p(1, 4) {
		s = s[:r.n(len(s))]
	}
	q := &ReqSpec{RawB: []byte(s), Note: "huge"}
	if r.p(1, 5) {
		q.Via = pick(r, vias)
	} else if r.p(1, 6) {
		q = &ReqSpec{Via: pick(r, []string{"json", "batch"})}
		switch r.n(3) {
		case 0:
			q.Body = []byte(rep("[", n) + rep("]", n))
		case 1:
			q.Body = []byte("{\"query\":\"{a}\",\"variables\":" + rep("{\"a\":", n) + "1" + rep("}", n) + "}")
		case 2:
			q.Body = []byte("[" + rep("{\"query\":\"{a}\"},", n%300) + "{}]")
		}
		if q.Via == "batch" {
			q.Via = "json"
		}
	}
	return q
}

var atoms = []string{"fr ", "tr ", "t,", "f ", "nul ", "true1 ", "false ", "fragment ", "query ", "mutatio ", "sub ", "on ", "0.", "1e", "-1 ", "1 ", "\"a\" ", "\"\\\"\"", "\"\\u00e9\" ",
	"\"\"\"a\"\"\" ", "\"\"\"\n\n \"\"\"", "\"\" ", "#\n", "#a", "\r\n", "$a ", "$ ", "{a:1} ", "{a:fr} ", "a:1 ", "a:fr,", "a:[f] ", "[f] ", "[t", "@skip(if:false)", "@d ", "@d(a:tr)", "...f ", "...fr on ", "... on Node{name} ", "...",
	"a:b(c:1)", "a(l:fr)", "a:a", "name ", "__typename ", "=1 ", "!", ")", "}", "]", ":", "\u00e9", "\x00", "\xef\xbb\xbf", "$a:Int=f ", "$a:[Int!]! "}

var frames = []string{"{texts(l:[%])}", "{texts(s:%)}", "{enums(l:[%] c:%)}", "{input(in:{%})}", "{%}", "{a %}", "{a(%)}", "query q(%){a}", "query(%{a}", "%{a}", "{a}%", "fragment f on Query{%}{...f}", "{a @skip(%)}",
	"{...on Query{%}}", "{...on Query %{a}}", "{node{%}}", "{times(l:[%])}", "query %", "mutation{%}"}

// repeated repeats one or two small pieces of text somewhere.
func repeated(r *Rand, n int) string {
	if n > 60_000 {
		n = 60_000
	}
	a := pick(r, atoms)
	if r.p(1, 3) {
		a += pick(r, atoms)
	}
	return strings.Replace(pick(r, frames), "%", strings.Repeat(a, n), 1)
}

var sweeps = []string{"{...%}fragment s on Query{__typename}", "{...%}fragment t on Query{__typename}fragment s on Query{__typename b:__typename}", "{...% ...s}fragment % on Query{__typename}fragment s on Query{__typename}",
	"{...s}fragment s on Query{...%}", "{%}", "{%:__typename}", "{__typename @%}", "{a(%:1)}", "query($a:Int){c(a:$%)}", "query($%:Int){c(a:$%)}", "query($a:%){__typename}", "query %{__typename}", "query a{__typename}query %{__typename}",
	"{...on %{__typename}}", "{enums(c:%)}", "{texts(s:\"%\")}", "{texts(s:\"\"\"%\"\"\")}", "{input(in:{%:1})}", "{__typename}#%", "mutation{%}", "{__type(name:\"%\"){name}}", "{ints(i8:1%)}", "{__typename}fragment % on Query{__typename}"}

var cutDocs = []string{
	"{texts(s:\"\"\"\r\n  a\\\"\"\"b\r\r\n\tc\r\"\"\" t:\"\\u00e9\\n\\\"x\\\\\")}",
	"\r\n# one\r# two\r\nquery\rq(\r$a\r:\r[\rInt\r!\r]\r!\r=\r[\r1\r]\r)\r@skip\r(\rif\r:\rfalse\r)\r{\ra\r:\rtexts\r(\rl\r:\r[\r\"x\"\r]\r)\r}\r",
	"query q($a: Int = 3, $b: [String!]! = [\"x\", \"\"\"y\"\"\"], $c: TreeInput = {name: \"n\", sub: {v: 1.5e-3}}) @tag { a ...f @skip(if: false) ... on Query @include(if: true) { __typename } } fragment f on Query @tag { __typename }",
	"mutation { a: a(x: 1, y: -2.5E+7, z: true, w: false, v: null, u: $b, t: ENUM, s: [1, [2, {}]]) { b c: d } } # end",
	"{enums(c:RED l:[GREEN,BLUE]) ints(i8:-12,u64:18446744073709551615,f32:1e5,f64:-0.0E-0) times(t:\"2020-01-02T03:04:05Z\")}",
	"\xef\xbb\xbf{__schema{types{name fields(includeDeprecated:true){name type{kind ofType{name}}}}}}",
	"subscription s { a } query , , a , { , a , }",
}

var cutTails = []string{"", "", "", "\r", "\n", "\r\n", "\"", "\\", "}", ")", "]", "{", " ", "#", "\x00", "\xc3", "$", "@", ".", "..", "...", "-", "\"\"\"", "\\u", "\\u12"}

// cuts sends every beginning (or everything but one byte, or a byte more) of one text that has a little of everything.
func cuts(r *Rand) []Step {
	d := pick(r, cutDocs)
	kind, tail, via := r.n(4), pick(r, cutTails), ""
	if r.p(1, 6) {
		via = pick(r, vias)
	}
	if r.p(1, 3) {
		d = strings.ReplaceAll(d, " ", pick(r, []string{"\r", "\r\n", "\t", "\n", ","}))
	}
	n := len(d) + 1
	from := r.n(n)
	if n > 60 {
		n = 20 + r.n(40)
	}
	var steps []Step
	for i := 0; i < n; i++ {
		k := (from + i) % (len(d) + 1)
		var s string
		switch kind {
		case 0, 1:
			s = d[:k] + tail
		case 2:
			s = d[:k] + d[min(k+1, len(d)):]
		case 3:
			s = d[:k] + tail + d[k:]
		}
		steps = append(steps, Step{Op: "req", Req: &ReqSpec{RawB: []byte(s), Via: via, Note: "cuts"}})
	}
	return steps
}

// sweep sends one text many times, with one name of it a little longer (or the whole cut a little later) each time.
func sweep(r *Rand) []Step {
	var steps []Step
	n, from := 4+r.n(28), r.n(100)
	if r.p(1, 3) {
		// around the longest names
		from = 230 + r.n(20)
	}
	t := pick(r, sweeps)
	if d := 1 + r.n(80); t[0] == '{' && r.p(1, 3) {
		// inside of other selections
		t = strings.Repeat(pick(r, []string{"{node", "{...on Query", "{__typename x:start"}), d) + t[:1] + "b:__typename " + t[1:] + strings.Repeat("}", d)
	}
	cut := r.p(1, 4)
	via, target := "", ""
	if r.p(1, 4) {
		via = pick(r, vias)
	}
	for i := 0; i < n; i++ {
		k := from + i + 1
		if cut {
			k = 3
		}
		name := strings.Repeat("x", k)
		if strings.Contains(t, "i8:") {
			name = strings.Repeat("0", k)
		}
		s := strings.ReplaceAll(t, "%", name)
		if cut {
			s = s[:min(i+from%20, len(s))]
		}
		if r.p(1, 40) {
			target = name
		}
		steps = append(steps, Step{Op: "req", Req: &ReqSpec{RawB: []byte(s), Via: via, Op: target, Note: "sweep"}})
	}
	return steps
}

func runC06(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if x.do(s) {
			continue
		}
		o := x.exec(x.insts[0], s.Req, execOpts{})
		if d := wellFormed(s.Req, o); d != "" {
			x.fail(o.class("malformed"), "%s", d)
			return
		}
		if len(o.Errs) > 0 {
			x.hit("errors")
		}
	}
}

func (o *Outcome) class(c string) string {
	if o.Fuel {
		return "work"
	}
	if o.Panic != "" {
		return "panic"
	}
	return c
}

// wellFormed checks the answer to any request.
func wellFormed(q *ReqSpec, o *Outcome) string {
	if o.Panic != "" {
		if o.Fuel {
			return "unbounded work: " + o.Panic
		}
		return "panic: " + o.Panic
	}
	j, err := parseJSON(o.Body)
	if err != nil {
		return sprint("the response is not one JSON document: %v: %s", err, clip(o.Body))
	}
	if q.NoMeta && q.Via == "" {
		if j.K != 'o' {
			return "the response is not an object: " + clip(o.Body)
		}
		return ""
	}
	var texts []string
	one := func(j *J) string {
		if j.K != 'o' {
			return "a response is not an object: " + clip([]byte(j.String()))
		}
		if j.count("data") != 1 || j.get("data").K != 'o' {
			return "a response without data: " + clip([]byte(j.String()))
		}
		switch j.count("errors") {
		case 0:
		case 1:
			e := j.get("errors")
			if e.K != 'l' || len(e.L) == 0 {
				return "errors is not a list with entries: " + clip([]byte(e.String()))
			}
			for _, e := range e.L {
				m := e.get("message")
				if m == nil || m.K != 's' {
					return "an error without message: " + clip([]byte(e.String()))
				}
				texts = append(texts, m.S)
			}
		default:
			return "more than one errors member"
		}
		return ""
	}
	if j.K == 'l' {
		if q.Via == "" || q.Via == "get" {
			return "a list instead of a response"
		}
		for _, e := range j.L {
			if d := one(e); d != "" {
				return d
			}
		}
	} else if d := one(j); d != "" {
		return d
	}
	if len(texts) != len(o.Errs) {
		return sprint("%d errors in the response, %d reported to the host: %s", len(texts), len(o.Errs), clip(o.Body))
	}
	for i, t := range texts {
		if t != clean(o.Errs[i]) {
			return sprint("error %d is %q in the response and %q for the host", i, t, o.Errs[i])
		}
	}
	return ""
}

// ---- comparison with the model: C07, C08, C09, C11, C12, C13, C16 ----

var pollution = weights{"ok": 3, "err": 3, "panic": 1, "cancel": 2, "net": 1, "bad": 2, "trace": 1, "deep": 1, "file": 1, "values": 2, "batch": 1, "intro": 1, "big": 1, "reject": 1}

func genModel(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	if r.p(1, 2) {
		sc.Cfg.MaxDepth = 0
	}
	n := length(r, thorough, 1, 6)
	var qs []*ReqSpec
	copies := 0
	for i := 0; i < n; i++ {
		if r.p(1, 4) {
			p := request(r, pollution.pick(r), &sc.Cfg)
			if sc.Prop == "C13" && r.p(1, 2) {
				p.Tracing = true
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", NoCmp: true, Req: p})
		}
		if r.p(1, 12) {
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: 0, To: 0})
			copies++
		}
		var q *ReqSpec
		if len(qs) > 0 && r.p(1, 4) {
			// the same text again: other faults meet a remembered query
			q = cloneReq(pick(r, qs))
			q.Plan, q.FilePl, q.Ctx, q.CtxN, q.Values = nil, nil, "", 0, nil
		} else {
			o := defOpts(r)
			via := ""
			if r.p(1, 5) {
				via = pick(r, vias)
				o.SafeText = true
			}
			tune(r, sc.Prop, &o)
			q = genReq(r, o)
			if sc.Prop == "C12" && !usesFile(q) {
				q = fileReq(r, o)
			}
			q.Via = via
		}
		decorate(r, sc.Prop, q, &sc.Cfg)
		qs = append(qs, q)
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, On: r.n(1 + copies)})
	}
	often(r, sc)
	if sc.Prop == "C11" && r.p(1, 3) {
		sc.Steps = append(sc.Steps, Step{Op: "gc"})
		for i := r.rng(1, 4); i > 0; i-- {
			sc.Steps = append(sc.Steps, Step{Op: "req", NoCmp: true, Req: request(r, pollution.pick(r), &sc.Cfg)})
		}
	}
}

// tune adapts the workload to a property.
func tune(r *Rand, prop string, o *genOpts) {
	o.Crowd = r.p(1, 12)
	switch prop {
	case "C07", "C08":
		o.Wide = 90
		o.Budget += 8
		if r.p(1, 12) {
			o.Budget += 150
		}
	case "C09":
		o.Dirs = pick(r, []int{0, 20, 40, 70})
		o.Frags = pick(r, []int{10, 30, 50})
		o.Alias = pick(r, []int{20, 60})
		o.Wide = 80
		o.Mutation = r.p(2, 5)
		o.ManyDirs = r.p(1, 8)
		o.Budget += 6
	case "C11":
		o.Args = pick(r, []int{60, 80, 100})
		o.Vars = pick(r, []int{0, 30, 60, 100})
		o.Dirs = pick(r, []int{0, 20, 40})
		o.Wide = 95
		o.Reject = pick(r, []int{0, 0, 5, 30})
		o.Mistype = pick(r, []int{0, 0, 3, 15})
		o.Budget += 6
		if r.p(1, 6) {
			o.Long = true
		}
	case "C12":
		o.Files = true
		o.Wide = 95
		o.Args = 90
		o.Vars = pick(r, []int{0, 30, 60})
	case "C13":
		o.Wide = 70
	case "C16":
		o.Wide = 80
		o.Alias = pick(r, []int{0, 30, 60})
		o.Frags = pick(r, []int{0, 20})
		o.Dirs = pick(r, []int{0, 20})
		if r.p(1, 8) {
			o.Long = true
		}
	}
}

// decorate adds the faults of a property to a request.
func decorate(r *Rand, prop string, q *ReqSpec, cfg *schemaCfg) {
	n := calls(q, cfg)
	switch prop {
	case "C07":
		someErrs(r, q, n)
		if r.p(1, 3) {
			someErrs(r, q, n)
		}
		if r.p(1, 4) {
			someNulls(r, q, n)
		}
		if r.p(1, 6) {
			someCancel(r, q, n)
		}
		if r.p(1, 6) {
			q.Tracing = true
		}
	case "C08":
		if r.p(1, 3) {
			q.Ctx = pick(r, []string{"live", "live", "live", "deadline", ""})
			q.CtxN = int64(r.rng(1, 1000)) * 1_000_000
			if q.Ctx == "" {
				q.Plan = append(q.Plan, Act{At: r.n(n), Do: "ctx", S: "mine"})
			}
			q.Plan = append(q.Plan, asyncCancel(r, n))
		} else {
			someCancel(r, q, n)
			if r.p(1, 3) {
				q.Plan = append(q.Plan, Act{At: r.n(n), Do: pick(r, []string{"ctx", "ctx", "ctxnil"}), S: "mine", N: pick(r, []int64{0, 0, -1, 5_000_000})})
				q.Plan = append(q.Plan, Act{At: r.n(n), Do: pick(r, []string{"cancel", "sleep"}), N: int64(r.n(3)) * 5_000_001})
			}
			if r.p(1, 5) {
				// resolvers alone decide what the Go context is
				q.Ctx, q.CtxN = "", 0
				for i := r.rng(1, 3); i > 0; i-- {
					q.Plan = append(q.Plan, Act{At: r.n(n), Do: pick(r, []string{"ctx", "ctx", "ctx", "ctxnil"}), S: "own" + sprint("%d", i), N: pick(r, []int64{0, -1, -1, 5_000_000})})
				}
			}
		}
		if r.p(1, 4) {
			someErrs(r, q, n)
		}
		if r.p(1, 8) {
			q.Tracing = true
		}
	case "C09":
		if r.p(1, 2) {
			switch r.n(4) {
			case 0:
				someErrs(r, q, n)
			case 1:
				someCancel(r, q, n)
			case 2:
				someNulls(r, q, n)
			default:
				someSleeps(r, q, n)
				someNulls(r, q, n)
			}
		}
		if r.p(1, 4) {
			q.Plan = append(q.Plan, Act{At: r.n(n), Do: "skip"})
		}
		if r.p(1, 40) {
			// a field that does not exist, though its name has the hash of one that does
			var sels []*Sel
			eachSel(q.Doc, func(s *Sel) {
				if s.Kind == 0 && s.Name != "__typename" {
					sels = append(sels, s)
				}
			})
			if len(sels) > 0 {
				s := pick(r, sels)
				s.Name = collide(s.Name)
			}
		}
	case "C11":
		if r.p(1, 5) {
			someErrs(r, q, n)
		}
	case "C12":
		if r.p(1, 4) {
			q.FilePl = append(q.FilePl, Act{At: r.n(3), Do: "err", S: pick(r, errTexts)})
		}
		if r.p(1, 8) {
			q.Form = false
		}
	case "C13":
		q.Tracing = true
		someSleeps(r, q, n)
		if r.p(1, 2) {
			someSleeps(r, q, n)
		}
		if r.p(1, 4) {
			q.Plan = append(q.Plan, Act{At: -1, Do: "sleep", N: int64(r.rng(1, 5000))})
		}
		for i := r.n(3); i > 0; i-- {
			q.Plan = append(q.Plan, Act{At: r.n(n), Do: "wall", N: (int64(r.n(2000)) - 1000) * 3_600_000_000_000})
		}
		if r.p(1, 3) {
			for i := r.rng(1, 4); i > 0; i-- {
				q.Plan = append(q.Plan, Act{At: asyncAt(r, n), Step: true, Do: pick(r, []string{"sleep", "sleep", "wall"}), N: sleepTime(r)})
			}
		}
		if r.p(1, 4) {
			someErrs(r, q, n)
		}
		if r.p(1, 8) {
			someCancel(r, q, n)
		}
		for _, a := range q.Plan {
			if a.Step && a.Do == "sleep" && q.Ctx == "deadline" {
				// the model does not know when between the callbacks it ends
				q.Ctx = "live"
			}
		}
	case "C16":
		someValues(r, q, n)
		if r.p(1, 2) {
			someValues(r, q, n)
		}
		if r.p(1, 5) {
			someErrs(r, q, n)
		}
	}
}

func cancelText(a Act) string {
	switch a.N % 3 {
	case 1:
		return "context deadline exceeded"
	case 2:
		return "the caller went away: " + a.text()
	}
	return "context canceled"
}

func runModel(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if x.do(s) {
			continue
		}
		q := s.Req
		in := x.insts[s.On%len(x.insts)]
		x.again(s, in)
		o := x.exec(in, q, execOpts{retain: &x.retain})
		if s.NoCmp || q.Doc == nil {
			if sc.Prop == "C13" && q.Tracing {
				// a trace shows nothing of other requests
				if d := o.same(x.exec(x.fresh(), q, execOpts{})); d != "" {
					x.fail("foreign", "traced on its own: %s", d)
					return
				}
				x.hit("alone")
			}
			continue
		}
		cfg := sc.Cfg
		d := ""
		var m *model
		for alt := 0; alt < 2; alt++ {
			m = newModel(q, &cfg, q.Plan)
			if o.Run.cancelAt >= 0 {
				m.cancelAfter = o.Run.cancelAt
				m.alt = alt == 1
				for _, a := range q.Plan {
					if a.Step && a.Do == "cancel" {
						m.cancelText = cancelText(a)
					}
				}
			}
			m.run()
			if m.unknown != "" || m.panicked {
				break
			}
			d1 := m.check(o)
			if d1 == "" && q.Tracing {
				d1 = x.checkTraced(m, q, o)
			}
			if alt == 0 {
				d = d1
			}
			if d1 == "" || o.Run.cancelAt < 0 {
				d = d1
				break
			}
		}
		if m.panicked {
			continue
		}
		if m.unknown != "" {
			probe("model.unknown")
			continue
		}
		if d != "" {
			x.fail(o.class("model"), "%s", d)
			return
		}
		x.modelHit(m, o, q)
	}
	x.step = -1
	x.checkRetained()
}

func (x *runner) checkTraced(m *model, q *ReqSpec, o *Outcome) string {
	j, err := parseJSON(o.Body)
	if err != nil {
		return err.Error()
	}
	slack := int64(0)
	for _, a := range q.Plan {
		if a.Step && a.Do == "sleep" {
			slack += a.N
		}
	}
	if d := m.checkTrace(j, o.Elapsed, o.Log, slack); d != "" {
		return d
	}
	return ""
}

// modelHit notes whether the request exercised the property.
func (x *runner) modelHit(m *model, o *Outcome, q *ReqSpec) {
	switch x.sc.Prop {
	case "C07":
		for _, c := range o.Log {
			if c.Err != "" {
				x.hit("error")
				return
			}
		}
	case "C08":
		for _, c := range o.Log {
			if c.End {
				x.hit("ended")
				break
			}
		}
		if o.Run.cancelAt >= 0 {
			x.hit("async")
		}
	case "C09":
		if m.n > 3 {
			x.hit("calls")
		}
		if m.skips > 0 {
			x.hit("skipped")
		}
	case "C11":
		for _, c := range o.Log {
			if c.Args != "" {
				x.hit("args")
				break
			}
		}
		if m.rejects > 0 {
			x.hit("rejected")
		}
	case "C12":
		if m.nfile > 0 {
			x.hit("file")
			if m.rejects > 0 {
				x.hit("failed")
			}
		}
	case "C13":
		if o.Elapsed > 0 && len(m.traces) > 0 {
			x.hit("timed")
		}
	case "C16":
		if m.n > 0 && (len(q.Values) > 0 || len(q.Plan) > 0) {
			x.hit("values")
		}
	}
}

func (x *runner) checkRetained() {
	if len(x.retain) > 0 {
		runtime.GC()
	}
	for _, t := range x.retain {
		if got := canonArgs(t.args); got != t.want {
			x.fail("retained", "%s kept %s and now has %s", t.what, clip([]byte(t.want)), clip([]byte(got)))
			return
		}
	}
}

// ---- C10 ----

func genC10(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	for i := length(r, thorough, 1, 5); i > 0; i-- {
		switch r.n(5) {
		case 0, 1:
			q := batch(r, &sc.Cfg, swarm(r, weights{"ok": 6, "err": 3, "bad": 3, "junk": 2, "net": 2, "intro": 1, "values": 2, "reject": 1, "deep": 1, "file": 2}))
			if r.p(1, 3) {
				for k := range q.Items {
					if r.p(1, 3) {
						q.Items[k] = &ReqSpec{Body: []byte(pick(r, badItems))}
					}
				}
				q.Plan = nil
			}
			for k := range q.Items {
				if v := q.Items[k].VarsRaw; v != "" {
					if _, err := parseJSON([]byte(v)); err != nil {
						q.Items[k].VarsRaw = ""
					}
				}
				if b := q.Items[k].Body; b != nil {
					if _, err := parseJSON(b); err != nil {
						q.Items[k] = &ReqSpec{Body: []byte("{}")}
						q.Plan = nil
					}
				}
			}
			if r.p(1, 2) {
				q.Ctx = "live"
				if r.p(1, 2) {
					// the caller goes away somewhere in the batch
					plan := q.Plan[:0:0]
					for _, a := range q.Plan {
						if a.Do != "ctx" && a.Do != "ctxnil" {
							plan = append(plan, a)
						}
					}
					q.Plan = append(plan, Act{At: r.n(r.rng(1, 30)), Do: "cancel", N: int64(r.n(3)), S: pick(r, errTexts)})
				}
			}
			if r.p(1, 3) {
				q.Values = []KV{{"user", "host" + sprint("%d", r.n(100))}}
			}
			if r.p(1, 5) {
				q.Tracing = true
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, N: 1})
		case 2, 3:
			kind := swarm(r, weights{"ok": 6, "err": 3, "bad": 3, "junk": 2, "intro": 1, "values": 2, "reject": 2, "cancel": 1, "file": 1, "trace": 1, "deep": 1}).pick(r)
			q := request(r, kind, &sc.Cfg)
			if len(q.Items) > 0 || q.Body != nil {
				q = genReq(r, defOpts(r))
			}
			if q.RawB != nil {
				q.RawB = []byte(clean(string(q.RawB)))
			}
			cleanDoc(q)
			q.Op = clean(q.Op)
			if r.p(1, 8) {
				q.Op = pick(r, []string{" ", q.Op + " ", "\n" + q.Op, " " + q.Op + "\t", strings.ToUpper(q.Op), q.Op + "&a=b", "+" + q.Op, q.Op + "%20", "\"" + q.Op + "\""})
			}
			q.NoMeta, q.FormErr, q.Net = false, "", nil
			if q.VarsRaw != "" && !strings.HasPrefix(q.VarsRaw, `{"n"`) {
				q.VarsRaw = ""
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, N: 2})
		case 4:
			q := &ReqSpec{Via: pick(r, []string{"json", "text", "form"}), Body: []byte(pick(r, badBodies))}
			if q.Via == "form" && r.p(1, 2) {
				q.FormErr = pick(r, errTexts)
			}
			if r.p(1, 4) {
				q.Body = append([]byte(nil), genReq(r, defOpts(r)).body()...)
				if len(q.Body) > 2 {
					q.Body = q.Body[:r.rng(0, len(q.Body)-1)]
				}
			}
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, N: 3})
		}
		if r.p(1, 4) {
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: request(r, pollution.pick(r), &sc.Cfg)})
		}
	}
}

var badItems = []string{"{}", "[]", "null", "1", "\"{a}\"", "{\"query\":null}", "{\"query\":1}", "{\"query\":\"\"}", "{\"query\":\"{a}\",\"variables\":[]}",
	"{\"query\":\"{a}\",\"operationName\":1}", "{\"query\":\"{\"}", "{\"query\":\"{a\"}", "[[{\"query\":\"{a}\"}]]", "{\"query\":\"{nope}\"}", "{\"query\":\"query($x:Int!){fn(x:$x)}\",\"variables\":{}}",
	"true", "{\"query\":\"{word}\",\"variables\":\"x\"}", "{\"variables\":{}}", "{\"query\":\"mutation{bump}\"}", "{\"query\":\"{title}\",\"extra\":{\"a\":[1,2,\"]\"]}}"}

var badBodies = []string{"", " ", "{", "[", "]", "{}", "null", "1", "\"x\"", "{\"query\":", "{\"query\":\"{a}\"", "{\"query\":\"{a}\"}}", "[{\"query\":\"{a}\"}", "{\"query\":\"{a}\",}", "\x00", "\xff\xfe", "query{a}", "{query:\"{a}\"}", "{\"Query\":\"{a}\"}", "nul", "[1,]", "{\"query\":\"\\q\"}"}

// cleanDoc makes every text of a request survive a trip through JSON.
func cleanDoc(q *ReqSpec) {
	if q.Doc == nil {
		return
	}
	var val func(v *Val)
	var args func(as []Arg)
	val = func(v *Val) {
		if v.B != nil {
			v.S, v.B = clean(string(v.B)), nil
		}
		for i := range v.L {
			val(&v.L[i])
		}
		args(v.O)
	}
	args = func(as []Arg) {
		for i := range as {
			val(&as[i].Val)
		}
	}
	eachSel(q.Doc, func(s *Sel) {
		args(s.Args)
		for i := range s.Dirs {
			args(s.Dirs[i].Args)
		}
	})
	for _, o := range q.Doc.Ops {
		for i := range o.Vars {
			if o.Vars[i].Default != nil {
				val(o.Vars[i].Default)
			}
		}
	}
	args(q.Vars)
}

// splitArray cuts a JSON array into its elements, byte for byte.
func splitArray(b []byte) ([]string, bool) {
	if len(b) < 2 || b[0] != '[' || b[len(b)-1] != ']' {
		return nil, false
	}
	var res []string
	depth, start, str := 0, 1, false
	for i := 1; i < len(b)-1; i++ {
		switch c := b[i]; {
		case str:
			if c == '\\' {
				i++
			} else if c == '"' {
				str = false
			}
		case c == '"':
			str = true
		case c == '{' || c == '[':
			depth++
		case c == '}' || c == ']':
			depth--
		case c == ',' && depth == 0:
			res = append(res, string(b[start:i]))
			start = i + 1
		}
	}
	if len(b) > 2 {
		res = append(res, string(b[start:len(b)-1]))
	}
	return res, depth == 0 && !str
}

func runC10(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	in := x.insts[0]
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if x.do(s) {
			continue
		}
		q := s.Req
		o := x.exec(in, q, execOpts{})
		switch s.N {
		case 1:
			if o.Panic != "" {
				x.fail(o.class("panic"), "panic: %s", o.Panic)
				return
			}
			elems, ok := splitArray(o.Body)
			if !ok || len(elems) != len(q.Items) {
				x.fail("batch", "a batch of %d is answered by %s", len(q.Items), clip(o.Body))
				return
			}
			var errs []string
			var log []CallRec
			off := 0
			for k, it := range q.Items {
				one := *it
				one.Via = "json"
				one.Values, one.Ctx, one.CtxN, one.Tracing, one.Form, one.Files = q.Values, q.Ctx, q.CtxN, q.Tracing, q.Form, q.Files
				if one.Body != nil && strings.HasPrefix(strings.TrimSpace(string(one.Body)), "[") {
					// alone this item would be a batch: here it is an error
					j, err := parseJSON([]byte(elems[k]))
					if err != nil || j.K != 'o' || j.get("errors") == nil || len(j.get("errors").L) == 0 {
						x.fail("batch", "item %d %s is answered by %s", k, clip(one.Body), clip([]byte(elems[k])))
						return
					}
					for _, e := range j.get("errors").L {
						errs = append(errs, e.get("message").S)
					}
					continue
				}
				plan := []Act{}
				for _, a := range q.Plan {
					if a.At >= off {
						a.At -= off
						plan = append(plan, a)
					}
				}
				var ended error
				for _, a := range q.Plan {
					if a.Do == "cancel" && !a.Step && a.At < off && len(o.Run.ctxs) > 0 {
						ended = o.Run.ctxs[0].err
						x.hit("batch-cancelled")
					}
				}
				w := x.exec(x.fresh(), &one, execOpts{plan: plan, ended: ended})
				if w.Panic != "" {
					x.fail(w.class("panic"), "item %d alone: panic: %s", k, w.Panic)
					return
				}
				if elems[k] != string(w.Body) {
					x.fail("batch", "item %d of the batch: the answer %s", k, diffText(elems[k], string(w.Body)))
					return
				}
				errs = append(errs, w.Errs...)
				log = append(log, w.Log...)
				for _, c := range w.Log {
					if c.N >= 0 {
						off++
					}
				}
			}
			if d := sameTexts(o.Errs, errs); d != "" {
				x.fail("batch", "errors of the batch: %s", d)
				return
			}
			if d := sameLog(o.Log, log); d != "" {
				x.fail("batch", "calls of the batch: %s", d)
				return
			}
			if len(q.Items) > 1 {
				x.hit("batch")
			}
		case 2:
			for k, via := range []string{"get", "json", "text", "form"} {
				c := *q
				c.Via = via
				// the method does not matter, save that a GET has no text or form body
				methods := []string{"", "POST", "post", "PUT", "Patch", "HEAD", "OPTIONS", "query", "ge"}
				if via == "get" || via == "json" {
					methods = append(methods, "GET", "get")
				}
				c.Method = methods[mix(q.JStyle, uint64(k))%uint64(len(methods))]
				w := x.exec(in, &c, execOpts{})
				if d := w.same(o); d != "" {
					x.fail("transport", "over %s: %s", via, d)
					return
				}
			}
			x.hit("transports")
		case 3:
			if d := wellFormed(q, o); d != "" {
				x.fail(o.class("malformed"), "%s", d)
				return
			}
			absent := len(q.Body) == 0 || q.FormErr != ""
			// Bytes that are no UTF-8 within a string are let through by many parsers: not judged.
			if _, err := parseJSON(bytes.ToValidUTF8(q.Body, []byte("?"))); err != nil || absent {
				if len(o.Errs) == 0 {
					x.fail("accepted", "body %q is answered without an error: %s", clip(q.Body), clip(o.Body))
					return
				}
				if len(o.Log) > 0 {
					x.fail("accepted", "body %q: a resolver runs: %s", clip(q.Body), o.Log[0])
					return
				}
				x.hit("unreadable")
			}
		}
	}
}
