package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"
)

// Minimisation: drop parts of a scenario as long as the same class of
// violation remains. A reduction never makes a request less valid than it was.

type minimiser struct {
	o     *runOpts
	f     *Found
	best  *Scenario
	class string
	text  string
	tried int
	end   int64
	self  string
	tmp   string
}

func cloneScenario(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		harnessFail("%v", err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		harnessFail("%v", err)
	}
	return c
}

func cmdMinimise(o *runOpts, in, out string) int {
	f := loadFound(in)
	m := &minimiser{o: o, f: f, best: f.Scenario, class: f.Class, text: f.Violation, end: realNow() + int64(o.secs*1e9)}
	m.self, _ = os.Executable()
	m.tmp = filepath.Dir(out)
	watchdog(60 * time.Second)
	orig := &origin{Steps: len(f.Scenario.Steps), Bytes: len(f.Scenario.json())}
	save := func() {
		orig.MinBytes, orig.Tried = len(m.best.json()), m.tried
		g := *f
		g.Scenario, g.Violation, g.Original = m.best, m.text, orig
		g.save(out)
	}
	for round := 0; round < 6 && realNow() < m.end; round++ {
		before := len(m.best.json())
		m.round(save)
		save()
		if len(m.best.json()) == before {
			break
		}
	}
	return 0
}

// try tests a candidate; edit changes a copy and reports whether it changed anything.
func (m *minimiser) try(edit func(sc *Scenario) bool) bool {
	if realNow() > m.end {
		return false
	}
	c := cloneScenario(m.best)
	if !edit(c) {
		return false
	}
	m.tried++
	atomic.StoreInt64(&lastProgress, realNow())
	if m.class == "crash" || m.class == "race" {
		// a crash ends this process, and the race detector reports a race once per process
		g := *m.f
		g.Scenario = c
		file := filepath.Join(m.tmp, "cand.json")
		g.save(file)
		code, class, out := tryFile(m.self, file, 30*time.Second, filepath.Join(m.tmp, "cand.race"))
		if code == 0 || code == 3 || class != m.class {
			return false
		}
		m.best = c
		if class == "crash" {
			if l := firstLines(out); l != "" {
				m.text = "the process ends: " + l
			}
		}
		return true
	}
	res := runScenario(c)
	if res.Violation == "" || res.Class != m.class {
		return false
	}
	if res.Class == "race" {
		res.Violation += raceText(m.o.raceLog)
	}
	m.best, m.text = c, res.Violation
	return true
}

// chunks removes elements of a list of n, large pieces first.
func (m *minimiser) chunks(n func(sc *Scenario) int, cut func(sc *Scenario, lo, hi int)) {
	size := n(m.best)
	for size > 0 {
		for lo := 0; lo < n(m.best); {
			hi := lo + size
			if hi > n(m.best) {
				hi = n(m.best)
			}
			if !m.try(func(sc *Scenario) bool { cut(sc, lo, hi); return true }) {
				lo = hi
			}
			if realNow() > m.end {
				return
			}
		}
		size /= 2
	}
}

// reqs lists every request of a scenario in a fixed order.
func reqs(sc *Scenario) []**ReqSpec {
	var res []**ReqSpec
	add := func(p **ReqSpec) {
		if *p != nil {
			res = append(res, p)
			for i := range (*p).Items {
				res = append(res, &(*p).Items[i])
			}
		}
	}
	for i := range sc.Steps {
		add(&sc.Steps[i].Req)
	}
	for i := range sc.Workers {
		for k := range sc.Workers[i] {
			add(&sc.Workers[i][k].Req)
		}
	}
	for i := range sc.Subs {
		add(&sc.Subs[i])
	}
	return res
}

func sels(d *Doc) []*[]*Sel {
	var res []*[]*Sel
	var walk func(ss *[]*Sel)
	walk = func(ss *[]*Sel) {
		res = append(res, ss)
		for _, s := range *ss {
			if len(s.Sel) > 0 {
				walk(&s.Sel)
			}
		}
	}
	for _, o := range d.Ops {
		walk(&o.Sel)
	}
	for _, f := range d.Frags {
		walk(&f.Sel)
	}
	return res
}

func (m *minimiser) round(save func()) {
	m.chunks(func(sc *Scenario) int { return len(sc.Steps) }, func(sc *Scenario, lo, hi int) {
		sc.Steps = append(sc.Steps[:lo:lo], sc.Steps[hi:]...)
	})
	save()
	m.chunks(func(sc *Scenario) int { return len(sc.Sched) }, func(sc *Scenario, lo, hi int) {
		sc.Sched = append(sc.Sched[:lo:lo], sc.Sched[hi:]...)
	})
	for i := range m.best.Workers {
		m.chunks(func(sc *Scenario) int { return len(sc.Workers[i]) }, func(sc *Scenario, lo, hi int) {
			sc.Workers[i] = append(sc.Workers[i][:lo:lo], sc.Workers[i][hi:]...)
		})
	}
	m.chunks(func(sc *Scenario) int { return len(sc.Seeds) }, func(sc *Scenario, lo, hi int) {
		sc.Seeds = append(sc.Seeds[:lo:lo], sc.Seeds[hi:]...)
	})
	for _, e := range []func(sc *Scenario) bool{
		func(sc *Scenario) bool { d := sc.Cfg.MaxDepth != 0; sc.Cfg.MaxDepth = 0; return d },
		func(sc *Scenario) bool { d := sc.Cfg.Cache != nil; sc.Cfg.Cache = nil; return d },
		func(sc *Scenario) bool { d := sc.Cfg.NoIntro; sc.Cfg.NoIntro = false; return d },
	} {
		m.try(e)
	}
	for i := range m.best.Steps {
		m.try(func(sc *Scenario) bool { d := sc.Steps[i].Times != 0; sc.Steps[i].Times = 0; return d })
		for m.try(func(sc *Scenario) bool { d := sc.Steps[i].Times > 1; sc.Steps[i].Times /= 2; return d }) {
		}
		m.try(func(sc *Scenario) bool { d := sc.Steps[i].On != 0; sc.Steps[i].On = 0; return d })
	}
	save()
	for i := range reqs(m.best) {
		m.request(i)
		save()
		if realNow() > m.end {
			return
		}
	}
}

func (m *minimiser) request(i int) {
	at := func(sc *Scenario) *ReqSpec {
		l := reqs(sc)
		if i < len(l) {
			return *l[i]
		}
		return &ReqSpec{}
	}
	edit := func(f func(q *ReqSpec) bool) { m.try(func(sc *Scenario) bool { return f(at(sc)) }) }
	m.chunks(func(sc *Scenario) int { return len(at(sc).Items) }, func(sc *Scenario, lo, hi int) {
		q := at(sc)
		q.Items = append(q.Items[:lo:lo], q.Items[hi:]...)
	})
	m.chunks(func(sc *Scenario) int { return len(at(sc).Plan) }, func(sc *Scenario, lo, hi int) {
		q := at(sc)
		q.Plan = append(q.Plan[:lo:lo], q.Plan[hi:]...)
	})
	edit(func(q *ReqSpec) bool { d := len(q.FilePl) > 0; q.FilePl = nil; return d })
	edit(func(q *ReqSpec) bool { d := len(q.Net) > 1; q.Net = q.Net[:len(q.Net)/2]; return d })
	edit(func(q *ReqSpec) bool { d := len(q.Net) > 0; q.Net = nil; return d })
	edit(func(q *ReqSpec) bool { d := len(q.Values) > 0; q.Values = nil; return d })
	edit(func(q *ReqSpec) bool { d := q.Tracing; q.Tracing = false; return d })
	edit(func(q *ReqSpec) bool {
		d := q.Ctx != "" && q.Ctx != "live"
		if d {
			q.Ctx, q.CtxN = "live", 0
		}
		return d
	})
	edit(func(q *ReqSpec) bool { d := q.Ctx != ""; q.Ctx, q.CtxN = "", 0; return d })
	edit(func(q *ReqSpec) bool { d := q.JStyle != 0; q.JStyle = 0; return d })
	edit(func(q *ReqSpec) bool { d := q.Style != 0; q.Style = 0; return d })
	edit(func(q *ReqSpec) bool {
		d := q.Via != "" && len(q.Items) == 0 && q.Body == nil
		if d {
			q.Via = ""
		}
		return d
	})
	if q := at(m.best); q.RawB != nil && len(q.RawB) < 20000 {
		m.chunks(func(sc *Scenario) int { return len(at(sc).RawB) }, func(sc *Scenario, lo, hi int) {
			q := at(sc)
			q.RawB = append(q.RawB[:lo:lo], q.RawB[hi:]...)
		})
	}
	if q := at(m.best); q.Body != nil && len(q.Body) < 20000 {
		m.chunks(func(sc *Scenario) int { return len(at(sc).Body) }, func(sc *Scenario, lo, hi int) {
			q := at(sc)
			q.Body = append(q.Body[:lo:lo], q.Body[hi:]...)
		})
	}
	if at(m.best).Doc == nil {
		return
	}
	// operations that are not asked for
	edit(func(q *ReqSpec) bool {
		if q.Doc == nil || len(q.Doc.Ops) < 2 || q.Op == "" {
			return false
		}
		var keep []*Op
		for _, o := range q.Doc.Ops {
			if o.Name == q.Op {
				keep = append(keep, o)
			}
		}
		if len(keep) == 0 {
			return false
		}
		q.Doc.Ops, q.Doc.Order = keep, nil
		return true
	})
	edit(func(q *ReqSpec) bool {
		if q.Doc == nil || len(q.Doc.Frags) == 0 {
			return false
		}
		used := map[string]bool{}
		eachSel(q.Doc, func(s *Sel) {
			if s.Kind == 1 {
				used[s.Name] = true
			}
		})
		var keep []*Frag
		for _, f := range q.Doc.Frags {
			if used[f.Name] {
				keep = append(keep, f)
			}
		}
		if len(keep) == len(q.Doc.Frags) {
			return false
		}
		q.Doc.Frags, q.Doc.Order = keep, nil
		return true
	})
	// selections; a selection set keeps at least one
	for k := 0; ; k++ {
		q := at(m.best)
		if q.Doc == nil {
			return
		}
		l := sels(q.Doc)
		if k >= len(l) || realNow() > m.end {
			break
		}
		if len(*l[k]) > 1 {
			for j := 0; j < len(*l[k]); j++ {
				m.try(func(sc *Scenario) bool {
					s := sels(at(sc).Doc)[k]
					if j >= len(*s) || len(*s) < 2 {
						return false
					}
					*s = []*Sel{(*s)[j]}
					return true
				})
				l = sels(at(m.best).Doc)
				if k >= len(l) {
					break
				}
			}
		}
		for j := 0; k < len(l) && j < len(*l[k]); {
			ok := m.try(func(sc *Scenario) bool {
				s := sels(at(sc).Doc)[k]
				if len(*s) < 2 {
					return false
				}
				*s = append((*s)[:j:j], (*s)[j+1:]...)
				return true
			})
			if !ok {
				j++
			}
			l = sels(at(m.best).Doc)
		}
	}
	// directives and aliases
	n := 0
	eachSel(at(m.best).Doc, func(*Sel) { n++ })
	for k := 0; k < n && realNow() < m.end; k++ {
		nth := func(q *ReqSpec) *Sel {
			var r *Sel
			i := 0
			eachSel(q.Doc, func(s *Sel) {
				if i == k {
					r = s
				}
				i++
			})
			return r
		}
		edit(func(q *ReqSpec) bool {
			s := nth(q)
			d := s != nil && len(s.Dirs) > 0
			if d {
				s.Dirs = nil
			}
			return d
		})
		edit(func(q *ReqSpec) bool {
			s := nth(q)
			d := s != nil && len(s.Dirs) > 1
			if d {
				s.Dirs = s.Dirs[:1]
			}
			return d
		})
	}
}
