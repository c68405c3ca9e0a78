package main

import (
	"runtime"
	"strings"
)

// Oracles that need more than a comparison of one answer: introspection,
// replicas, nesting and memory.

// ---- C14 ----

func genC14(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	sc.Cfg.NoIntro = false
	if sc.Cfg.MaxDepth > 0 && sc.Cfg.MaxDepth < 20 {
		sc.Cfg.MaxDepth = 0
	}
	w := swarm(r, weights{"ok": 6, "err": 2, "panic": 2, "cancel": 2, "net": 1, "bad": 2, "deep": 1, "intro": 8, "batch": 1, "file": 1, "trace": 1, "reject": 1})
	n := 1
	for i := length(r, thorough, 2, 8); i > 0; i-- {
		switch {
		case r.p(1, 3):
			sc.Steps = append(sc.Steps, Step{Op: "req", On: r.n(n), Req: request(r, w.pick(r), &sc.Cfg)})
		case r.p(1, 5):
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: r.n(n)})
			n++
		default:
			s := Step{Op: "ask", On: r.n(n), N: r.n(7), To: r.n(len(introTypes))}
			if r.p(1, 3) {
				// user code fails while introspection is being answered
				s.Req = &ReqSpec{Plan: []Act{{At: 0, Do: pick(r, []string{"panic", "err", "cancel"}), S: "x"}}, Ctx: "live"}
			}
			sc.Steps = append(sc.Steps, s)
		}
	}
	sc.Steps = append(sc.Steps, Step{Op: "ask", On: r.n(n), N: r.n(7), To: r.n(len(introTypes))}, Step{Op: "ask", On: r.n(n), N: 0})
}

type introSeen struct {
	bodies map[string]string // question -> answer
	types  map[string]string // type -> description
	kinds  map[string]string
	full   bool
}

const ftFrag = ` fragment FT on __Type{` + fullType + `}`
const rtFrag = ` fragment RT on __Type{...FT ofType{...FT ofType{...FT ofType{...FT ofType{...FT ofType{...FT}}}}}}`

// introQuestions are the routes to type descriptions.
func introQuestion(n int, typ string) string {
	switch n {
	case 1:
		return `{__type(name:"` + typ + `"){...FT}}` + ftFrag
	case 2:
		return `{__schema{queryType{...FT} mutationType{...FT} subscriptionType{...FT}}}` + ftFrag
	case 3:
		return `{__type(name:"` + typ + `"){...FT fields(includeDeprecated:true){n:name t:type{...RT} a:args{n:name t:type{...RT}}} i:inputFields{n:name t:type{...RT}}}}` + ftFrag + rtFrag
	case 4:
		return `{__type(name:"` + typ + `"){...FT i:interfaces{...FT p:possibleTypes{...FT}} p:possibleTypes{...FT i:interfaces{...FT}}}}` + ftFrag
	case 5:
		return `{__schema{directives{name description locations args{name description type{...RT} defaultValue}}}}` + ftFrag + rtFrag
	case 6:
		return `{title __schema{types{...FT}} q:__schema{queryType{...FT}} t:__type(name:"` + typ + `"){...FT} word}` + ftFrag
	}
	return fullIntro
}

func runC14(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	seen := &introSeen{map[string]string{}, map[string]string{}, map[string]string{}, false}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if s.Op != "ask" {
			if !x.do(s) {
				x.exec(x.insts[s.On%len(x.insts)], s.Req, execOpts{})
			}
			continue
		}
		typ := introTypes[s.To%len(introTypes)]
		q := &ReqSpec{RawB: []byte(introQuestion(s.N, typ))}
		if s.Req != nil && s.N == 6 {
			c := *s.Req
			c.RawB = q.RawB
			x.exec(x.insts[s.On%len(x.insts)], &c, execOpts{})
		}
		o := x.exec(x.insts[s.On%len(x.insts)], q, execOpts{})
		if o.Panic != "" || len(o.Errs) > 0 {
			x.fail(o.class("introspection"), "%s: panic %q errors %q", q.RawB, o.Panic, o.Errs)
			return
		}
		if b, ok := seen.bodies[string(q.RawB)]; ok {
			if b != string(o.Body) {
				x.fail("changed", "instance %d: %s: the answer %s", s.On%len(x.insts), clip(q.RawB), diffText(string(o.Body), b))
				return
			}
			x.hit("again")
		}
		seen.bodies[string(q.RawB)] = string(o.Body)
		j, err := parseJSON(o.Body)
		if err != nil {
			x.fail("malformed", "%v", err)
			return
		}
		if d := seen.collect(j.get("data")); d != "" {
			x.fail("route", "%s: %s", clip(q.RawB), d)
			return
		}
		if s.N == 0 && !seen.full {
			seen.full = true
			if d := selfConsistent(j.get("data").get("__schema")); d != "" {
				x.fail("consistent", "%s", d)
				return
			}
			// every listed type can be asked for by name
			for _, t := range j.get("data").get("__schema").get("types").L {
				n := t.get("name").S
				a := x.exec(x.insts[s.On%len(x.insts)], &ReqSpec{RawB: []byte(introQuestion(1, n))}, execOpts{})
				ja, err := parseJSON(a.Body)
				if err != nil || len(a.Errs) > 0 {
					x.fail("route", "__type(name:%q): %v %q", n, err, a.Errs)
					return
				}
				got := ja.get("data").get("__type")
				if got == nil || got.K != 'o' || got.get("name").String() != t.get("name").String() {
					x.fail("route", "type %q is listed but __type(name:%q) is %s", n, n, clip([]byte(got.String())))
					return
				}
				if d := seen.collect(ja); d != "" {
					x.fail("route", "by name: %s", d)
					return
				}
			}
			x.hit("routes")
		}
	}
}

// collect compares every complete type description found anywhere in an answer.
func (s *introSeen) collect(j *J) string {
	if j == nil {
		return ""
	}
	if j.K == 'o' && j.get("possibleTypes") != nil && j.get("inputFields") != nil && j.get("name") != nil && j.get("kind") != nil {
		if n := j.get("name"); n.K == 's' {
			// the members of the fragment, without others
			var b strings.Builder
			for _, k := range []string{"kind", "name", "description", "fields", "inputFields", "interfaces", "enumValues", "possibleTypes"} {
				b.WriteString(" " + k + ":")
				short(&b, j.get(k))
			}
			d := b.String()
			if w, ok := s.types[n.S]; ok && w != d {
				return sprint("type %s is described in two ways: %s", n.S, diffText(d, w))
			}
			s.types[n.S] = d
		}
	}
	for _, e := range j.L {
		if d := s.collect(e); d != "" {
			return d
		}
	}
	return ""
}

// short writes the parts of a description that every route asks for.
func short(b *strings.Builder, j *J) {
	if j == nil {
		b.WriteString("<none>")
		return
	}
	switch j.K {
	case 'l':
		b.WriteByte('[')
		for _, e := range j.L {
			short(b, e)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, k := range j.Keys {
			switch k {
			case "n", "t", "a", "i", "p":
				continue
			}
			if j.get("possibleTypes") != nil && k != "name" && k != "kind" && k != "ofType" {
				// a whole type where others ask for a reference
				continue
			}
			if k == "ofType" && j.L[i].K == '0' {
				continue
			}
			b.WriteString(k + ":")
			short(b, j.L[i])
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	default:
		j.write(b)
	}
}

// selfConsistent checks a complete introspection answer.
func selfConsistent(s *J) string {
	types := map[string]*J{}
	for _, t := range s.get("types").L {
		n := t.get("name")
		if n.K != 's' {
			return "a listed type has no name: " + clip([]byte(t.String()))
		}
		if types[n.S] != nil {
			return "type " + n.S + " is listed twice"
		}
		types[n.S] = t
	}
	for _, k := range []string{"queryType", "mutationType"} {
		if t := s.get(k); t.K != 'o' || types[t.get("name").S] == nil || types[t.get("name").S].get("kind").S != "OBJECT" {
			return k + " is not one of the listed objects: " + t.String()
		}
	}
	// ref checks a reference and returns the named type's kind
	ref := func(where string, t *J) (string, string) {
		for i := 0; i < 8; i++ {
			if t == nil || t.K != 'o' {
				return "", where + ": the type has no name at its end"
			}
			k := t.get("kind").S
			if k == "LIST" || k == "NON_NULL" {
				in := t.get("ofType")
				if k == "NON_NULL" && in != nil && in.K == 'o' && in.get("kind").S == "NON_NULL" {
					return "", where + ": NON_NULL of NON_NULL"
				}
				t = in
				continue
			}
			n := t.get("name")
			if n.K != 's' || types[n.S] == nil {
				return "", where + ": type " + n.String() + " is not listed"
			}
			if o := t.get("ofType"); o != nil && o.K != '0' {
				return "", where + ": " + n.S + " has an ofType"
			}
			if types[n.S].get("kind").S != k {
				return "", where + ": type " + n.S + " is of kind " + k + " here and " + types[n.S].get("kind").S + " in the list"
			}
			return k, ""
		}
		return "", where + ": endless"
	}
	in := func(where string, list *J) string {
		names := map[string]bool{}
		for _, a := range list.L {
			n := a.get("name").S
			if names[n] {
				return where + "." + n + " twice"
			}
			names[n] = true
			k, d := ref(where+"."+n, a.get("type"))
			if d != "" {
				return d
			}
			if k != "SCALAR" && k != "ENUM" && k != "INPUT_OBJECT" {
				return where + "." + n + " is an input of kind " + k
			}
		}
		return ""
	}
	has := func(list *J, name string) bool {
		for _, e := range list.L {
			if e.get("name").S == name {
				return true
			}
		}
		return false
	}
	for _, tn := range sortedKeys(types) {
		t := types[tn]
		want := map[string]bool{}
		switch k := t.get("kind").S; k {
		case "OBJECT":
			want["fields"], want["interfaces"] = true, true
		case "INTERFACE":
			want["fields"], want["possibleTypes"] = true, true
		case "ENUM":
			want["enumValues"] = true
		case "INPUT_OBJECT":
			want["inputFields"] = true
		case "SCALAR":
		default:
			return "type " + tn + " has kind " + k
		}
		for _, m := range []string{"fields", "interfaces", "possibleTypes", "enumValues", "inputFields"} {
			l := t.get(m)
			if want[m] && l.K != 'l' {
				return tn + "." + m + " is " + clip([]byte(l.String()))
			}
			if !want[m] && l.K == 'l' && len(l.L) > 0 {
				return tn + "." + m + " has entries though it is a " + t.get("kind").S
			}
		}
		names := map[string]bool{}
		for _, f := range t.get("fields").L {
			n := f.get("name").S
			if names[n] {
				return tn + "." + n + " twice"
			}
			names[n] = true
			k, d := ref(tn+"."+n, f.get("type"))
			if d != "" {
				return d
			}
			if k == "INPUT_OBJECT" {
				return tn + "." + n + " is of an input type"
			}
			if d := in(tn+"."+n, f.get("args")); d != "" {
				return d
			}
		}
		if d := in(tn, t.get("inputFields")); d != "" {
			return d
		}
		names = map[string]bool{}
		for _, e := range t.get("enumValues").L {
			n := e.get("name").S
			if names[n] {
				return tn + "." + n + " twice"
			}
			names[n] = true
		}
		for _, i := range t.get("interfaces").L {
			k, d := ref(tn+" implements", i)
			if d != "" {
				return d
			}
			if k != "INTERFACE" {
				return tn + " implements a " + k
			}
			it := types[i.get("name").S]
			if !has(it.get("possibleTypes"), tn) {
				return tn + " implements " + i.get("name").S + ", which does not list it"
			}
			for _, f := range it.get("fields").L {
				if !has(t.get("fields"), f.get("name").S) {
					return tn + " lacks " + f.get("name").S + " of " + i.get("name").S
				}
			}
		}
		for _, p := range t.get("possibleTypes").L {
			k, d := ref(tn+" possible", p)
			if d != "" {
				return d
			}
			if k != "OBJECT" {
				return tn + " can be a " + k
			}
			if !has(types[p.get("name").S].get("interfaces"), tn) {
				return p.get("name").S + " does not list its interface " + tn
			}
		}
	}
	for _, d := range s.get("directives").L {
		if e := in("@"+d.get("name").S, d.get("args")); e != "" {
			return e
		}
	}
	return ""
}

// ---- C15 ----

func genC15(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	k := r.rng(1, 3)
	if thorough {
		k = r.rng(2, 6)
	}
	for ; k > 0; k-- {
		sc.Seeds = append(sc.Seeds, r.u64()>>1)
	}
	w := swarm(r, everything)
	w["intro"] = 3
	n := 1
	for _, q := range history(r, &sc.Cfg, length(r, thorough, 2, 8), w) {
		sc.Steps = append(sc.Steps, Step{Op: "req", Req: q, On: r.n(n)})
		if r.p(1, 8) {
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: r.n(n)})
			n++
		}
		if r.p(1, 5) {
			sc.Steps = append(sc.Steps, Step{Op: "req", On: r.n(n), Req: &ReqSpec{RawB: []byte(pick(r, []string{
				`{leaf{twin color}leaves{twin}box{leaf{twin}leafP{twin}items{twin}ptrs{twin}}node{leaves{twin}}}`,
				`{__type(name:"Twin"){enumValues{name}}}`,
				`{__schema{types{name enumValues{name}}}}`,
				`{__schema{directives{name locations args{name}}}}`,
				`{__schema{types{name possibleTypes{name} interfaces{name}}}}`,
				byNames(r), byNames(r),
				fullIntro}))}})
		}
	}
}

// byNames asks for some types by name.
func byNames(r *Rand) string {
	q := "{"
	for i := r.rng(1, 6); i > 0; i-- {
		q += sprint("t%d:__type(name:%q){%s} ", i, pick(r, introTypes), pick(r, []string{"name", "kind name", fullType, "name fields{name type{name}}"}))
	}
	return q + "}"
}

func runC15(x *runner) {
	sc := x.sc
	var sets [][]*inst
	for _, seed := range append([]uint64{sc.Cfg.MapSeed}, sc.Seeds...) {
		c := sc.Cfg
		c.MapSeed = seed
		sets = append(sets, []*inst{buildSchema(&c)})
	}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if s.Op != "req" {
			for k := range sets {
				x.insts = sets[k]
				x.do(s)
				sets[k] = x.insts
			}
			continue
		}
		var first *Outcome
		for k := range sets {
			o := x.exec(sets[k][s.On%len(sets[k])], s.Req, execOpts{})
			if first == nil {
				first = o
				continue
			}
			if d := o.same(first); d != "" {
				x.fail("replica", "server %d: %s", k, d)
				return
			}
			x.hit("compared")
		}
	}
}

// ---- C17 ----

func genC17(r *Rand, sc *Scenario, thorough bool) {
	randCfg(r, sc)
	if r.p(1, 2) {
		sc.Cfg.MaxDepth = pick(r, []int{2, 3, 4, 5, 6, 7, 8, 12, 20, 40, 100, 200, 254, 255})
	}
	if r.p(1, 25) {
		sc.Cfg.MaxDepth = -1 // "no limit"
	}
	max := sc.Cfg.MaxDepth
	if max <= 0 {
		max = 255
	}
	for i := length(r, thorough, 1, 5); i > 0; i-- {
		s := Step{Op: "req"}
		switch r.n(8) {
		case 0, 1:
			s.Req = deepReq(r, &sc.Cfg)
		case 2:
			s.Req = chain(r, max+pick(r, []int{-3, -2, -2, -1, -1, 0, 1, 2, 30, 300}))
			if s.Req.Doc == nil || len(s.Req.Doc.Ops) == 0 {
				s.Req = deepReq(r, &sc.Cfg)
			}
		case 3, 4:
			s.Req = recursive(r, max)
		case 5:
			s.Req, s.N = endless(r), 1
		case 6:
			s.Req, s.N = hugeReq(r, thorough), 2
		case 7:
			s.Req = genReq(r, defOpts(r))
		}
		if s.N == 0 && r.p(1, 6) {
			s.Req.Tracing = true
		}
		if s.N == 0 && r.p(1, 6) {
			s.Req.Ctx = "live"
		}
		sc.Steps = append(sc.Steps, s)
		if r.p(1, 8) {
			sc.Steps = append(sc.Steps, Step{Op: "copy", On: 0, To: 0})
		}
		if r.p(1, 2) {
			sc.Steps = append(sc.Steps, Step{Op: "req", N: 3, Req: request(r, pick(r, []string{"ok", "ok", "err", "deep", "intro", "trace"}), &sc.Cfg)})
		}
	}
	sc.Steps = append(sc.Steps, Step{Op: "req", N: 3, Req: request(r, pick(r, []string{"ok", "ok", "err", "deep"}), &sc.Cfg)})
}

// recursive is a query with a fragment that includes itself below a field:
// over data that never ends, or over data that does.
func recursive(r *Rand, max int) *ReqSpec {
	q := &ReqSpec{Doc: &Doc{}, Style: uint64(r.n(1 << 20))}
	f := &Frag{Name: "R", On: "Node"}
	spread := func() []*Sel {
		s := []*Sel{{Kind: 1, Name: "R"}}
		if r.p(1, 8) {
			s[0].Dirs = []Dir{{Name: "include", Args: []Arg{{"if", Val{K: "bool", S: pick(r, []string{"true", "true", "false"})}}}}}
		}
		if r.p(1, 3) {
			s = append([]*Sel{{Name: "name"}}, s...)
		}
		if r.p(1, 4) {
			s = []*Sel{{Kind: 2, Name: "Node", Sel: s}}
		}
		return s
	}
	hop := func() *Sel {
		switch r.n(7) {
		case 0:
			return &Sel{Name: "next", Sel: spread()}
		case 1:
			return &Sel{Name: "kids", Args: []Arg{{"n", Val{K: "int", S: pick(r, []string{"1", "1", "2", "3"})}}}, Sel: spread()}
		case 2:
			return &Sel{Name: "maybe", Sel: spread()}
		case 3:
			return &Sel{Name: "kid", Sel: spread()}
		case 4:
			return &Sel{Name: "pair", Sel: spread()}
		case 5:
			return &Sel{Name: "shape", Sel: []*Sel{
				{Kind: 2, Name: "Circle", Sel: []*Sel{{Name: "owner", Sel: spread()}}},
				{Kind: 2, Name: "Square", Sel: []*Sel{{Name: "corner", Sel: spread()}}}}}
		}
		return &Sel{Name: "self", Sel: spread()}
	}
	if r.p(1, 2) {
		f.Sel = append(f.Sel, &Sel{Name: pick(r, []string{"name", "word", "rank", "id"})})
	}
	f.Sel = append(f.Sel, hop())
	if max <= 6 && r.p(1, 2) {
		h := hop()
		h.Alias = "second"
		f.Sel = append(f.Sel, h)
	}
	if r.p(1, 3) {
		f.Sel = append(f.Sel, &Sel{Name: "rank", Alias: "after"})
	}
	q.Doc.Frags = []*Frag{f}
	root := &Sel{Name: pick(r, []string{"node", "start", "nodePtr"}), Sel: []*Sel{{Kind: 1, Name: "R"}}}
	if r.p(1, 4) {
		root = &Sel{Name: "nodes", Args: []Arg{{"n", Val{K: "int", S: "2"}}}, Sel: root.Sel}
	}
	q.Doc.Ops = []*Op{{Kind: "query", Sel: []*Sel{root}}}
	if r.p(1, 3) {
		q.Doc.Ops[0].Sel = append(q.Doc.Ops[0].Sel, &Sel{Name: "title"})
	}
	return q
}

// endless are fragments that include themselves without end on one object.
func endless(r *Rand) *ReqSpec {
	if r.p(2, 3) {
		return ring(r)
	}
	return &ReqSpec{RawB: []byte(pick(r, []string{
		`{...A} fragment A on Query{...A}`,
		`{...A} fragment A on Query{title ...A}`,
		`{...A} fragment A on Query{...B} fragment B on Query{...A}`,
		`{...A} fragment A on Query{a:title ...B} fragment B on Query{b:title ...C c:title} fragment C on Query{...A d:title}`,
		`{node{...A}} fragment A on Node{name ...A}`,
		`{node{...A}} fragment A on Node{...on Node{...on Node{...A}}}`,
		`{node{...A}} fragment A on Node{next{...B}} fragment B on Node{name ...B}`,
		`{nodes(n:3){...A}} fragment A on Node{id ...A}`,
		`{node{next{kids(n:2){...A}}}} fragment A on Node{...B id} fragment B on Node{id ...A}`,
		`{node{shape{...A}}} fragment A on Circle{...A}`,
		`mutation{...A} fragment A on Mut{title ...A}`,
		`{title ...A word} fragment A on Query{word ...A}`,
		`{...A ...A} fragment A on Query{...A ...A}`,
		`{...on Query{...A}} fragment A on Query{...on Query{...A}}`,
		`{__schema{types{...T}}} fragment T on __Type{name ...T}`,
		`{__schema{types{...T}}} fragment T on __Type{name fields{type{...T}}}`,
	}))}
}

// ring is a query with fragments that include one another in a circle, with
// all kinds of other selections around the inclusions.
func ring(r *Rand) *ReqSpec {
	type where struct{ open, close, on string }
	w := pick(r, []where{{"{", "}", "Query"}, {"{node{", "}}", "Node"}, {"{nodes(n:2){", "}}", "Node"}, {"{start{next{", "}}}", "Node"}, {"mutation{", "}", "Mut"}})
	sels := map[string][]string{
		"Query": {"title", "t%d:title", "word", "node{id}", "n%d:node{name next{id}}", "k%d:nodes(n:2){id name}", "__typename", "s%d:start{...Z}", "...on Query{word}", "...on Other{title}", "...Y", "title@skip(if:true)", "...Y@skip(if:true)"},
		"Node":  {"name", "n%d:id", "rank", "next{id}", "x%d:next{next{name}}", "k%d:kids(n:2){id}", "m%d:maybe{...Z}", "p%d:pair{id ...Z}", "shape{__typename}", "__typename", "...Z", "...on Node{word}", "self{...Z}", "...on Other{id}", "id@include(if:false)", "...Z@include(if:false)"},
		"Mut":   {"title", "t%d:title", "__typename", "...on Mut{title}"},
	}[w.on]
	some := func() string {
		out := ""
		for i := r.n(4); i > 0; i-- {
			s := pick(r, sels)
			if strings.Contains(s, "%d") {
				s = sprint(s, r.n(30))
			}
			out += " " + s
		}
		return out
	}
	n := r.rng(1, 4)
	if r.p(1, 12) {
		n = r.rng(5, 60)
	}
	names := make([]string, n)
	for i := range names {
		names[i] = sprint("F%d", i)
	}
	spread := func(to string) string {
		s := "..." + to
		if r.p(1, 8) {
			s += "@include(if:true)"
		}
		for r.p(1, 5) {
			s = "...on " + w.on + "{" + some() + " " + s + "}"
		}
		return s
	}
	q := w.open + some() + " " + spread(names[0]) + some() + w.close
	frags := []string{"fragment Z on Node{name}", "fragment Y on Query{word}"}
	for i := range names {
		b := some() + " " + spread(names[(i+1)%n])
		if r.p(1, 4) {
			b += some() + " " + spread(names[r.n(n)])
		}
		frags = append(frags, "fragment "+names[i]+" on "+w.on+"{"+b+some()+"}")
	}
	for i := range frags {
		j := r.n(len(frags))
		frags[i], frags[j] = frags[j], frags[i]
	}
	return &ReqSpec{RawB: []byte(q + strings.Join(frags, pick(r, []string{" ", "\n", ""})))}
}

func runC17(x *runner) {
	sc := x.sc
	x.insts = []*inst{x.fresh()}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		x.step = i
		if x.do(s) {
			continue
		}
		o := x.exec(x.insts[0], s.Req, execOpts{})
		if o.Panic != "" && !o.Planned {
			x.fail(o.class("panic"), "%s", o.Panic)
			return
		}
		switch s.N {
		case 0:
			if d := wellFormed(s.Req, o); d != "" {
				x.fail("malformed", "%s", d)
				return
			}
			if s.Req.Doc == nil || sc.Cfg.MaxDepth < 0 {
				continue
			}
			c := sc.Cfg
			m := newModel(s.Req, &c, s.Req.Plan).run()
			if m.unknown != "" {
				probe("model.unknown")
				continue
			}
			if d := m.check(o); d != "" {
				x.fail("model", "%s", d)
				return
			}
			if m.depthHit {
				if len(o.Errs) == 0 {
					x.fail("limit", "nesting beyond the limit without an error: %s", clip(o.Body))
					return
				}
				x.hit("beyond")
			} else if m.deepest >= m.max-2 {
				x.hit("below")
			}
		case 1:
			if d := wellFormed(s.Req, o); d != "" {
				x.fail("malformed", "%s", d)
				return
			}
			if len(o.Errs) == 0 {
				// a fragment on a type that does not occur is not an error
				if !strings.Contains(string(s.Req.RawB), "on Circle") {
					x.fail("limit", "%s is answered without an error", s.Req.RawB)
					return
				}
			}
			x.hit("endless")
		case 2:
			if d := wellFormed(s.Req, o); d != "" {
				x.fail("malformed", "%s", d)
				return
			}
			if o.Steps > 1000+700*int64(len(s.Req.RawB)+len(s.Req.Body)) {
				probe("huge.work")
			}
			x.hit("huge")
		case 3:
			g := x.exec(x.fresh(), s.Req, execOpts{})
			if d := o.same(g); d != "" {
				x.fail("after", "after deep requests: %s", d)
				return
			}
		}
	}
}

// ---- C18 ----

func genC18(r *Rand, sc *Scenario, thorough bool) {
	n := pick(r, []int{0, 20, 20, 100})
	sc.Cfg.Cache = &n
	sc.N = pick(r, []int{0, 0, 0, 1, 2, 3})
	sc.Text = sprint("%d", r.n(1000))
	switch sc.N {
	case 0: // more queries and lengths than are remembered
		sc.Cfg.World = uint64(r.n(40))
		// kinds of traffic, in turns
		for i := r.rng(1, 3); i > 0; i-- {
			sc.Steps = append(sc.Steps, Step{Op: "req", N: r.n(len(rememberable))})
		}
		sc.Steps = append(sc.Steps, Step{Op: "shape", N: r.n(len(shapes)), To: r.n(4)})
	case 1, 2: // nothing is remembered; every request is different
		n = 1 << 40
		if r.p(1, 3) {
			n = 100
		}
		for i := r.rng(3, 8); i > 0; i-- {
			sc.Steps = append(sc.Steps, Step{Op: "req", N: r.n(len(uniques))})
		}
	case 3: // the same requests again and again
		n = pick(r, []int{0, 100, 1 << 40})
		w := swarm(r, everything)
		delete(w, "big")
		delete(w, "deep")
		delete(w, "intro")
		w["ok"] = 2
		for i := r.rng(4, 10); i > 0; i-- {
			sc.Steps = append(sc.Steps, Step{Op: "req", Req: request(r, w.pick(r), &sc.Cfg)})
		}
	}
}

// shapes are numbers of query lengths and of queries per length in a phase.
var shapes = [][2]int{{130, 24}, {130, 24}, {1, 2400}, {3, 800}, {40, 60}, {99, 24}, {101, 24}, {400, 6}}

// rememberable are requests the instance may remember: n is never the same
// twice, l is the length of the query.
var rememberable = []func(n, l int) *ReqSpec{
	fillQuery,
	fillQuery,
	func(n, l int) *ReqSpec { return padded(sprint("query op{f%07d:title}", n), l, "op") },
	func(n, l int) *ReqSpec {
		return padded(sprint("query op%07d{f:title}", n), l, sprint("op%07d", n))
	},
	func(n, l int) *ReqSpec { return padded(sprint("query op{f%07d:title}", n), l, "other") },
	func(n, l int) *ReqSpec { return padded("query op{f:title}", l, sprint("other%07d", n)) },
	func(n, l int) *ReqSpec { return padded("query op{f:title}", l, sprint("%*d", 1+n%200, n)) },
	func(n, l int) *ReqSpec { return padded(sprint("query a{title} query b{f%07d:title}", n), l, "b") },
	func(n, l int) *ReqSpec {
		return padded(sprint("{...a ...b} fragment a on Query{f%07d:title} fragment b on Query{title}", n), l, "")
	},
	func(n, l int) *ReqSpec {
		q := padded("query($v:Int){title fn(x:$v)}", l, "")
		q.HasVars, q.VarsRaw = true, sprint(`{"v":1,"n%07d":%d}`, n, n)
		return q
	},
	func(n, l int) *ReqSpec {
		q := fillQuery(n, l)
		q.Tracing = true
		return q
	},
	func(n, l int) *ReqSpec { q := fillQuery(n, l); q.Via = "get"; return q },
	func(n, l int) *ReqSpec {
		q := padded(sprint("query op{f%07d:title}", n), l, "op")
		q.Via = "json"
		return q
	},
	func(n, l int) *ReqSpec { return padded(sprint("{f%07d:nope}", n), l, "") },
	func(n, l int) *ReqSpec { return padded(sprint("{f%07d:title", n), l, "") },
	func(n, l int) *ReqSpec { return padded(sprint("mutation m{f%07d:bump}", n), l, "m") },
}

// padded is a query with a comment that makes it as long as l.
func padded(text string, l int, op string) *ReqSpec {
	if n := l - len(text) - 1; n > 0 {
		text += "#" + strings.Repeat("p", n)
	}
	return &ReqSpec{RawB: []byte(text), Op: op}
}

// uniques are queries in which some name is new every time.
var uniques = []string{
	`{n%07d:title}`,
	`query op%07d{title}`,
	`{...f%07d} fragment f%07d on Query{title}`,
	`{nope%07d}`,
	`query($v%07d:Int){fn(x:$v%07d)}`,
	`{enums(c:C%07d)}`,
	`{__type(name:"T%07d"){name}}`,
	`{title @d%07d}`,
	`{texts(s:"text %07d")}`,
	`{...on T%07d{title}}`,
	`query($v:T%07d){title}`,
	`{input(in:{nope%07d:1})}`,
	`{title @tag(s:"s%07d")}`,
	`{node{label(p:"%07d")}}`,
	`mutation m%07d{bump}`,
	`{unclosed%07d`,
}

func heapNow() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runC18(x *runner) {
	sc := x.sc
	in := x.fresh()
	x.insts = []*inst{in}
	next := 0
	var phase func()
	margin := int64(160 << 10)
	switch sc.N {
	case 0:
		shape, repeat := shapes[0], 1
		var kinds []int
		for _, s := range sc.Steps {
			if s.Op == "shape" {
				shape = shapes[s.N%len(shapes)]
				if s.To == 0 {
					repeat = 2
				}
			} else {
				kinds = append(kinds, s.N%len(rememberable))
			}
		}
		if len(kinds) == 0 {
			kinds = []int{0}
		}
		if shape[0] >= 99 {
			margin = 900 << 10 // any lengths are dropped
		}
		phase = func() {
			// many lengths of many queries each, in turns
			for k := 0; k < shape[1]; k++ {
				for l := 0; l < shape[0]; l++ {
					q := rememberable[kinds[next%len(kinds)]](next, 1000+l)
					for i := 0; i < repeat; i++ {
						o := in.exec(q, execOpts{})
						if o.Panic != "" {
							x.fail("panic", "panic %q", o.Panic)
						}
						x.requests++
						x.steps += o.Steps
					}
					next++
				}
			}
		}
	case 1, 2:
		phase = func() {
			for k := 0; k < 3000; k++ {
				t := uniques[sc.Steps[k%len(sc.Steps)].N%len(uniques)]
				n := strings.Count(t, "%07d")
				args := []interface{}{}
				for ; n > 0; n-- {
					args = append(args, next)
				}
				o := in.exec(&ReqSpec{RawB: []byte(sprint(t, args...))}, execOpts{})
				if o.Panic != "" {
					x.fail(o.class("panic"), "%s", o.Panic)
				}
				x.requests++
				x.steps += o.Steps
				next++
			}
		}
		if *sc.Cfg.Cache == 100 {
			margin = 300 << 10
		}
	case 3:
		phase = func() {
			for k := 0; k < 1200; k++ {
				o := in.exec(sc.Steps[k%len(sc.Steps)].Req, execOpts{})
				x.requests++
				x.steps += o.Steps
			}
		}
	}
	x.hit("phases")
	phase()
	phase()
	h1 := heapNow()
	phase()
	h2 := heapNow()
	phase()
	h3 := heapNow()
	if x.viol != "" {
		return
	}
	if h2 > h1+margin && h3 > h2+margin/2 || h3 > h1+2*margin {
		x.fail("grows", "the heap grows: %d, %d, %d bytes after equal numbers of requests", h1, h2, h3)
		return
	}
	if sc.N == 0 {
		// what is new is still remembered
		for k := 0; k < 3; k++ {
			q := fillQuery(next, 1000+pick(newRand(uint64(next)+sc.Seed), []int{0, 50, 129, 200, 700}))
			next++
			a := x.exec(in, q, execOpts{})
			b := x.exec(in, q, execOpts{})
			fresh := x.fresh()
			c := x.exec(fresh, q, execOpts{})
			d := x.exec(fresh, q, execOpts{})
			if d.Steps*2 < c.Steps && b.Steps*2 > a.Steps {
				x.fail("forgets", "a new query is not remembered any more: %d and %d statements, %d and %d on a fresh server", a.Steps, b.Steps, c.Steps, d.Steps)
				return
			}
		}
	}
	runtime.KeepAlive(in)
}
