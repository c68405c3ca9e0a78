package main

import (
	"strconv"
	"strings"
)

// The kinds of requests the simulated clients send, and what goes wrong in them.

type weights map[string]int

func (w weights) pick(r *Rand) string {
	keys := sortedKeys(w)
	n := 0
	for _, k := range keys {
		n += w[k]
	}
	i := r.n(n)
	for _, k := range keys {
		i -= w[k]
		if i < 0 {
			return k
		}
	}
	return keys[0]
}

// everything is the traffic of a server that is open to the world.
var everything = weights{"ok": 10, "err": 4, "panic": 2, "cancel": 4, "net": 3, "junk": 1, "intro": 2, "batch": 2, "via": 3,
	"trace": 2, "nometa": 1, "deep": 2, "big": 1, "file": 2, "reject": 2, "bad": 3, "values": 3}

// predict runs the model.
func predict(q *ReqSpec, cfg *schemaCfg) *model {
	c := *cfg
	return newModel(q, &c, q.Plan).run()
}

// calls is the number of callbacks of a request, at least 1.
func calls(q *ReqSpec, cfg *schemaCfg) int {
	n := 0
	if q.Doc != nil {
		n = predict(q, cfg).n
	}
	if n < 1 {
		n = 1
	}
	return n
}

var errTexts = []string{"oops", "", "quote \" and \\", "line\nbreak\ttab", "ünïcödé 日本", "{\"json\":true}", "%s %d %!", "\x00\x01\x1f", "</script>", "null", "a very long error text " + strings.Repeat("0123456789", 30), "\u2028", "bad \ue000 utf8 \ue001",
	"nil error", "context canceled", "context deadline exceeded", "EOF", "code 0"}

func (g *gen) opts() *genOpts { return &g.o }

// someErrs makes some resolvers fail.
func someErrs(r *Rand, q *ReqSpec, n int) {
	k := r.rng(1, 3)
	if r.p(1, 5) {
		k = r.rng(3, n+3)
	}
	if r.p(1, 12) {
		q.Plan = append(q.Plan, Act{At: -1, Do: "err", S: pick(r, errTexts), N: int64(r.n(7))})
		return
	}
	used := map[int]bool{}
	for _, a := range q.Plan {
		if a.Do == "err" {
			used[a.At] = true
		}
	}
	for i := 0; i < k; i++ {
		at := r.n(n)
		if used[at] {
			continue
		}
		used[at] = true
		q.Plan = append(q.Plan, Act{At: at, Do: "err", S: pick(r, errTexts), N: int64(r.n(7))})
	}
}

func someSleeps(r *Rand, q *ReqSpec, n int) {
	for i := r.rng(1, 4); i > 0; i-- {
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "sleep", N: sleepTime(r)})
	}
}

func sleepTime(r *Rand) int64 {
	return int64(pick(r, []int{1, 7, 999, 1000, 1_000_000, 1_500_003, 20_000_000, 999_999_999, 3_600_000_000_000, 90_000_000_000_000})) + int64(r.n(1000))
}

func someCancel(r *Rand, q *ReqSpec, n int) {
	switch r.n(5) {
	case 0:
		q.Ctx = "cancelled"
	case 1:
		q.Ctx = "deadline"
		q.CtxN = int64(r.rng(1, 1000)) * 1_000_000
		for i := r.rng(1, 3); i > 0; i-- {
			q.Plan = append(q.Plan, Act{At: r.n(n), Do: "sleep", N: int64(r.rng(0, 1200)) * 1_000_000})
		}
	default:
		q.Ctx = "live"
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "cancel", N: int64(r.n(3)), S: pick(r, errTexts)})
	}
}

func someValues(r *Rand, q *ReqSpec, n int) {
	if r.p(2, 3) {
		for _, k := range valueKeys {
			if r.p(1, 2) {
				q.Values = append(q.Values, KV{k, someVal(r, "host")})
			}
		}
	}
	for i := r.n(4); i > 0; i-- {
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "set", S: pick(r, valueKeys), V: someVal(r, "set")})
	}
	if r.p(1, 2) {
		q.Ctx = "live"
	}
	for i := r.n(3); i > 0; i-- {
		do := "ctx"
		if r.p(1, 4) {
			do = "ctxnil"
		}
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: do, S: "ctx" + strconv.Itoa(r.n(100))})
	}
}

// somePanic makes user code panic somewhere.
func somePanic(r *Rand, q *ReqSpec, n int) {
	switch r.n(8) {
	case 0:
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "errpanic"})
	case 1:
		if q.Ctx == "" {
			q.Ctx = "panics"
			q.CtxN = int64(r.rng(1, n))
			break
		}
		fallthrough
	default:
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "panic", S: pick(r, errTexts), N: int64(r.n(3))})
	}
}

func someNulls(r *Rand, q *ReqSpec, n int) {
	for i := r.rng(1, 3); i > 0; i-- {
		q.Plan = append(q.Plan, Act{At: r.n(n), Do: "null"})
	}
}

func someNet(r *Rand, q *ReqSpec) {
	k := 1
	if r.p(1, 3) {
		k = r.rng(1, 5)
	}
	for i := 0; i < k; i++ {
		q.Net = append(q.Net, NetFault{Do: pick(r, []string{"cut", "flip", "set", "del", "dup", "ins", "ins", "ins", "swap", "rot"}), At: r.n(1 << 20), N: r.n(1 << 16)})
	}
}

// vias are the ways a single request can travel.
var vias = []string{"get", "json", "text", "form"}

// request draws one request of some kind.
func request(r *Rand, kind string, cfg *schemaCfg) *ReqSpec {
	o := defOpts(r)
	switch kind {
	case "ok":
		return genReq(r, o)
	case "err":
		q := genReq(r, o)
		someErrs(r, q, calls(q, cfg))
		return q
	case "panic":
		if r.p(1, 6) {
			q := fileReq(r, o)
			q.Form = true
			q.FilePl = append(q.FilePl, Act{At: r.n(2), Do: "panic", S: pick(r, errTexts)})
			return q
		}
		q := genReq(r, o)
		if r.p(1, 3) {
			q.Tracing = true
		}
		if r.p(1, 4) {
			q.Ctx = "live"
		}
		n := calls(q, cfg)
		if r.p(1, 3) {
			someErrs(r, q, n)
		}
		if r.p(1, 3) {
			someValues(r, q, n)
		}
		somePanic(r, q, n)
		if r.p(1, 4) {
			q.Via = pick(r, vias)
		}
		return q
	case "cancel":
		q := genReq(r, o)
		n := calls(q, cfg)
		someCancel(r, q, n)
		if r.p(1, 4) {
			someErrs(r, q, n)
		}
		return q
	case "async":
		q := genReq(r, o)
		q.Ctx = "live"
		n := calls(q, cfg)
		q.Plan = append(q.Plan, asyncCancel(r, n))
		return q
	case "net":
		q := genReq(r, o)
		if r.p(1, 2) {
			q.Via = pick(r, vias)
		}
		someNet(r, q)
		return q
	case "junk":
		return junk(r)
	case "intro":
		return introReq(r)
	case "batch":
		return batch(r, cfg, weights{"ok": 6, "err": 2, "bad": 2, "junk": 1, "net": 1, "intro": 1, "values": 1})
	case "via":
		q := genReq(r, o)
		q.Via = pick(r, vias)
		if q.Via == "form" && r.p(1, 6) {
			q.FormErr = pick(r, errTexts)
		}
		return q
	case "trace":
		q := genReq(r, o)
		q.Tracing = true
		someSleeps(r, q, calls(q, cfg))
		return q
	case "nometa":
		q := genReq(r, o)
		q.NoMeta = true
		return q
	case "deep":
		if genWorld>>32 != 0 {
			o.Depth = r.rng(5, 20)
			return genReq(r, o)
		}
		return deepReq(r, cfg)
	case "big":
		o.Long = true
		o.Budget = r.rng(20, 60)
		return genReq(r, o)
	case "file":
		return fileReq(r, o)
	case "reject":
		o.Reject = 60
		o.Mistype = pick(r, []int{0, 10, 40})
		o.Args = 90
		o.Vars = 50
		o.Wide = 90
		return genReq(r, o)
	case "bad":
		return badReq(r, cfg)
	case "values":
		q := genReq(r, o)
		someValues(r, q, calls(q, cfg))
		return q
	}
	harnessFail("kind %q", kind)
	return nil
}

// asyncCancel ends the context at a moment between two statements of the library.
func asyncCancel(r *Rand, n int) Act {
	return Act{At: asyncAt(r, n), Do: "cancel", Step: true, N: int64(r.n(3)), S: "async"}
}

func asyncAt(r *Rand, n int) int {
	if r.p(1, 6) {
		return r.n(600)
	}
	return r.n(200 + 160*n)
}

func fileReq(r *Rand, o genOpts) *ReqSpec {
	o.Files = true
	o.Wide = 90
	q := genReq(r, o)
	for i := 0; i < 6; i++ {
		if usesFile(q) {
			break
		}
		q = genReq(r, o)
	}
	if r.p(1, 5) {
		q.FilePl = append(q.FilePl, Act{At: r.n(3), Do: "err", S: pick(r, errTexts)})
	}
	return q
}

func usesFile(q *ReqSpec) bool {
	found := false
	eachSel(q.Doc, func(s *Sel) {
		switch s.Name {
		case "file", "files", "fileIn", "upload":
			if len(s.Args) > 0 {
				found = true
			}
		}
	})
	return found
}

func eachSel(d *Doc, f func(s *Sel)) {
	var walk func(ss []*Sel)
	walk = func(ss []*Sel) {
		for _, s := range ss {
			f(s)
			walk(s.Sel)
		}
	}
	for _, o := range d.Ops {
		walk(o.Sel)
	}
	for _, fr := range d.Frags {
		walk(fr.Sel)
	}
}

// junk is text that has little to do with a query.
func junk(r *Rand) *ReqSpec {
	var b strings.Builder
	n := r.rng(0, 40)
	if r.p(1, 4) {
		n = r.rng(0, 4)
	}
	if r.p(1, 2) {
		b.WriteString(pick(r, []string{"{", "query {", "query a(", "mutation{", "fragment x on Node {", "query($a:", "{a(b:", "{node{", "{a @skip(if:", "[{", "{\"query\":\"{a}\""}))
	}
	for i := 0; i < n; i++ {
		switch r.n(6) {
		case 0:
			b.WriteByte(byte(r.n(256)))
		case 1:
			b.WriteString(pick(r, []string{"a", "node", "name", "title", "x", "Node", "Query", "leaf"}))
		default:
			b.WriteString(pick(r, tokens))
		}
	}
	q := &ReqSpec{RawB: []byte(b.String())}
	switch r.n(6) {
	case 0:
		q.Via = pick(r, vias)
	case 1:
		q.Via = pick(r, []string{"json", "text", "form", "batch"})
		q.Body = []byte(b.String())
		if q.Via == "batch" {
			q.Body = nil
			q.Items = []*ReqSpec{{RawB: q.RawB}, {Body: []byte(b.String())}}
			q.RawB = nil
		}
	}
	if r.p(1, 6) {
		q.VarsRaw = pick(r, badVars)
	}
	if r.p(1, 8) {
		q.Op = pick(r, []string{"a", "", "none", "\x00", "é"})
	}
	return q
}

var badVars = []string{"{", "}", "[]", "null", "0", "\"x\"", "{\"a\":}", "{\"a\":1", "{\"a\":1}}", "nul", " ", "{\"a\":{\"b\":[{}]}}", "{\"a\":1,\"a\":2}", "\ue000", "{\"v\":null}", "{\"v\":[[[[]]]]}", "true", "{a:1}"}

// badReq is a request that is well formed but wrong.
func badReq(r *Rand, cfg *schemaCfg) *ReqSpec {
	o := defOpts(r)
	q := genReq(r, o)
	var sels []*Sel
	eachSel(q.Doc, func(s *Sel) { sels = append(sels, s) })
	s := pick(r, sels)
	op := q.Doc.Ops[0]
	switch r.n(17) {
	case 0:
		if s.Kind == 0 && r.p(1, 3) {
			s.Name = collide(s.Name)
		} else {
			s.Name += "Nope"
		}
	case 1:
		s.Args = append(s.Args, Arg{"nope", Val{K: "int", S: "1"}})
	case 2:
		s.Sel = append(s.Sel, &Sel{Name: "nope"})
	case 3:
		s.Sel = nil
	case 4:
		q.Op = "nope"
	case 5:
		q.VarsRaw = pick(r, badVars)
	case 6:
		q.Vars = nil
	case 7:
		s.Dirs = append(s.Dirs, Dir{Name: "nope"})
	case 8:
		s.Dirs = append(s.Dirs, Dir{Name: pick(r, []string{"skip", "include", "tag", "plain", "gate", "dual", "frag"}), Args: []Arg{{"if", Val{K: pick(r, []string{"null", "int", "enum", "list", "obj"}), S: "1"}}}})
	case 9:
		name := "noSuchFragment"
		if r.p(1, 2) {
			name = strings.Repeat(pick(r, []string{"n", "Fr", "F", "no_"}), r.rng(1, 40))
		}
		if r.p(1, 2) {
			// the name is as long as all that follows it
			return &ReqSpec{RawB: []byte("{..." + name + "} fragment " + pick(r, []string{"f", "F", "Other"}) + " on Query{" + pick(r, []string{"title", "a", "title a", "node{name}"}) + "}")}
		}
		op.Sel = append(op.Sel, &Sel{Kind: 1, Name: name})
	case 10:
		if len(q.Doc.Frags) > 0 {
			f := pick(r, q.Doc.Frags)
			f.Sel = append(f.Sel, &Sel{Kind: 1, Name: f.Name})
		} else {
			op.Sel = append(op.Sel, &Sel{Kind: 1, Name: "Loop"})
			q.Doc.Frags = append(q.Doc.Frags, &Frag{Name: "Loop", On: "Query", Sel: []*Sel{{Name: "title", Alias: "tt"}, {Kind: 1, Name: "Loop"}}})
			q.Doc.Order = nil
		}
	case 11:
		if len(s.Args) > 0 {
			a := &s.Args[r.n(len(s.Args))]
			a.Val = pick(r, []Val{{K: "int", S: "1"}, {K: "float", S: "1.5"}, {K: "bool", S: "true"}, {K: "null"}, {K: "list"}, {K: "obj"}, {K: "enum", S: "NOPE"},
				{K: "str", S: "text"}, {K: "var", S: "undefined"}, {K: "list", L: []Val{{K: "obj", O: []Arg{{"x", Val{K: "int", S: "1"}}}}}}})
		} else {
			s.Args = []Arg{{"x", Val{K: "var", S: "undefined"}}}
		}
	case 12:
		if len(q.Vars) > 0 {
			v := &q.Vars[r.n(len(q.Vars))]
			v.Val = pick(r, []Val{{K: "int", S: "1"}, {K: "float", S: "1.5"}, {K: "bool", S: "true"}, {K: "null"}, {K: "list"}, {K: "obj"}, {K: "str", S: "text"},
				{K: "int", S: "99999999999999999999"}, {K: "list", L: []Val{{K: "null"}, {K: "obj", O: []Arg{{"x", Val{K: "int", S: "1"}}}}}}})
		} else {
			q.VarsRaw = "[1]"
		}
	case 13:
		if len(op.Vars) > 0 {
			v := &op.Vars[r.n(len(op.Vars))]
			v.Type = pick(r, []string{"Nope", "String", "Int!", "[Int]", "[[String!]!]!", "In", "Query", "Node!"})
		} else {
			s.Alias = ""
			s.Name = "__schema"
		}
	case 14:
		op.Kind = "subscription"
	case 15:
		op.Kind = pick(r, []string{"query", "mutation"})
	case 16:
		q.Doc.Ops = nil
		q.Doc.Order = nil
	}
	if r.p(1, 4) {
		q.Via = pick(r, vias)
	}
	if r.p(1, 6) {
		q.NoMeta = true
		q.Via = ""
	}
	return q
}

// deepReq nests about as deep as the schema allows.
func deepReq(r *Rand, cfg *schemaCfg) *ReqSpec {
	max := cfg.MaxDepth
	if max == 0 {
		max = 255
	}
	d := max + r.rng(-3, 3)
	if r.p(1, 4) {
		d = r.rng(1, max+40)
	}
	if d < 1 {
		d = 1
	}
	return chain(r, d)
}

// chain is a query with d objects inside each other.
func chain(r *Rand, d int) *ReqSpec {
	q := &ReqSpec{Doc: &Doc{}, Style: uint64(r.n(1 << 20)), JStyle: uint64(r.n(1 << 20))}
	op := &Op{Kind: "query"}
	q.Doc.Ops = []*Op{op}
	lists := r.p(1, 3)
	iface := r.p(1, 3)
	frags := r.p(1, 3)
	errs := r.p(1, 4)
	names := 0
	// the innermost selection first
	leaf := func(t string) []*Sel {
		switch t {
		case "Node":
			return []*Sel{{Name: pick(r, []string{"name", "id", "rank", "word", "__typename"})}}
		case "Shape":
			return []*Sel{{Name: pick(r, []string{"area", "name", "__typename"})}}
		}
		return []*Sel{{Name: "__typename"}}
	}
	// draw the types on the way down first
	type hop struct {
		sel  *Sel
		next string
		wrap string
	}
	var hops []hop
	t := "Query"
	for i := 0; i < d; i++ {
		h := hop{}
		switch t {
		case "Query":
			switch {
			case iface && r.p(1, 2):
				// always a value: the root's shapes can be absent
				h = hop{sel: &Sel{Name: "node"}, next: "Node"}
			case lists && r.p(1, 2):
				h = hop{sel: &Sel{Name: "nodes", Args: []Arg{{"n", Val{K: "int", S: "1"}}}}, next: "Node"}
			default:
				h = hop{sel: &Sel{Name: pick(r, []string{"node", "start", "nodePtr"})}, next: "Node"}
			}
		case "Node":
			switch {
			case iface && r.p(1, 3):
				h = hop{sel: &Sel{Name: "shape"}, next: "Shape"}
			case lists && r.p(1, 3):
				h = hop{sel: &Sel{Name: "kids", Args: []Arg{{"n", Val{K: "int", S: "1"}}}}, next: "Node"}
			default:
				h = hop{sel: &Sel{Name: pick(r, []string{"next", "self", "self"})}, next: "Node"}
			}
		case "Shape":
			if r.p(1, 3) {
				h = hop{sel: &Sel{Name: "owner"}, next: "Node"}
			} else {
				h = hop{sel: &Sel{Name: "inner"}, next: "Shape"}
			}
		}
		if frags && r.p(1, 6) && t != "Shape" {
			h.wrap = t
		}
		hops = append(hops, h)
		t = h.next
	}
	sel := leaf(t)
	for i := d - 1; i >= 0; i-- {
		h := hops[i]
		h.sel.Sel = sel
		sel = []*Sel{h.sel}
		if r.p(1, 30) {
			on := "Query"
			if i > 0 {
				on = hops[i-1].next
			}
			extra := leaf(on)
			extra[0].Alias = "x" + strconv.Itoa(names)
			names++
			if r.p(1, 2) {
				sel = append(sel, extra...)
			} else {
				sel = append(extra, sel...)
			}
		}
		if h.wrap != "" {
			if r.p(1, 2) {
				sel = []*Sel{{Kind: 2, Name: h.wrap, Sel: sel}}
			} else {
				name := "F" + strconv.Itoa(names)
				names++
				q.Doc.Frags = append(q.Doc.Frags, &Frag{Name: name, On: h.wrap, Sel: sel})
				sel = []*Sel{{Kind: 1, Name: name}}
			}
		}
	}
	op.Sel = sel
	if errs {
		q.Plan = append(q.Plan, Act{At: r.n(d), Do: "err", S: "deep"})
	}
	return q
}

func batch(r *Rand, cfg *schemaCfg, w weights) *ReqSpec {
	q := &ReqSpec{Via: "batch", JStyle: uint64(r.n(1 << 20))}
	if r.p(1, 4) {
		q.Via = "batchform"
	}
	n := r.rng(0, 4)
	total := 0
	for i := 0; i < n; i++ {
		kind := w.pick(r)
		it := request(r, kind, cfg)
		// an item travels inside the batch
		if it.Via == "batch" || len(it.Items) > 0 {
			it = genReq(r, defOpts(r))
		}
		if it.Body == nil && it.Via != "" {
			it.Via = ""
		}
		if it.Body != nil {
			// what is no JSON at all would spoil the whole batch
			if _, err := parseJSON(it.Body); err != nil && !r.p(1, 10) {
				it.RawB, it.Body, it.Via = []byte(clean(string(it.Body))), nil, ""
			}
		}
		it.FormErr = ""
		if len(it.Net) > 0 {
			b := applyNet(it.query(), it.Net)
			it.RawB, it.Doc, it.Net = b, nil, nil
		}
		if it.RawB != nil && it.Body == nil {
			it.RawB = []byte(clean(string(it.RawB)))
		}
		// the items share what the host set up
		q.Form = q.Form || it.Form
		q.Files = append(q.Files, it.Files...)
		it.Values, it.Ctx, it.CtxN, it.Files, it.FilePl, it.Form, it.Tracing, it.NoMeta = nil, "", 0, nil, nil, false, false, false
		c := 0
		if it.Doc != nil {
			c = predict(it, cfg).n
		}
		for _, a := range it.Plan {
			if a.Step || a.Do == "cancel" || a.At < 0 {
				continue
			}
			a.At += total
			q.Plan = append(q.Plan, a)
		}
		it.Plan = nil
		total += c
		q.Items = append(q.Items, it)
	}
	return q
}

// introspection questions

var introTypes = []string{"Query", "Mut", "Node", "Leaf", "Box", "Circle", "Square", "Shape", "Named", "Fancy", "In", "In2", "Leaf__input", "FileIn", "Color", "Level", "Mask", "Twin", "EnI32", "EnU64",
	"Int", "String", "Boolean", "ID", "Float", "File", "Time", "__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive", "__TypeKind", "__DirectiveLocation", "Ghost", "nope", "", "Orig",
	"TheRoot", "RootB", "ChangeB", "Wide", "Lists", "Thing", "Solo", "Odd", "Th1", "Th4", "InA", "InB", "Big", "TinyQ", "TinyM", "Small", "Blank", "SMALL", "SmalL", "small", "sMALL", "query", "LEAF", "int", "ID ", " Node", "__schema", "__UnknownInput1", "__UnknownType1"}

const typeRef = `kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}`
const fullType = `kind name description fields(includeDeprecated:true){name description args{name description type{` + typeRef + `} defaultValue} type{` + typeRef + `} isDeprecated deprecationReason} inputFields{name description type{` + typeRef + `} defaultValue} interfaces{` + typeRef + `} enumValues(includeDeprecated:true){name description isDeprecated deprecationReason} possibleTypes{` + typeRef + `}`
const fullIntro = `query IntrospectionQuery{__schema{queryType{name}mutationType{name}subscriptionType{name}types{` + fullType + `}directives{name description locations args{name description type{` + typeRef + `} defaultValue}}}}`

func introReq(r *Rand) *ReqSpec {
	raw := func(s string) *ReqSpec { return &ReqSpec{RawB: []byte(s)} }
	switch r.n(9) {
	case 0:
		return raw(fullIntro)
	case 1:
		return raw(`{__type(name:"` + pick(r, introTypes) + `"){` + fullType + `}}`)
	case 2:
		q := raw(`query($n:String!){__type(name:$n){` + fullType + `} a:__typename title}`)
		q.VarsRaw = `{"n":"` + pick(r, introTypes) + `"}`
		return q
	case 3:
		return raw(`{__schema{types{name kind}}}`)
	case 4:
		return raw(`{__schema{queryType{` + fullType + `} mutationType{` + fullType + `}}}`)
	case 5:
		return raw(`{__schema{directives{name locations args{name type{` + typeRef + `}}}} title}`)
	case 6:
		t := pick(r, introTypes)
		return raw(`{__schema{types{...T}} __type(name:"` + t + `"){...T fields{type{...T ofType{...T}}}}} fragment T on __Type{name kind possibleTypes{name} interfaces{name}}`)
	case 7:
		return raw(`mutation{__typename title}`)
	}
	return raw(`{__schema{types{name fields{name args{name type{name kind}} type{name kind}} inputFields{name} enumValues{name}}}}`)
}
