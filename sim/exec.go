package main

import (
	"context"
	"errors"
	"mime/multipart"
	"reflect"
	"runtime"
	"strings"

	"github.com/mjarkk/yarql"
)

// ReqSpec is one request, with everything that happens to it.
type ReqSpec struct {
	Via     string     `json:"via,omitempty"` // "" = Resolve; get, json, text, form, batch, batchform
	Doc     *Doc       `json:"doc,omitempty"`
	RawB    []byte     `json:"rawb"` // query text used as is
	Style   uint64     `json:"style,omitempty"`
	Op      string     `json:"op,omitempty"`
	Vars    []Arg      `json:"vars,omitempty"`
	VarsRaw string     `json:"varsraw,omitempty"`
	HasVars bool       `json:"hasvars,omitempty"`
	Tracing bool       `json:"tracing,omitempty"`
	NoMeta  bool       `json:"nometa,omitempty"`
	Ctx     string     `json:"ctx,omitempty"` // "", live, deadline, cancelled, panics
	CtxN    int64      `json:"ctxn,omitempty"`
	Values  []KV       `json:"values,omitempty"`
	Form    bool       `json:"form,omitempty"` // the host offers a form-file lookup
	Files   []string   `json:"files,omitempty"`
	FilePl  []Act      `json:"fileplan,omitempty"`
	FormErr string     `json:"formerr,omitempty"` // reading the form field fails
	Plan    []Act      `json:"plan,omitempty"`
	Items   []*ReqSpec `json:"items,omitempty"` // batch
	Body    []byte     `json:"body"`            // transport body used as is
	Net     []NetFault `json:"net,omitempty"`   // what happens to the bytes on the way
	Fuel    int64      `json:"fuel,omitempty"`
	Method  string     `json:"method,omitempty"`
	CType   string     `json:"ctype,omitempty"`
	JStyle  uint64     `json:"jstyle,omitempty"`
	Note    string     `json:"note,omitempty"`
}

// KV is a request value.
type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// NetFault is damage done to a request on its way.
type NetFault struct {
	Do string `json:"do"` // cut, flip, del, dup, ins, swap, zero
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
}

// spellType is a content type as clients write it.
func spellType(t string, st uint64) string {
	if t == "multipart/form-data" && st%3 != 0 {
		return t + "; boundary=" + []string{"x", "----WebKitFormBoundary7MA4YWxkTrZu0gW", `"a;b"`}[st/3%3]
	}
	switch st % 12 {
	case 1:
		return t + "; charset=utf-8"
	case 2:
		return t + ";charset=UTF-8"
	case 3:
		return strings.ToUpper(t)
	case 4:
		return strings.ToUpper(t[:1]) + t[1:] + " ; charset=\"utf-8\"; x=y"
	}
	return t
}

func applyNet(b []byte, fs []NetFault) []byte {
	b = append([]byte(nil), b...)
	for _, f := range fs {
		if len(b) == 0 {
			break
		}
		probe("net." + f.Do)
		i := f.At % len(b)
		n := f.N % 40
		j := i + n
		if j > len(b) {
			j = len(b)
		}
		switch f.Do {
		case "cut":
			b = b[:i]
		case "flip":
			b[i] ^= 1 << uint(f.N%8)
		case "set":
			b[i] = byte(f.N)
		case "del":
			b = append(b[:i:i], b[j:]...)
		case "dup":
			b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
		case "ins":
			s := tokens[f.N%len(tokens)]
			b = append(append(append([]byte(nil), b[:i]...), s...), b[i:]...)
		case "swap":
			k := (f.N / 40) % len(b)
			b[i], b[k] = b[k], b[i]
		case "rot": // a reordered segment
			b = append(append([]byte(nil), b[i:]...), b[:i]...)
		default:
			harnessFail("net fault %q", f.Do)
		}
	}
	return b
}

var tokens = []string{
	"{", "}", "(", ")", "[", "]", ":", ",", "@", "$", "!", "=", "...", "...on ", "\"", "\"\"\"", "\\", "\\u00", "\\ud83d", "#", "&", "|",
	"query ", "mutation ", "subscription ", "fragment ", " on ", "null", "true", "false", "0", "-", "-1", "1.5", "1e9", "99999999999999999999", "1e999",
	".", "_", "__typename", "__schema", "__type", "@skip(if:true)", "@include", "\x00", "\xff", "\r\n", "\ufeff", "é", " ", "{a}", "{}", "()", "on",
	"{\"query\":", "null,", "[]", "\"operationName\":1", "e", "f",
}

func (q *ReqSpec) query() []byte {
	switch {
	case q.RawB != nil:
		return append([]byte(nil), q.RawB...)
	case q.Doc == nil:
		return nil
	}
	return []byte(q.Doc.print(q.Style))
}

func (q *ReqSpec) variables() string {
	if q.VarsRaw != "" {
		return realText(q.VarsRaw)
	}
	if len(q.Vars) == 0 && !q.HasVars {
		return ""
	}
	var b strings.Builder
	var r *Rand
	if q.JStyle%4 == 2 {
		r = newRand(q.JStyle)
	}
	(&Val{K: "obj", O: q.Vars}).jsonIn(&b, r)
	return b.String()
}

// itemJSON is the request as a JSON object.
func (q *ReqSpec) itemJSON(b *strings.Builder) {
	if q.Body != nil {
		b.Write(q.Body)
		return
	}
	r := newRand(q.JStyle)
	type part struct{ k, v string }
	var parts []part
	var qb strings.Builder
	jsonString(&qb, string(q.query()), q.JStyle)
	parts = append(parts, part{"query", qb.String()})
	if q.Op != "" {
		var ob strings.Builder
		jsonString(&ob, q.Op, q.JStyle)
		parts = append(parts, part{"operationName", ob.String()})
	} else if r.p(1, 4) {
		parts = append(parts, part{"operationName", "null"})
	}
	if v := q.variables(); v != "" {
		parts = append(parts, part{"variables", v})
	} else if r.p(1, 4) {
		parts = append(parts, part{"variables", "null"})
	}
	if r.p(1, 5) {
		parts = append(parts, part{"extensions", `{"persisted":[1,{"a":"}"}]}`})
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := r.n(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	sp := func() {
		if q.JStyle%3 == 1 && r.p(1, 3) {
			b.WriteString(pick(r, []string{" ", "\n", "\t ", "\r\n"}))
		}
	}
	b.WriteByte('{')
	sp()
	for i, p := range parts {
		if i > 0 {
			b.WriteByte(',')
			sp()
		}
		if q.JStyle%7 == 3 {
			jsonString(b, p.k, q.JStyle)
		} else {
			b.WriteString(`"` + p.k + `"`)
		}
		sp()
		b.WriteByte(':')
		sp()
		b.WriteString(p.v)
		sp()
	}
	b.WriteByte('}')
}

func (q *ReqSpec) body() []byte {
	var b strings.Builder
	if q.Via == "batch" || q.Via == "batchform" {
		b.WriteByte('[')
		for i, it := range q.Items {
			if i > 0 {
				b.WriteByte(',')
			}
			it.itemJSON(&b)
		}
		b.WriteByte(']')
	} else {
		q.itemJSON(&b)
	}
	pads := []string{"", "", "", " ", "\n", "\t\r\n  "}
	return []byte(pads[mix(q.JStyle, 5)%6] + b.String() + pads[mix(q.JStyle, 6)%6])
}

// Outcome is everything observable about a request.
type Outcome struct {
	Body    []byte
	Errs    []string
	Raw     []error
	Log     []CallRec
	Panic   string // text of a panic that reached the host
	PanicOK bool   // it was the one user code raised, unchanged
	Planned bool   // user code panicked
	Fuel    bool
	Steps   int64
	Elapsed int64 // simulated time
	Run     *reqRun
}

// inst is an instance of a schema.
type inst struct {
	s       *yarql.Schema
	cfg     *schemaCfg
	served  int
	mapSeed uint64
}

type schemaCfg struct {
	MaxDepth int    `json:"maxdepth,omitempty"` // 0 = the library's default
	Cache    *int   `json:"cache,omitempty"`    // nil = the library's default
	NoIntro  bool   `json:"nointro,omitempty"`
	World    uint64 `json:"world"`
	MapSeed  uint64 `json:"mapseed"` // decides the iteration order of every map
}

const rootMut = 0x77

func buildSchema(cfg *schemaCfg) *inst {
	rootValues(cfg.World)
	setMapSeed(mix(cfg.MapSeed, 1))
	s := yarql.NewSchema()
	for _, m := range append([]interface{}{colorMap, levelMap, maskMap, twinMap, bigMap}, moreEnums...) {
		if _, err := s.RegisterEnum(m); err != nil {
			harnessFail("RegisterEnum: %v", err)
		}
	}
	for _, d := range dirDefs {
		if err := s.RegisterDirective(yarql.Directive{Name: d.name, Where: d.where, Method: d.fn, Description: "the " + d.name + " directive"}); err != nil {
			harnessFail("RegisterDirective: %v", err)
		}
	}
	q, m := rootValues(cfg.World)
	err := s.Parse(q, m, &yarql.SchemaOptions{SkipGraphqlTypesInjection: cfg.NoIntro})
	if err != nil {
		harnessFail("Parse: %v", err)
	}
	if cfg.MaxDepth < 0 {
		s.MaxDepth = 0
	} else if cfg.MaxDepth > 0 {
		s.MaxDepth = uint8(cfg.MaxDepth)
	}
	in := &inst{s: s, cfg: cfg, mapSeed: cfg.MapSeed}
	if cfg.Cache != nil {
		in.setCache(*cfg.Cache)
	}
	return in
}

func (in *inst) setCache(n int) { in.s.SetCacheRules(&n) }

// setLimit changes the maximum depth of this instance.
func (in *inst) setLimit(n int) {
	c := *in.cfg
	c.MaxDepth = n
	in.cfg = &c
	in.s.MaxDepth = uint8(n)
}

func (in *inst) copy() *inst {
	setMapSeed(mix(in.mapSeed, 2))
	return &inst{s: in.s.Copy(), cfg: in.cfg, mapSeed: in.mapSeed}
}

const defaultFuel = 30_000_000

// execOpts modifies how a request is executed.
type execOpts struct {
	plan   []Act // overrides spec.Plan
	spec   bool
	retain *[]retained
	sub    func(n int) string
	ended  error // the host's context has ended already
	static *static
}

// static are the texts a host keeps and serves again and again: the library is
// given the same memory each time.
type static struct {
	bytes  map[string][]byte
	texts  map[string]string
	frozen bool
}

func newStatic() *static { return &static{bytes: map[string][]byte{}, texts: map[string]string{}} }

// of returns the host's memory for b, or memory of its own.
func (s *static) of(b []byte) (res []byte, own bool) {
	if s != nil {
		if res, ok := s.bytes[string(b)]; ok {
			return res, false
		}
		if !s.frozen && len(s.bytes) < 64 {
			res := append([]byte{}, b...)
			s.bytes[string(b)] = res
			return res, false
		}
	}
	return append([]byte{}, b...), true
}

func (s *static) text(t string) string {
	if s != nil {
		if res, ok := s.texts[t]; ok {
			return res
		}
		if !s.frozen && len(s.texts) < 64 {
			s.texts[strings.Clone(t)] = t
		}
	}
	return t
}

var errNoForm = errors.New("no form")

// exec serves one request on an instance.
func (in *inst) exec(q *ReqSpec, o execOpts) *Outcome {
	r := &reqRun{spec: q, plan: q.Plan, world: in.cfg.World, retain: o.retain, sub: o.sub}
	if o.plan != nil {
		r.plan = o.plan
	}
	out := &Outcome{Run: r}
	fuel := q.Fuel
	in.served++

	// everything the host prepares
	var hostCtx context.Context
	if q.Ctx != "" {
		c := newSimCtx(r, "host")
		switch q.Ctx {
		case "live":
		case "deadline":
			c.deadline = simMono() + q.CtxN
		case "cancelled":
			c.err = context.Canceled
			c.check()
		case "panics":
			c.panicErr = int(q.CtxN)
		default:
			harnessFail("ctx %q", q.Ctx)
		}
		if o.ended != nil {
			c.err = o.ended
			c.check()
		}
		r.ctxs = append(r.ctxs, c)
		hostCtx = c
	}
	var values *map[string]interface{}
	if len(q.Values) > 0 {
		m := map[string]interface{}{}
		for _, kv := range q.Values {
			m[kv.K] = ctxVal(kv.V)
		}
		values = &m
	} else if q.JStyle%7 == 3 {
		values = &map[string]interface{}{}
	} else if q.JStyle%7 == 4 {
		// a variable of the host that was never given a map
		values = new(map[string]interface{})
	}
	var getFile func(string) (*multipart.FileHeader, error)
	if q.Form {
		r.files = map[string]*multipart.FileHeader{}
		for _, f := range q.Files {
			r.files[f] = &multipart.FileHeader{Filename: f, Size: int64(len(f))}
		}
		getFile = r.formFile
	}
	query := q.query()
	if len(q.Net) > 0 && q.Via == "" {
		query = applyNet(query, q.Net)
	}
	vars := q.variables()
	method, ctype := "POST", ""
	var body []byte
	var form func(string) (string, error)
	switch q.Via {
	case "", "get":
		method = "GET"
		if q.Via == "get" && len(q.Net) > 0 {
			query = applyNet(query, q.Net)
		}
	default:
		body = q.body()
		if len(q.Net) > 0 {
			body = applyNet(body, q.Net)
		}
		form = func(key string) (string, error) {
			st := leaveLib()
			defer enterLib(st)
			if q.FormErr != "" {
				probe("fault.formfield.err")
				return "", errors.New(realText(q.FormErr))
			}
			if q.Via != "form" && q.Via != "batchform" && q.JStyle%3 == 1 {
				return "", errNoForm
			}
			if key == "operations" {
				return string(body), nil
			}
			return "", errNoForm
		}
		switch q.Via {
		case "json", "batch":
			ctype = "application/json"
		case "text":
			ctype = "text/plain"
		case "form", "batchform":
			ctype = "multipart/form-data"
		default:
			harnessFail("via %q", q.Via)
		}
		ctype = spellType(ctype, mix(q.JStyle, 17))
	}
	if q.Method != "" {
		method = q.Method
	}
	if q.CType != "" {
		ctype = q.CType
	}
	if fuel == 0 {
		fuel = defaultFuel + 2000*int64(len(query)+len(vars)+len(body))
	}
	if q.JStyle%2 == 0 {
		o.static = nil
	}
	var ownQuery, ownBody bool
	queryText := o.static.text(string(query))
	query, ownQuery = o.static.of(query)
	if body != nil {
		body, ownBody = o.static.of(body)
	}
	vars = o.static.text(vars)
	r.begin(fuel)
	setMapSeed(mix(in.mapSeed, 3))
	func() {
		defer func() {
			if p := recover(); p != nil {
				out.notePanic(r, p)
			}
		}()
		if q.Via == "" {
			out.Raw = in.s.Resolve(query, yarql.ResolveOptions{
				NoMeta: q.NoMeta, Context: hostCtx, OperatorTarget: q.Op, Values: values,
				GetFormFile: getFile, Variables: vars, Tracing: q.Tracing,
			})
			out.Body = append([]byte(nil), in.s.Result...)
			return
		}
		ro := &yarql.RequestOptions{Context: hostCtx, GetFormFile: getFile, Tracing: q.Tracing}
		if values != nil {
			ro.Values = *values
		}
		if q.Ctx == "" && values == nil && !q.Form && !q.Tracing && q.JStyle%2 == 0 {
			ro = nil
		}
		res, errs := in.s.HandleRequest(method,
			func(key string) string {
				if q.Via != "get" && q.JStyle%3 != 0 {
					// what counts is in the body
					if key == "query" && q.JStyle%3 == 1 {
						return "{__typename wrong:__typename}"
					}
					return ""
				}
				switch key {
				case "query":
					return queryText
				case "variables":
					return vars
				case "operationName":
					return q.Op
				}
				return ""
			},
			form,
			func() []byte {
				if strings.HasPrefix(strings.ToLower(ctype), "multipart/form-data") && q.JStyle%3 != 0 {
					// the fields have been read from it
					return nil
				}
				return body
			},
			ctype, ro)
		out.Raw = errs
		out.Body = append([]byte(nil), res...)
	}()
	r.end()
	// What the host owns again it may use for something else.
	if ownQuery {
		scribble(reflect.ValueOf(query))
	}
	if ownBody {
		scribble(reflect.ValueOf(body))
	}
	switch mix(r.world, uint64(in.served)) % 4 {
	case 0:
		scribble(reflect.ValueOf(in.s.Result))
	case 1:
		in.s.Result = nil
	case 2:
		in.s.Result = []byte("the host's own")
	}
	out.Elapsed = simMono() - r.t0
	out.Log = r.log
	out.Steps = r.steps
	if out.Panic == "" {
		for _, e := range out.Raw {
			out.Errs = append(out.Errs, errText(e))
		}
	}
	return out
}

func (out *Outcome) notePanic(r *reqRun, p interface{}) {
	out.Planned = r.panicVal != nil
	if f, ok := p.(fuelPanic); ok {
		out.Fuel = true
		out.Panic = sprint("more than %d statements", f.steps)
		return
	}
	out.PanicOK = r.panicVal != nil && p == r.panicVal
	switch e := p.(type) {
	case *simPanic:
		out.Panic = "planned panic: " + e.msg
	case runtime.Error:
		out.Panic = e.Error()
	case error:
		out.Panic = "error value: " + e.Error()
	default:
		out.Panic = sprint("%v", p)
	}
}

// same compares two outcomes byte for byte.
func (a *Outcome) same(b *Outcome) string {
	if a.Panic != b.Panic {
		return sprint("panic %q, expected %q", a.Panic, b.Panic)
	}
	if string(a.Body) != string(b.Body) {
		return "response " + diffText(string(a.Body), string(b.Body))
	}
	return a.sameRest(b)
}

func (a *Outcome) sameRest(b *Outcome) string {
	if d := sameTexts(a.Errs, b.Errs); d != "" {
		return "reported errors: " + d
	}
	return sameLog(a.Log, b.Log)
}

func sameTexts(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return sprint("missing %q", b[i])
		}
		if i >= len(b) {
			return sprint("unexpected %q", a[i])
		}
		if a[i] != b[i] {
			return sprint("%q, expected %q", a[i], b[i])
		}
	}
	return ""
}

func sameLog(a, b []CallRec) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return "missing call " + b[i].String()
		}
		if i >= len(b) {
			return "unexpected call " + a[i].String()
		}
		if x, y := a[i].String(), b[i].String(); x != y {
			return sprint("call %d is %s, expected %s", i, x, y)
		}
	}
	return ""
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := i - 60
		if lo < 0 {
			lo = 0
		}
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return sprint("differs at byte %d of %d: got …%s…, expected …%s…", i, len(a), cut(a), cut(b))
}
