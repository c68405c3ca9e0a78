package main

import (
	"context"
	"encoding/base64"
	"math"
	"mime/multipart"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The reference model: it evaluates a request over the application's Go types
// directly, independently of the library, and predicts the response, the
// errors, every callback with what it is told, and the trace.

type expErr struct {
	msg  string
	wild bool   // any message
	path string // response path as JSON, "" = none
}

type expTrace struct {
	path, parent, field, typ string
	start, start2, end       int64 // start2: after the field's directives
}

type mctx struct {
	name     string
	err      string // "" = live
	deadline int64
}

type model struct {
	q     *ReqSpec
	plan  []Act
	world uint64
	max   int
	op    *Op
	frags map[string]*Frag
	sup   map[string]*Val
	defs  map[string]*VarDef

	n      int
	nfile  int
	t      int64
	ctx    *mctx
	hasCtx bool
	vals   map[string]string
	path   []string
	work   int

	cancelAfter int // the context ends asynchronously when this many callbacks have returned (-1 = never)
	cancelText  string
	alt         bool // the callback that returned last before that already saw it
	asyncDone   bool

	data     *J
	errs     []expErr
	calls    []CallRec
	traces   []expTrace
	depthHit bool
	spread   int
	panicked bool
	unknown  string // the model cannot predict this request
	rejects  int
	deepest  int
	skips    int
	lists    int
}

const modelLimit = 200_000

type modelStop struct{}

func newModel(q *ReqSpec, cfg *schemaCfg, plan []Act) *model {
	m := &model{q: q, plan: plan, world: cfg.World, max: cfg.MaxDepth, cancelAfter: -1,
		frags: map[string]*Frag{}, sup: map[string]*Val{}, defs: map[string]*VarDef{}, vals: map[string]string{}}
	if m.max == 0 {
		m.max = 255
	}
	for _, kv := range q.Values {
		m.vals[kv.K] = showVal(ctxVal(kv.V))
	}
	switch q.Ctx {
	case "":
	case "deadline":
		m.setCtx(&mctx{name: "host", deadline: q.CtxN})
	case "cancelled":
		m.setCtx(&mctx{name: "host", err: context.Canceled.Error()})
	default:
		m.setCtx(&mctx{name: "host"})
	}
	for _, f := range q.Doc.Frags {
		m.frags[f.Name] = f
	}
	for i := range q.Vars {
		m.sup[q.Vars[i].Name] = &q.Vars[i].Val
	}
	for _, o := range q.Doc.Ops {
		if q.Op == "" || o.Name == q.Op {
			m.op = o
		}
	}
	return m
}

func (m *model) setCtx(c *mctx) { m.ctx, m.hasCtx = c, c != nil }

func (m *model) ctxErr() string {
	if m.ctx == nil {
		return ""
	}
	if m.ctx.err == "" && m.ctx.deadline != 0 && m.t >= m.ctx.deadline {
		m.ctx.err = context.DeadlineExceeded.Error()
	}
	return m.ctx.err
}

// run evaluates the request.
func (m *model) run() (res *model) {
	res = m
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(modelStop); !ok {
				panic(p)
			}
		}
	}()
	if m.op == nil {
		m.unknown = "no operation"
		return m
	}
	for i := range m.op.Vars {
		m.defs[m.op.Vars[i].Name] = &m.op.Vars[i]
	}
	q, mu := rootValues(m.world)
	m.data = &J{K: 'o'}
	if m.op.Kind == "mutation" {
		m.sels(describe(reflect.TypeOf(mu)), reflect.ValueOf(mu), m.op.Sel, 0, m.data)
	} else {
		m.sels(describe(reflect.TypeOf(q)), reflect.ValueOf(q), m.op.Sel, 0, m.data)
	}
	return m
}

func (m *model) stop(why string) {
	m.unknown = why
	panic(modelStop{})
}

func (m *model) tick() {
	m.work++
	if m.work > modelLimit {
		m.stop("too much work")
	}
}

func (m *model) pathJSON() string { return "[" + strings.Join(m.path, ",") + "]" }

func (m *model) err(msg string, wild bool) {
	p := ""
	if len(m.path) > 0 {
		p = m.pathJSON()
	}
	m.errs = append(m.errs, expErr{msg: msg, wild: wild, path: p})
}

func (m *model) sels(td *typeDesc, v reflect.Value, sels []*Sel, depth int, out *J) (critical bool) {
	for _, s := range sels {
		m.tick()
		switch s.Kind {
		case 0:
			if m.field(td, v, s, depth, out) {
				return true
			}
		default:
			loc := 1
			if s.Kind == 2 {
				loc = 2
			}
			skip, crit := m.dirs(s.Dirs, loc)
			if crit {
				return true
			}
			if skip {
				continue
			}
			on, body := s.Name, s.Sel
			if s.Kind == 1 {
				f, ok := m.frags[s.Name]
				if !ok {
					m.stop("undefined fragment")
				}
				on, body = f.On, f.Sel
			}
			if td.name == "" || on != td.name && !implementsNamed(td.t, on) {
				continue
			}
			m.spread++
			if m.spread > 3000 {
				m.stop("fragment includes itself")
			}
			crit = m.sels(td, v, body, depth, out)
			m.spread--
			if crit {
				return true
			}
		}
	}
	return false
}

func (m *model) dirs(ds []Dir, loc int) (skip, critical bool) {
	for _, d := range ds {
		m.tick()
		if d.Name == "skip" || d.Name == "include" {
			args, ok := m.bindArgs(argDescs([]reflect.Type{ifArgs}), []reflect.Type{ifArgs}, d.Args)
			if !ok {
				m.err("", true)
				return false, true
			}
			if args[0].(struct{ If bool }).If == (d.Name == "skip") {
				m.skips++
				return true, false
			}
			continue
		}
		def, key := findDir(d.Name, loc)
		if def == nil {
			m.err("", true)
			return false, true
		}
		t := reflect.TypeOf(def.fn)
		var ins []reflect.Type
		ctxArg := false
		for i := 0; i < t.NumIn(); i++ {
			if t.In(i) == ctxPtrType {
				ctxArg = true
			} else {
				ins = append(ins, t.In(i))
			}
		}
		args, ok := m.bindArgs(argDescs(ins), ins, d.Args)
		if !ok {
			m.rejects++
			m.err("", true)
			return false, true
		}
		rec, _, _ := m.callback(key, 0, args, ctxArg)
		if key == "@gate" && !args[0].(struct{ Open bool }).Open {
			rec.Skip = true
		}
		if rec.Skip {
			m.skips++
			return true, false
		}
	}
	return false, false
}

var ifArgs = reflect.TypeOf(struct{ If bool }{})

func findDir(name string, loc int) (*dirDef, string) {
	for i := range dirDefs {
		d := &dirDefs[i]
		if d.name != name {
			continue
		}
		for _, w := range d.where {
			if int(w) == loc {
				key := "@" + name
				if name == "dual" {
					key += []string{"", ".frag", ".inline"}[loc]
				}
				return d, key
			}
		}
	}
	return nil, ""
}

func (m *model) field(td *typeDesc, v reflect.Value, s *Sel, depth int, out *J) (critical bool) {
	name := s.Alias
	if name == "" {
		name = s.Name
	}
	m.path = append(m.path, `"`+name+`"`)
	defer func() { m.path = m.path[:len(m.path)-1] }()
	start := m.t
	skip, crit := m.dirs(s.Dirs, 0)
	if skip || crit {
		return crit
	}
	out.Keys = append(out.Keys, name)
	out.L = append(out.L, nil)
	slot := len(out.L) - 1
	if s.Name == "__typename" {
		if td.name == "" {
			out.L[slot] = &J{K: '*'}
		} else {
			out.L[slot] = &J{K: 's', S: td.name}
		}
		if len(s.Args) > 0 || s.Sel != nil {
			m.stop("__typename with selection")
		}
		return false
	}
	if strings.HasPrefix(s.Name, "__") {
		m.stop("introspection")
	}
	fd := td.byName[s.Name]
	if fd == nil {
		m.err("", true)
		out.L[slot] = &J{K: '0'}
		return true
	}
	start2 := m.t
	var j *J
	if fd.method || fd.fn {
		j, critical = m.call(td, fd, v, s, depth)
	} else {
		if len(s.Args) > 0 {
			m.stop("arguments on data")
		}
		j, critical = m.value(fd.out, v.Field(fd.index), fd.isID, s, depth)
	}
	out.L[slot] = j
	m.traces = append(m.traces, expTrace{path: m.pathJSON(), parent: td.name, field: s.Name, typ: fd.returnType(), start: start, start2: start2, end: m.t})
	return critical
}

// async applies an end of the context that struck between two callbacks.
func (m *model) async(early bool) {
	if m.cancelAfter < 0 || m.asyncDone || m.n < m.cancelAfter || (m.n == m.cancelAfter && !early) {
		return
	}
	m.asyncDone = true
	if m.ctx != nil && m.ctxErr() == "" {
		m.ctx.err = m.cancelText
	}
}

// callback predicts one call into the application.
func (m *model) callback(key string, recv uint64, args []interface{}, ctxArg bool) (rec *CallRec, h uint64, errText string) {
	m.tick()
	m.async(true)
	n := m.n
	m.n++
	a := canonArgs(args)
	rec = &CallRec{Key: key, Recv: recv, Args: a, N: n, T0: m.t, Path: m.pathJSON()}
	if ctxArg {
		var b strings.Builder
		b.WriteString(m.pathJSON())
		for _, k := range valueKeys {
			if v, ok := m.vals[k]; ok {
				b.WriteString(" " + k + "=" + v)
			}
		}
		if m.ctx == nil {
			b.WriteString(" noctx")
		} else {
			b.WriteString(" ctx=" + m.ctx.name)
		}
		rec.Info = b.String()
	}
	h = mixs(mixs(mix(m.world, recv), key), a)
	for _, act := range m.plan {
		if act.Step || (act.At != n && act.At != -1) {
			continue
		}
		switch act.Do {
		case "err":
			errText = "!" + act.text()
		case "panic", "errpanic":
			m.panicked = true
			panic(modelStop{})
		case "skip":
			rec.Skip = true
		case "null":
			rec.Null = true
		case "sleep":
			m.t += act.N
		case "wall", "sub", "yield":
		case "cancel":
			if m.ctx != nil && m.ctxErr() == "" {
				switch act.N % 3 {
				case 1:
					m.ctx.err = context.DeadlineExceeded.Error()
				case 2:
					m.ctx.err = "the caller went away: " + act.text()
				default:
					m.ctx.err = context.Canceled.Error()
				}
			}
		case "set":
			if ctxArg {
				m.vals[act.S] = showVal(ctxVal(act.V))
			}
		case "ctx":
			if ctxArg {
				c := &mctx{name: act.S}
				if act.N > 0 {
					c.deadline = m.t + act.N
				}
				if act.N < 0 {
					c.err = context.Canceled.Error()
				}
				m.setCtx(c)
			}
		case "ctxnil":
			if ctxArg {
				m.setCtx(nil)
			}
		default:
			harnessFail("model: act %q", act.Do)
		}
	}
	rec.Err = errText
	rec.End = m.ctxErr() != ""
	rec.T1 = m.t
	m.calls = append(m.calls, *rec)
	return &m.calls[len(m.calls)-1], h, errText
}

func (m *model) call(td *typeDesc, fd *fieldDesc, v reflect.Value, s *Sel, depth int) (*J, bool) {
	if fd.fn && v.Field(fd.index).IsNil() {
		return &J{K: '0'}, false
	}
	var ins []reflect.Type
	for _, t := range fd.ins {
		if t != ctxPtrType {
			ins = append(ins, t)
		}
	}
	args, ok := m.bindArgs(fd.argT, ins, s.Args)
	if !ok {
		m.rejects++
		m.err("", true)
		return &J{K: '0'}, true
	}
	var recv uint64
	if id := v.FieldByName("H"); id.IsValid() {
		recv = id.Uint()
	}
	rec, h, errText := m.callback(fd.key, recv, args, fd.ctxArg)
	if errText != "" && fd.errOut {
		m.err(errText[1:], false)
	}
	m.async(m.alt)
	if e := m.ctxErr(); e != "" {
		m.err(e, false)
		return &J{K: '0'}, false
	}
	var res reflect.Value
	if rec.Null {
		res = reflect.Zero(fd.out)
	} else {
		res = resultValue(fd.out, fd.key, h, args)
	}
	return m.value(fd.out, res, fd.isID, s, depth)
}

func (m *model) value(t reflect.Type, v reflect.Value, isID bool, s *Sel, depth int) (*J, bool) {
	m.tick()
	null := &J{K: '0'}
	if t == timeType {
		return &J{K: 's', S: v.Interface().(time.Time).Format("2006-01-02T15:04:05.000Z")}, false
	}
	if vals, ok := enumVals[t]; ok {
		var alt []string
		for _, n := range enumNames[t] {
			if reflect.DeepEqual(vals[n].Interface(), v.Interface()) {
				alt = append(alt, n)
			}
		}
		if alt == nil {
			return null, false
		}
		return &J{K: 'a', Alt: alt}, false
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return null, false
		}
		return m.value(t.Elem(), v.Elem(), isID, s, depth)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return null, false
		}
		j := &J{K: 'l'}
		m.lists++
		for i := 0; i < v.Len(); i++ {
			m.path = append(m.path, strconv.Itoa(i))
			e, _ := m.value(t.Elem(), v.Index(i), false, s, depth)
			m.path = m.path[:len(m.path)-1]
			j.L = append(j.L, e)
			if m.depthHit {
				return j, true
			}
		}
		return j, false
	case reflect.Interface:
		if s.Sel == nil {
			m.stop("no selection")
		}
		if v.IsNil() {
			return null, false
		}
		c := v.Elem()
		if !registered(t, c.Type()) {
			return null, false
		}
		return m.value(c.Type(), c, false, s, depth)
	case reflect.Struct:
		if s.Sel == nil {
			m.stop("no selection")
		}
		depth++
		if depth > m.deepest {
			m.deepest = depth
		}
		if depth >= m.max {
			m.depthHit = true
			m.err("", true)
			return null, true
		}
		j := &J{K: 'o'}
		spread := m.spread
		m.spread = 0
		crit := m.sels(describe(t), v, s.Sel, depth, j)
		m.spread = spread
		return j, crit
	}
	if s.Sel != nil {
		m.stop("selection on data")
	}
	var j *J
	switch t.Kind() {
	case reflect.String:
		return &J{K: 's', S: clean(v.String())}, false
	case reflect.Bool:
		return &J{K: 'b', S: strconv.FormatBool(v.Bool())}, false
	case reflect.Float32:
		return &J{K: 'f', F: v.Float(), Bits: 32}, false
	case reflect.Float64:
		return &J{K: 'f', F: v.Float(), Bits: 64}, false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		j = &J{K: 'n', S: strconv.FormatInt(v.Int(), 10)}
	default:
		j = &J{K: 'n', S: strconv.FormatUint(v.Uint(), 10)}
	}
	if isID {
		j.K = 's'
	}
	return j, false
}

// ---- arguments ----

type bindState int

const (
	bOK bindState = iota
	bNull
	bReject
)

func (m *model) bindArgs(descs []argDesc, ins []reflect.Type, args []Arg) ([]interface{}, bool) {
	structs := make([]reflect.Value, len(ins))
	for i, t := range ins {
		structs[i] = reflect.New(t).Elem()
	}
	for i := range args {
		a := &args[i]
		found := false
		for _, d := range descs {
			if d.name == a.Name {
				found = true
				f := structs[d.in].Field(d.index)
				if m.bind(&a.Val, f, d.isID, true, false) == bReject {
					return nil, false
				}
			}
		}
		if !found {
			return nil, false
		}
	}
	var res []interface{}
	for _, s := range structs {
		res = append(res, s.Interface())
	}
	return res, true
}

// bind stores a client value in a Go value.
func (m *model) bind(v *Val, into reflect.Value, isID, allowVar, isJSON bool) bindState {
	m.tick()
	t := into.Type()
	if v.K == "var" {
		if !allowVar {
			return bReject
		}
		d := m.defs[v.S]
		if d == nil {
			return bReject
		}
		if s, ok := m.sup[v.S]; ok {
			return m.bind(s, into, isID, false, true)
		}
		if d.Default == nil {
			if !strings.HasSuffix(d.Type, "!") {
				return bNull // an optional variable nobody gave a value
			}
			return bReject
		}
		return m.bind(d.Default, into, isID, false, false)
	}
	if v.K == "raw" {
		m.stop("raw value")
	}
	if t.Kind() == reflect.Ptr && t != fileType {
		if v.K == "null" {
			return bNull
		}
		p := reflect.New(t.Elem())
		st := m.bind(v, p.Elem(), isID, allowVar, isJSON)
		if st == bOK {
			into.Set(p)
		}
		return st
	}
	if v.K == "null" {
		return bNull
	}
	str := func() (string, bool) {
		if v.K == "str" {
			return v.str(), true
		}
		return "", false
	}
	switch {
	case t == fileType:
		s, ok := str()
		if !ok || !m.q.Form {
			return bReject
		}
		m.calls = append(m.calls, CallRec{Key: "$file", Args: s, N: -1})
		n := m.nfile
		m.nfile++
		for _, a := range m.q.FilePl {
			if a.At == n || a.At == -1 {
				switch a.Do {
				case "err":
					return bReject
				case "panic":
					m.panicked = true
					panic(modelStop{})
				}
			}
		}
		for _, f := range m.q.Files {
			if f == s {
				into.Set(reflect.ValueOf(&multipart.FileHeader{Filename: f, Size: int64(len(f))}))
				return bOK
			}
		}
		return bReject
	case t == timeType:
		s, ok := str()
		if !ok {
			return bReject
		}
		tm, err := time.Parse("2006-01-02T15:04:05.000Z", s)
		if err != nil {
			return bReject
		}
		into.Set(reflect.ValueOf(tm))
		return bOK
	}
	if vals, ok := enumVals[t]; ok {
		if v.K != "enum" && v.K != "str" {
			return bReject
		}
		e, ok := vals[v.str()] // an enum value may be written as a string
		if !ok {
			return bReject
		}
		into.Set(e)
		return bOK
	}
	switch t.Kind() {
	case reflect.String:
		s, ok := str()
		if !ok {
			return bReject
		}
		if isJSON {
			s = clean(s) // JSON text cannot carry anything else
		}
		into.SetString(s)
	case reflect.Bool:
		if v.K != "bool" {
			return bReject
		}
		into.SetBool(v.S == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.K != "int" && !(isID && v.K == "str") || isJSON && isID && v.K != "str" {
			return bReject
		}
		n, err := strconv.ParseInt(v.S, 10, t.Bits())
		if err != nil {
			return bReject
		}
		into.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.K != "int" && !(isID && v.K == "str") || isJSON && isID && v.K != "str" {
			return bReject
		}
		n, err := strconv.ParseUint(v.S, 10, t.Bits())
		if err != nil {
			return bReject
		}
		into.SetUint(n)
	case reflect.Float32, reflect.Float64:
		if v.K != "int" && v.K != "float" {
			return bReject
		}
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil || math.IsInf(f, 0) {
			return bReject
		}
		into.SetFloat(f)
	case reflect.Slice:
		if v.K != "list" {
			return bReject
		}
		l := reflect.MakeSlice(t, 0, len(v.L))
		for i := range v.L {
			e := reflect.New(t.Elem()).Elem()
			if m.bind(&v.L[i], e, false, allowVar, isJSON) == bReject {
				return bReject
			}
			l = reflect.Append(l, e)
		}
		into.Set(l)
	case reflect.Struct:
		if v.K != "obj" {
			return bReject
		}
		descs := argDescs([]reflect.Type{t})
		for i := range v.O {
			found := false
			for _, d := range descs {
				if d.name == v.O[i].Name {
					found = true
					if m.bind(&v.O[i].Val, into.Field(d.index), d.isID, allowVar, isJSON) == bReject {
						return bReject
					}
				}
			}
			if !found {
				return bReject
			}
		}
	default:
		m.stop("argument of type " + t.String())
	}
	return bOK
}

// ---- comparison ----

// check compares an outcome with the prediction.
func (m *model) check(o *Outcome) string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	j, err := parseJSON(o.Body)
	if err != nil {
		return sprint("response: %v: %s", err, clip(o.Body))
	}
	if d := m.checkLog(o.Log); d != "" {
		return d
	}
	if m.q.NoMeta {
		if d := diff("data", j, m.data); d != "" {
			return d
		}
	} else {
		if d := diff("data", j.get("data"), m.data); d != "" {
			return d
		}
		if d := m.checkErrs(j.get("errors")); d != "" {
			return d
		}
	}
	for i, e := range m.errs {
		if i < len(o.Errs) && !e.wild && o.Errs[i] != e.msg {
			return sprint("reported error %d is %q, expected %q", i, o.Errs[i], e.msg)
		}
	}
	if len(o.Errs) != len(m.errs) {
		return sprint("%d errors reported to the host, expected %d", len(o.Errs), len(m.errs))
	}
	return ""
}

func (m *model) checkErrs(j *J) string {
	if j == nil {
		if len(m.errs) > 0 {
			return sprint("no errors in the response, expected %d, first %q", len(m.errs), m.errs[0].msg)
		}
		return ""
	}
	if j.K != 'l' {
		return "errors is not a list"
	}
	for i := 0; i < len(j.L) || i < len(m.errs); i++ {
		if i >= len(j.L) {
			return sprint("errors: missing %q at %s", m.errs[i].msg, m.errs[i].path)
		}
		if i >= len(m.errs) {
			return sprint("errors: unexpected %s", j.L[i])
		}
		e := m.errs[i]
		msg := j.L[i].get("message")
		if msg == nil || msg.K != 's' {
			return sprint("errors[%d] has no message", i)
		}
		if !e.wild && msg.S != clean(e.msg) {
			return sprint("errors[%d]: message %q, expected %q", i, msg.S, clean(e.msg))
		}
		p := j.L[i].get("path")
		ps := ""
		if p != nil {
			ps = compactJSON(p)
		}
		if ps != e.path {
			return sprint("errors[%d] (%q): path %s, expected %s", i, msg.S, ps, e.path)
		}
	}
	return ""
}

func compactJSON(j *J) string {
	if j.K == 'l' {
		var parts []string
		for _, e := range j.L {
			parts = append(parts, compactJSON(e))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return j.String()
}

func (m *model) checkLog(log []CallRec) string {
	for i := 0; i < len(log) || i < len(m.calls); i++ {
		if i >= len(log) {
			return "missing call " + m.calls[i].String()
		}
		if i >= len(m.calls) {
			return "unexpected call " + log[i].String()
		}
		a, b := log[i], m.calls[i]
		a.End, b.End = false, false
		if a.Err == "<panics>" {
			b.Err = a.Err
		}
		if x, y := a.String(), b.String(); x != y {
			return sprint("call %d is %s, expected %s", i, clip([]byte(x)), clip([]byte(y)))
		}
	}
	return ""
}

// checkTrace compares the trace with the prediction. exact: simulated time
// only passed inside callbacks.
func (m *model) checkTrace(j *J, elapsed int64, log []CallRec, slack int64) string {
	exact := slack == 0
	tr := j.get("extensions").get("tracing")
	if tr == nil {
		return "no trace"
	}
	res := tr.get("execution").get("resolvers")
	if res == nil || res.K != 'l' {
		return "no execution.resolvers"
	}
	num := func(j *J, k string) (int64, string) {
		v := j.get(k)
		if v == nil || v.K != 'n' {
			return 0, "no number " + k
		}
		n, err := strconv.ParseInt(v.S, 10, 64)
		if err != nil {
			return 0, err.Error()
		}
		return n, ""
	}
	total, e := num(tr, "duration")
	if e != "" {
		return e
	}
	if total < 0 || total > elapsed || (exact && total != elapsed) {
		return sprint("total duration %d, the request took %d", total, elapsed)
	}
	for _, k := range []string{"parsing", "validation"} {
		off, e := num(tr.get(k), "startOffset")
		if e != "" {
			return k + ": " + e
		}
		dur, e := num(tr.get(k), "duration")
		if e != "" {
			return k + ": " + e
		}
		if off < 0 || dur < 0 || off+dur > elapsed || (exact && off+dur != 0) {
			return sprint("%s: offset %d duration %d of %d", k, off, dur, elapsed)
		}
	}
	st, en := tr.get("startTime"), tr.get("endTime")
	if st == nil || en == nil {
		return "no startTime or endTime"
	}
	if _, err := time.Parse(time.RFC3339Nano, st.S); err != nil {
		return "startTime: " + err.Error()
	}
	if _, err := time.Parse(time.RFC3339Nano, en.S); err != nil {
		return "endTime: " + err.Error()
	}
	type rec struct {
		key        string
		start, end int64
		path       *J
	}
	var got []rec
	for i, r := range res.L {
		off, e := num(r, "startOffset")
		if e != "" {
			return e
		}
		dur, e := num(r, "duration")
		if e != "" {
			return e
		}
		str := func(k string) string {
			if v := r.get(k); v != nil && v.K == 's' {
				if strings.Contains(v.S, "__UnknownType") {
					return "?"
				}
				return v.S
			}
			return "<none>"
		}
		p := r.get("path")
		if p == nil {
			return sprint("resolvers[%d] has no path", i)
		}
		got = append(got, rec{compactJSON(p) + " " + str("parentType") + "." + str("fieldName") + ":" + str("returnType"), off, off + dur, p})
	}
	key := func(t expTrace) string {
		pa, ty := t.parent, t.typ
		if pa == "" {
			pa = "?"
		}
		if strings.Trim(ty, "[]!") == "" {
			ty = "?"
		}
		return t.path + " " + pa + "." + t.field + ":" + ty
	}
	want := append([]expTrace(nil), m.traces...)
	sort.SliceStable(want, func(a, b int) bool {
		x, y := key(want[a]), key(want[b])
		return x < y || (x == y && want[a].end < want[b].end)
	})
	sort.SliceStable(got, func(a, b int) bool {
		return got[a].key < got[b].key || (got[a].key == got[b].key && got[a].end < got[b].end)
	})
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return "trace: missing record " + key(want[i])
		}
		if i >= len(want) {
			return "trace: unexpected record " + got[i].key
		}
		g, w := got[i], want[i]
		if g.key != key(w) {
			if g.key < key(w) {
				return "trace: unexpected record " + g.key
			}
			return "trace: missing record " + key(w)
		}
		if g.start < 0 || g.end < g.start || g.end > elapsed {
			return sprint("trace: %s from %d to %d, the request took %d", g.key, g.start, g.end, elapsed)
		}
		if exact && (g.end != w.end || (g.start != w.start && g.start != w.start2)) {
			return sprint("trace: %s from %d to %d, expected from %d to %d", g.key, g.start, g.end, w.start, w.end)
		}
	}
	if exact {
		return ""
	}
	// time also passed between the callbacks, perhaps before the library first read
	// the clock (at most slack): every record covers the calls below it
	spans := map[string][2]int64{}
	for _, g := range got {
		p := compactJSON(g.path)
		if _, dup := spans[p]; dup {
			spans[p] = [2]int64{-1, -1}
			continue
		}
		spans[p] = [2]int64{g.start, g.end}
	}
	for i, c := range log {
		if i >= len(m.calls) || c.Key == "$file" || strings.HasPrefix(c.Key, "@") {
			continue
		}
		path := m.calls[i].Path
		for p, s := range spans {
			if s[0] < 0 {
				continue
			}
			if path == p || strings.HasPrefix(path, strings.TrimSuffix(p, "]")+",") {
				if s[0] > c.T0 || s[1]+slack < c.T1 || s[1]-s[0] < c.T1-c.T0 {
					return sprint("trace: %s from %d to %d does not cover its resolver %s, which ran from %d to %d", p, s[0], s[1], c.Key, c.T0, c.T1)
				}
			}
		}
	}
	for p, s := range spans {
		k := strings.LastIndex(p, ",")
		if k < 0 || s[0] < 0 {
			continue
		}
		for q, u := range spans {
			if u[0] >= 0 && q != p && strings.HasPrefix(p, strings.TrimSuffix(q, "]")+",") && (u[0] > s[0] || u[1] < s[1]) {
				return sprint("trace: %s from %d to %d is not inside %s from %d to %d", p, s[0], s[1], q, u[0], u[1])
			}
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 400 {
		return string(b[:300]) + "…" + string(b[len(b)-90:])
	}
	return string(b)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
