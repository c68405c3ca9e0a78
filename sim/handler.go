package main

import (
	"context"
	"errors"
	"io"
	"mime/multipart"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/verifsim"
)

// CallRec is one callback the library made into the application.
type CallRec struct {
	Key  string // "Type.field" or "@directive"
	Recv uint64 // object the resolver was called on
	Args string // canonical text of the arguments
	Info string // what the resolver saw of its request: path, values, Go context
	Err  string // the error it returned
	Skip bool   // a directive that asked to skip
	End  bool   // the Go context had ended when it returned
	N    int    // index of the call in its request
	T0   int64  // simulated time (monotonic, since the request began) at its start
	T1   int64  // and at its end
	Null bool   // it returned no value although the type has one
	Path string // predicted calls only: the path of the field
	Sub  string // what the nested request it made on another schema was answered
}

func (c CallRec) String() string {
	// no fmt here: see showVal
	s := c.Key + "#" + strconv.FormatUint(c.Recv, 16) + "(" + c.Args + ")"
	if c.Info != "" {
		s += " " + c.Info
	}
	if c.Err != "" {
		s += " err=" + strconv.Quote(c.Err)
	}
	if c.Skip {
		s += " skip"
	}
	if c.End {
		s += " ended"
	}
	if c.Sub != "" {
		s += " sub=" + c.Sub
	}
	return s
}

// Act is one planned behaviour of the application or its environment: it
// happens in the N-th callback of the request (or, for "step", at the N-th
// statement the library executes).
type Act struct {
	At   int    `json:"at"`
	Do   string `json:"do"` // err, panic, cancel, sleep, wall, set, ctx, ctxnil, skip, null, errpanic, yield, tick
	S    string `json:"s,omitempty"`
	V    string `json:"v,omitempty"`
	N    int64  `json:"n,omitempty"`
	Step bool   `json:"step,omitempty"` // At counts library statements instead of callbacks
}

// text is the act's text. JSON cannot carry invalid UTF-8: two private-use
// characters stand for bytes that are not.
func (a Act) text() string { return realText(a.S) }

func realText(s string) string {
	return strings.NewReplacer("\ue000", "\xff", "\ue001", "\xc3").Replace(s)
}

// simCtx is a Go context in simulated time.
type simCtx struct {
	name     string
	run      *reqRun
	err      error
	deadline int64 // on the simulated monotonic clock, 0 = none
	done     chan struct{}
	closed   bool
	panicErr int // panic in the n-th call of Err
	errCalls int
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.deadline == 0 {
		return time.Time{}, false
	}
	return time.Unix(0, baseWall+c.deadline), true
}
func (c *simCtx) Done() <-chan struct{} {
	c.check()
	return c.done
}
func (c *simCtx) check() {
	if c.err == nil && c.deadline != 0 && simMono() >= c.deadline {
		c.err = context.DeadlineExceeded
	}
	if c.err != nil && !c.closed {
		c.closed = true
		close(c.done)
	}
}
func (c *simCtx) Err() error {
	c.errCalls++
	if c.panicErr != 0 && c.errCalls == c.panicErr {
		probe("fault.ctxpanic")
		panic(c.run.newPanic("context panicked"))
	}
	if s := sched; s != nil {
		s.maybeYield("ctxerr")
	}
	c.check()
	return c.err
}
func (c *simCtx) Value(key interface{}) interface{} {
	if key == ctxNameKey {
		return c.name
	}
	if c.err != nil {
		// what package context knows about it
		return causedCtx.Value(key)
	}
	return nil
}

// causedCtx was cancelled for a reason of its own, which is not what Err says.
var causedCtx = func() context.Context {
	c, cancel := context.WithCancelCause(context.Background())
	cancel(errors.New("the reason behind it"))
	return c
}()

type ctxKey int

const ctxNameKey ctxKey = 1

func newSimCtx(run *reqRun, name string) *simCtx {
	return &simCtx{name: name, run: run, done: make(chan struct{})}
}

// simPanic is the value user code panics with.
type simPanic struct{ msg string }

// badError panics when it is asked for its message.
type badError struct {
	r *reqRun
	p interface{}
}

func (b *badError) Error() string {
	b.r.panicVal = b.p
	panic(b.p)
}

// errText reads the message of an error that was handed to the host.
func errText(e error) (s string) {
	defer func() {
		if recover() != nil {
			s = "<panics>"
		}
	}()
	return e.Error()
}

// fancyError is an error type of the application's own.
type fancyError struct{ msg string }

func (f fancyError) Error() string { return f.msg }

// nilError is an error even when it is a nil pointer.
type nilError struct{ msg string }

func (*nilError) Error() string { return "nil error" }

// codeError is an error even when it is zero.
type codeError int

func (c codeError) Error() string { return "code " + strconv.Itoa(int(c)) }

// listError cannot be compared.
type listError []string

func (l listError) Error() string { return strings.Join(l, "\n") }

type wrapError struct{ err error }

func (w wrapError) Error() string { return w.err.Error() }
func (w wrapError) Unwrap() error { return w.err }

// showVal formats a context value. Callbacks do not use package fmt: its object
// pool, shared with the library, would order the library's accesses (and,
// where callbacks hide their synchronisation, look like a race).
func showVal(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case *valBox:
		return "&" + x.s
	case map[string]string:
		return "map" + x["v"]
	}
	return "?" + reflect.TypeOf(v).String()
}

func hex16(h uint64) string {
	s := strconv.FormatUint(h, 16)
	return "0000000000000000"[len(s):] + s
}

// reqRun is the state of one request being served.
type reqRun struct {
	spec     *ReqSpec
	plan     []Act
	world    uint64
	log      []CallRec
	ncalls   int
	ctxs     []*simCtx // every Go context of the request, the current one last
	panicVal interface{}
	t0       int64
	files    map[string]*multipart.FileHeader
	nfile    int
	nbody    int
	retain   *[]retained
	sub      func(n int) string
	fuel     int64
	steps    int64
	acts     []Act // step acts, sorted by At
	nact     int
	returned int // callbacks that returned to the library
	cancelAt int // number of callbacks that had returned when the context ended asynchronously, -1 = never
	done     bool

	outOfFuel    bool
	outer        *reqRun
	outerCount   int64
	outerNext    int64
	outerDepth   int
	outerWall    int64
	outerMono    int64
	outerClock   bool
	savedPreempt int64
}

type retained struct {
	what string
	args []interface{}
	want string
	req  int
}

func (r *reqRun) newPanic(msg string) interface{} {
	r.panicVal = &simPanic{msg}
	return r.panicVal
}

func (r *reqRun) curCtx() *simCtx {
	if len(r.ctxs) == 0 {
		return nil
	}
	return r.ctxs[len(r.ctxs)-1]
}

func (r *reqRun) actsAt(n int) []Act {
	var res []Act
	for _, a := range r.plan {
		if !a.Step && (a.At == n || a.At == -1) {
			res = append(res, a)
		}
	}
	return res
}

// valueKeys are the context values resolvers look at.
var valueKeys = []string{"user", "trace", "k3", ""}

type valBox struct{ s string }

// ctxVal is the value put on a request for v: a text, or nothing, a number, a pointer, or something that cannot be compared.
func ctxVal(v string) interface{} {
	switch {
	case strings.HasPrefix(v, "nil"):
		return nil
	case strings.HasPrefix(v, "int"):
		n, _ := strconv.Atoi(v[3:])
		return n
	case strings.HasPrefix(v, "ptr"):
		return &valBox{v}
	case strings.HasPrefix(v, "map"):
		return map[string]string{"v": v}
	}
	return v
}

// someVal draws a value for ctxVal.
func someVal(r *Rand, s string) string {
	if r.p(1, 3) {
		s = pick(r, []string{"nil", "int", "ptr", "map"})
	}
	return s + strconv.Itoa(r.n(1000))
}

func (r *reqRun) info(ctx *yarql.Ctx) string {
	if ctx == nil {
		return ""
	}
	var b strings.Builder
	b.Write(ctx.GetPath())
	for _, k := range valueKeys {
		v, ok := ctx.GetValueOk(k)
		v2 := ctx.GetValue(k)
		if ok {
			b.WriteString(" " + k + "=" + showVal(v))
		}
		if !reflect.DeepEqual(v, v2) {
			b.WriteString(" " + k + "!=" + showVal(v2))
		}
	}
	c := ctx.GetContext()
	if c == nil {
		b.WriteString(" noctx")
	} else {
		b.WriteString(" ctx=" + showVal(c.Value(ctxNameKey)))
	}
	return b.String()
}

// callback is the common part of every callback.
func callback(ctx *yarql.Ctx, key string, recv uint64, args []interface{}) (h uint64, rec *CallRec, err error) {
	r := currentRun()
	if r == nil || r.done {
		harnessFail("callback %s outside of a request", key)
	}
	st := leaveLib()
	defer enterLib(st)
	n := r.ncalls
	r.ncalls++
	if n > 2_000_000 {
		harnessFail("too many callbacks")
	}
	if s := sched; s != nil {
		s.maybeYield("call")
	}
	a := canonArgs(args)
	r.log = append(r.log, CallRec{Key: key, Recv: recv, Args: a, N: n, Info: r.info(ctx), T0: simMono() - r.t0})
	idx := len(r.log) - 1
	if r.retain != nil && ctx != nil {
		path := ctx.GetPath()
		*r.retain = append(*r.retain, retained{what: key + "'s path", args: []interface{}{path}, want: canonArgs([]interface{}{path})})
	}
	if mix(mixs(r.world, key), recv+uint64(n))%3 == 0 {
		// a resolver may do with its arguments what it likes
		for _, arg := range args {
			scribble(reflect.ValueOf(arg))
		}
		probe("args.scribbled")
	} else if r.retain != nil && len(args) > 0 {
		*r.retain = append(*r.retain, retained{what: key, args: args, want: a})
	}
	h = mixs(mixs(mix(r.world, recv), key), a)
	for _, act := range r.actsAt(n) {
		e := r.do(act, ctx)
		switch act.Do {
		case "err":
			err = e
		case "errpanic":
			err = &badError{r, &simPanic{"error value panicked"}}
		case "skip":
			r.log[idx].Skip = true
		case "null":
			r.log[idx].Null = true
		case "sub":
			if r.sub != nil {
				r.log[idx].Sub = r.sub(int(act.N))
			}
		}
	}
	if err != nil {
		if _, ok := err.(*badError); ok {
			r.log[idx].Err = "<panics>"
		} else {
			r.log[idx].Err = "!" + err.Error()
		}
	}
	if s := sched; s != nil {
		s.maybeYield("ret")
	}
	if c := r.curCtx(); c != nil {
		c.check()
		r.log[idx].End = c.err != nil
	}
	r.log[idx].T1 = simMono() - r.t0
	r.returned++
	return h, &r.log[idx], err
}

type libErrRoot struct{ text string }

func (q libErrRoot) ResolveElsewhere() (*int, error) { return nil, errors.New(q.text) }

// libError is an error with the given text that another schema reported for one of its fields.
func libError(text string) error {
	n := verifsim.Count
	defer func() { verifsim.Count = n }()
	s := yarql.NewSchema()
	if err := s.Parse(libErrRoot{text}, struct{}{}, nil); err != nil {
		return errors.New(text)
	}
	if errs := s.Resolve([]byte("{elsewhere}"), yarql.ResolveOptions{}); len(errs) == 1 {
		return errs[0]
	}
	return errors.New(text)
}

// scribble overwrites everything v refers to.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			for i := range b {
				b[i] = '#'
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != fileType {
			scribble(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(77, 0)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 77)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77)
		}
	}
}

// do performs one planned act.
func (r *reqRun) do(a Act, ctx *yarql.Ctx) error {
	probe("fault." + a.Do)
	switch a.Do {
	case "err":
		switch a.text() {
		case "nil error":
			return (*nilError)(nil)
		case "context canceled":
			return context.Canceled
		case "context deadline exceeded":
			return context.DeadlineExceeded
		case "EOF":
			return io.EOF
		case "code 0":
			return codeError(0)
		}
		switch a.N % 7 {
		case 5:
			return listError{a.text()}
		case 6:
			return errors.Join(errors.New(a.text()))
		case 4:
			if sched == nil {
				return libError(a.text())
			}
		case 1:
			return fancyError{a.text()}
		case 2:
			return wrapError{errors.New(a.text())}
		case 3:
			return &fancyError{a.text()}
		}
		return errors.New(a.text())
	case "panic":
		switch a.N % 3 {
		case 1:
			var m map[string]int
			defer func() {
				e := recover()
				r.panicVal = e
				panic(e)
			}()
			m["x"] = 1
		case 2:
			e := errors.New(a.text())
			r.panicVal = e
			panic(e)
		}
		panic(r.newPanic(a.text()))
	case "cancel":
		c := r.curCtx()
		if c != nil {
			c.check() // its deadline may be over
		}
		if c != nil && c.err == nil {
			switch a.N % 3 {
			case 1:
				c.err = context.DeadlineExceeded
			case 2:
				c.err = fancyError{"the caller went away: " + a.text()}
			default:
				c.err = context.Canceled
			}
			c.check()
			probe("fault.cancel.effective")
		}
	case "sleep":
		r.sleep(a.N)
	case "wall":
		jumpWall(a.N)
	case "set":
		if ctx != nil {
			ctx.SetValue(a.S, ctxVal(a.V))
			probe("fault.set.effective")
		}
	case "ctx":
		if ctx != nil {
			c := newSimCtx(r, a.S)
			c.deadline = 0
			if a.N > 0 {
				c.deadline = simMono() + a.N
			}
			if a.N < 0 {
				c.err = context.Canceled
			}
			ctx.SetContext(c)
			r.ctxs = append(r.ctxs, c)
			probe("fault.ctx.effective")
		}
	case "ctxnil":
		if ctx != nil {
			ctx.SetContext(nil)
			r.ctxs = append(r.ctxs, nil)
			probe("fault.ctxnil.effective")
		}
	case "yield", "skip", "null", "sub", "errpanic":
	default:
		harnessFail("unknown act %s", a.Do)
	}
	return nil
}

func out1[T any](ctx *yarql.Ctx, key string, recv uint64, args ...interface{}) T {
	v, _ := out2[T](ctx, key, recv, args...)
	return v
}

func out2[T any](ctx *yarql.Ctx, key string, recv uint64, args ...interface{}) (T, error) {
	var zero T
	t := reflect.TypeOf(&zero).Elem()
	v, err := outAny(t, ctx, key, recv, args)
	if !v.IsValid() {
		return zero, err
	}
	reflect.ValueOf(&zero).Elem().Set(v)
	return zero, err
}

func outAny(t reflect.Type, ctx *yarql.Ctx, key string, recv uint64, args []interface{}) (reflect.Value, error) {
	h, rec, err := callback(ctx, key, recv, args)
	if rec.Null {
		return reflect.Value{}, err
	}
	return resultValue(t, key, h, args), err
}

// resultValue is the value a resolver returns: a pure function of its seed,
// except for the few resolvers whose size the client chooses.
func resultValue(t reflect.Type, key string, h uint64, args []interface{}) reflect.Value {
	switch key {
	case "Query.blob":
		kb := int(args[0].(struct{ Kb uint16 }).Kb) % 200
		return reflect.ValueOf(strings.Repeat(hex16(h)+"~\"", kb*1024/18))
	case "Query.numbers":
		n := int(args[0].(struct{ N uint16 }).N) % 1000
		l := make([]int, n)
		for i := range l {
			l[i] = int(mix(h, uint64(i)) % 1000)
		}
		return reflect.ValueOf(l)
	case "Node.kids", "Query.nodes", "Mut.many", "Query.crowd":
		n := 0
		if a, ok := args[0].(struct{ N uint16 }); ok {
			if n = int(a.N) % 4; a.N > 65_000 {
				n = 900 + int(a.N)%300
			}
		} else {
			n = int(args[0].(struct{ N uint8 }).N) % 8
		}
		l := make([]Node, n)
		for i := range l {
			if i > 0 && mix(h, 30+uint64(i))%4 == 0 {
				l[i] = l[i-1]
				continue
			}
			l[i] = genValue(nodeType, mix(h, uint64(i)), 2).Interface().(Node)
		}
		return reflect.ValueOf(l)
	case "Th1.many", "Th2.many", "Th3.many", "Th4.many", "Th5.many":
		n := int(args[0].(struct{ N uint8 }).N) % 6
		l := make([]Thing, n)
		for i := range l {
			if v := genValue(thingType, mix(h, uint64(i)), 2); !v.IsNil() {
				l[i] = v.Interface().(Thing)
			}
		}
		return reflect.ValueOf(l)
	case "Node.next", "Node.self", "Query.node", "Query.nodePtr":
		// never ends
		v := genValue(nodeType, mix(h, 5), 2)
		if t.Kind() == reflect.Ptr {
			p := reflect.New(nodeType)
			p.Elem().Set(v)
			return p
		}
		return v
	case "Node.shape":
		return wrapShape(genValue(squareType, mix(h, 3), 2))
	case "Square.inner", "Circle.inner":
		return wrapShape(genValue([]reflect.Type{circleType, squareType}[h>>9&1], mix(h, 3), 2))
	}
	return genValue(t, h, 2-2*b2i(t.Kind() == reflect.Struct))
}

func wrapShape(v reflect.Value) reflect.Value {
	r := reflect.New(shapeType).Elem()
	r.Set(v)
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func outDir(ctx *yarql.Ctx, key string, args ...interface{}) yarql.DirectiveModifier {
	_, rec, _ := callback(ctx, key, 0, args)
	if key == "@gate" {
		if !args[0].(struct{ Open bool }).Open {
			rec.Skip = true
		}
	}
	return yarql.DirectiveModifier{Skip: rec.Skip}
}

// makeFunc builds a resolver held in a struct field.
func makeFunc(t reflect.Type, key string, h uint64) reflect.Value {
	return reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
		var ctx *yarql.Ctx
		var args []interface{}
		for _, v := range in {
			if c, ok := v.Interface().(*yarql.Ctx); ok {
				ctx = c
			} else {
				args = append(args, v.Interface())
			}
		}
		outT := t.Out(0)
		v, err := outAny(outT, ctx, key, h, args)
		res := make([]reflect.Value, t.NumOut())
		for i := range res {
			o := reflect.New(t.Out(i)).Elem()
			if i == 0 {
				if v.IsValid() {
					o.Set(v)
				}
			} else if t.Out(i) == errorType && err != nil {
				o.Set(reflect.ValueOf(err))
			}
			res[i] = o
		}
		return res
	})
}

// formFile is the host's form lookup.
func (r *reqRun) formFile(key string) (*multipart.FileHeader, error) {
	sub := leaveLib()
	defer enterLib(sub)
	n := r.nfile
	r.nfile++
	if s := sched; s != nil {
		s.maybeYield("file")
	}
	r.log = append(r.log, CallRec{Key: "$file", Args: string(append([]byte(nil), key...)), N: -1})
	if r.retain != nil {
		*r.retain = append(*r.retain, retained{what: "$file", args: []interface{}{key}, want: canonArgs([]interface{}{key})})
	}
	for _, a := range r.spec.FilePl {
		if a.At == n || a.At == -1 {
			switch a.Do {
			case "err":
				probe("fault.formfile.err")
				return nil, errors.New(a.text())
			case "panic":
				probe("fault.formfile.panic")
				panic(r.newPanic(a.text()))
			}
		}
	}
	f, ok := r.files[key]
	if !ok {
		probe("fault.formfile.missing")
		return nil, errors.New("http: no such file " + key)
	}
	return f, nil
}
