package main

import (
	"reflect"
	"strconv"
	"strings"
)

// The workload generator: requests that the documented language and schema
// accept, drawn from the descriptors of the application's types.

type gen struct {
	r       *Rand
	doc     *Doc
	op      *Op
	q       *ReqSpec
	budget  int // selections left
	fragOf  map[string][]*Frag
	fragCst map[string]int
	vars    []genVar
	o       genOpts
	names   int
	mult    int
	ndirs   int
	longs   int // long lists drawn
}

type genVar struct {
	def *VarDef
	val *Val
	t   reflect.Type
	id  bool
}

type genOpts struct {
	Budget   int
	Depth    int
	Mutation bool
	Dirs     int // percent of uses
	LogDirs  bool
	Frags    int
	Vars     int
	Alias    int
	Files    bool
	Reject   int // percent of integer arguments that do not fit
	Mistype  int // percent of values of another type
	Long     bool
	Crowd    bool // a list of a thousand objects
	ManyDirs bool
	Args     int // percent of optional arguments given
	SafeText bool
	Wide     int // percent chance of callable fields over data
	MaxMult  int
	NoSplit  bool
}

// genFocus makes the requests drawn use the same few fields.
var genFocus uint64

func defOpts(r *Rand) genOpts {
	o := genOpts{Budget: r.rng(2, 28), Depth: r.rng(1, 6), Mutation: r.p(1, 4), Dirs: pick(r, []int{0, 0, 10, 30}), LogDirs: true,
		Frags: pick(r, []int{0, 10, 30}), Vars: pick(r, []int{0, 20, 60}), Alias: pick(r, []int{0, 20, 60}), Args: 60, Wide: 50, MaxMult: 40}
	if r.p(1, 12) {
		o.Long = true
	}
	if r.p(1, 10) {
		o.Budget = r.rng(30, 90)
	}
	return o
}

// genReq draws a valid request.
func genReq(r *Rand, o genOpts) *ReqSpec {
	g := &gen{r: r, doc: &Doc{}, q: &ReqSpec{}, o: o, budget: o.Budget, fragOf: map[string][]*Frag{}, fragCst: map[string]int{}, mult: 1}
	q := g.q
	q.Doc = g.doc
	q.Style = uint64(r.n(1 << 20))
	q.JStyle = uint64(r.n(1 << 20))
	op := &Op{}
	g.op = op
	var root reflect.Type
	if o.Mutation {
		op.Kind = "mutation"
		_, root = rootTypes(genWorld)
	} else {
		root, _ = rootTypes(genWorld)
		if r.p(2, 3) {
			op.Kind = "query"
		}
	}
	op.Sel = g.selection(root, 0)
	if len(g.vars) > 0 && op.Kind == "" {
		op.Kind = "query"
	}
	if op.Kind != "" && r.p(1, 2) {
		op.Name = g.name("Op")
	}
	for _, v := range g.vars {
		op.Vars = append(op.Vars, *v.def)
		if v.val != nil {
			q.Vars = append(q.Vars, Arg{v.def.Name, *v.val})
		}
	}
	if r.p(1, 10) {
		q.Vars = append(q.Vars, Arg{"unused_variable", Val{K: "list", L: []Val{{K: "null"}, {K: "obj"}}}})
	}
	for i := len(q.Vars) - 1; i > 0; i-- {
		j := r.n(i + 1)
		q.Vars[i], q.Vars[j] = q.Vars[j], q.Vars[i]
	}
	g.doc.Ops = []*Op{op}
	// further operations in the same document
	if op.Name != "" && r.p(1, 3) {
		for i := r.rng(1, 3); i > 0; i-- {
			g2 := &gen{r: r, doc: &Doc{}, q: &ReqSpec{}, o: o, budget: r.rng(1, 5), fragOf: map[string][]*Frag{}, fragCst: map[string]int{}, mult: 1}
			g2.o.Vars, g2.o.Frags, g2.o.Files = 0, 0, false
			x := &Op{Kind: pick(r, []string{"query", "mutation"}), Name: op.Name + strings.Repeat("x", i)}
			if r.p(1, 2) {
				x.Name = strings.Repeat("y", i) + op.Name
			}
			if len(x.Name) > 254 {
				x.Name = op.Name[:254-i]
			}
			if x.Kind == "query" {
				x.Sel = g2.selection(apps[genWorld>>32][0], 0)
			} else {
				x.Sel = g2.selection(apps[genWorld>>32][1], 0)
			}
			g.doc.Ops = append(g.doc.Ops, x)
		}
		q.Op = op.Name
	} else if op.Name != "" && r.p(1, 2) {
		q.Op = op.Name
	}
	n := len(g.doc.Ops) + len(g.doc.Frags)
	if r.p(1, 2) {
		for i := 0; i < n; i++ {
			g.doc.Order = append(g.doc.Order, i)
		}
		for i := n - 1; i > 0; i-- {
			j := r.n(i + 1)
			g.doc.Order[i], g.doc.Order[j] = g.doc.Order[j], g.doc.Order[i]
		}
	}
	if o.Files {
		q.Form = !r.p(1, 6)
	}
	return q
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// name invents a name; names are often prefixes of each other.
func (g *gen) name(base string) string {
	g.names++
	r := g.r
	switch r.n(8) {
	case 0:
		return base
	case 1:
		return base + strings.Repeat("a", r.rng(1, 4))
	case 2:
		if g.o.Long {
			return base + "_" + strings.Repeat("l", 240-len(base)+r.n(13))
		}
	case 3:
		return "_" + base + strconv.Itoa(r.n(10))
	}
	n := r.rng(1, 8)
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = nameChars[r.n(53)]
		} else {
			b[i] = nameChars[r.n(63)]
		}
	}
	s := string(b)
	switch s {
	case "on", "true", "false", "null":
		return s + "x"
	}
	if strings.HasPrefix(s, "__") {
		return "x" + s
	}
	return s
}

func (g *gen) pct(p int) bool { return g.r.n(100) < p }

// selection draws a selection set for a composite type.
func (g *gen) selection(t reflect.Type, depth int) []*Sel {
	td := describe(t)
	used := map[string]bool{}
	n := g.r.rng(1, 5)
	if depth == 0 {
		n = g.r.rng(1, 9)
	}
	var sels []*Sel
	for i := 0; i < n && (g.budget > 0 || len(sels) == 0); i++ {
		switch {
		case g.pct(g.o.Frags) && td.name != "":
			if s := g.spread(t, depth); s != nil {
				sels = append(sels, s)
				continue
			}
		}
		if s := g.fieldSel(td, depth, used); s != nil {
			sels = append(sels, s)
		}
	}
	if len(sels) == 0 {
		sels = append(sels, &Sel{Name: "__typename"})
	}
	return sels
}

// spread draws a fragment or inline fragment.
func (g *gen) spread(t reflect.Type, depth int) *Sel {
	r := g.r
	td := describe(t)
	target := t
	if t.Kind() == reflect.Interface {
		target = pick(r, implementations(t))
		if r.p(1, 3) {
			// the interface itself, or another one
			target = t
			if r.p(1, 3) {
				target = pick(r, ifaceTypes)
			}
		}
	} else if r.p(1, 8) {
		target = pick(r, ifaceTypes)
	} else if r.p(1, 10) {
		// a type condition that does not apply
		target = pick(r, []reflect.Type{circleType, squareType, nodeType, reflect.TypeOf(Leaf{}), reflect.TypeOf(Orig{}), thTypes[0], reflect.TypeOf(Wide{})})
	}
	tn := describe(target).name
	g.budget--
	s := &Sel{Kind: 2, Name: tn}
	if r.p(1, 2) {
		s.Kind = 1
		if fs := g.fragOf[tn]; len(fs) > 0 && r.p(1, 2) {
			f := pick(r, fs)
			if g.fragCst[f.Name]*g.mult < 60 {
				s.Name = f.Name
				s.Dirs = g.dirs(1)
				return s
			}
		}
		f := &Frag{On: tn}
		for {
			f.Name = g.name("F")
			ok := f.Name != "on"
			for _, x := range g.doc.Frags {
				if x.Name == f.Name {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		g.doc.Frags = append(g.doc.Frags, f)
		before := g.budget
		f.Sel = g.selection(target, depth)
		g.fragCst[f.Name] = (before - g.budget + 2) * 3
		g.fragOf[tn] = append(g.fragOf[tn], f)
		s.Name = f.Name
		s.Dirs = g.dirs(1)
		return s
	}
	_ = td
	s.Sel = g.selection(target, depth)
	s.Dirs = g.dirs(2)
	return s
}

func (g *gen) fieldSel(td *typeDesc, depth int, used map[string]bool) *Sel {
	r := g.r
	s := &Sel{}
	if len(td.fields) == 0 || r.p(1, 14) {
		s.Name = "__typename"
	} else {
		var fd *fieldDesc
		for try := 0; ; try++ {
			fd = pick(r, td.fields)
			if genFocus != 0 && try < 12 && mixs(genFocus, fd.key)%5 != 0 {
				continue
			}
			if try > 20 {
				s.Name = "__typename"
				fd = nil
				break
			}
			if isComposite(fd.out) && (depth >= g.o.Depth || g.budget < 2) {
				continue
			}
			if !(fd.method || fd.fn) && g.pct(g.o.Wide) && try < 6 {
				continue
			}
			if hasFile(fd) && !g.o.Files {
				continue
			}
			if (fd.key == "Query.blob" || fd.key == "Query.numbers") && !g.o.Long && try < 20 && !r.p(1, 6) {
				continue
			}
			break
		}
		if fd != nil {
			s.Name = fd.name
			s.Args = g.args(fd)
			if fd.key == "Query.crowd" {
				if len(s.Args) == 0 || !g.o.Crowd {
					s.Args = []Arg{{"n", Val{K: "int", S: strconv.Itoa(r.n(60))}}}
				} else {
					// a thousand of very little
					g.o.Crowd = false
					s.Args = []Arg{{"n", Val{K: "int", S: strconv.Itoa(65_001 + r.n(500))}}}
					o, m, b := g.o, g.mult, g.budget
					g.o.Depth, g.o.Dirs, g.o.Frags, g.mult, g.budget = depth+1, g.o.Dirs/8, 0, 1000, 1
					s.Sel = g.selection(nodeType, depth+1)
					g.o, g.mult, g.budget = o, m, b-2
					goto named
				}
			}
			if isComposite(fd.out) {
				old := g.mult
				b := base(fd.out)
				if fd.out != b && fd.out.Kind() != reflect.Ptr {
					g.mult *= 3
				}
				if fd.key == "Box.matrix" {
					g.mult *= 2
				}
				if g.mult > g.o.MaxMult {
					g.mult = old
					return nil
				}
				g.budget -= g.mult
				s.Sel = g.selection(b, depth+1)
				g.mult = old
			} else {
				g.budget--
			}
		}
	}
named:
	key := s.Name
	if g.pct(g.o.Alias) {
		s.Alias = g.name("al")
		key = s.Alias
	}
	for used[key] && !r.p(1, 40) {
		s.Alias = g.name("k" + strconv.Itoa(g.names))
		key = s.Alias
	}
	used[key] = true
	s.Dirs = g.dirs(0)
	return s
}

func hasFile(fd *fieldDesc) bool {
	for _, a := range fd.argT {
		if typeHasFile(a.t, 0) {
			return true
		}
	}
	return false
}

func typeHasFile(t reflect.Type, lvl int) bool {
	if t == fileType {
		return true
	}
	if lvl > 4 {
		return false
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Ptr, reflect.Array:
		return typeHasFile(t.Elem(), lvl+1)
	case reflect.Struct:
		if t == timeType {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && typeHasFile(t.Field(i).Type, lvl+1) {
				return true
			}
		}
	}
	return false
}

// dirs draws the directives of one use.
func (g *gen) dirs(loc int) []Dir {
	r := g.r
	if !g.pct(g.o.Dirs) {
		return nil
	}
	n := 1
	if r.p(1, 3) {
		n = 2
	}
	if g.o.ManyDirs && r.p(1, 4) {
		n = pick(r, []int{9, 60, 200, 255})
		if g.ndirs > 300 {
			n = 3
		}
	}
	g.ndirs += n
	var ds []Dir
	for i := 0; i < n; i++ {
		last := i == n-1
		choices := []string{"tag"}
		if loc == 0 {
			choices = append(choices, "plain", "dual")
		} else if loc == 1 {
			choices = append(choices, "frag", "dual")
		} else {
			choices = append(choices, "dual")
		}
		if last {
			choices = append(choices, "gate", "skip", "include", "skip", "include")
		}
		if !g.o.LogDirs {
			choices = []string{"skip", "include"}
			if !last {
				continue
			}
		}
		d := Dir{Name: pick(r, choices)}
		switch d.Name {
		case "skip", "include":
			d.Args = []Arg{{"if", g.value(reflect.TypeOf(true), false, true, 0)}}
		default:
			def, _ := findDir(d.Name, loc)
			t := reflect.TypeOf(def.fn)
			var ins []reflect.Type
			for i := 0; i < t.NumIn(); i++ {
				if t.In(i) != ctxPtrType {
					ins = append(ins, t.In(i))
				}
			}
			d.Args = g.argList(argDescs(ins), d.Name == "gate")
		}
		ds = append(ds, d)
	}
	return ds
}

func (g *gen) args(fd *fieldDesc) []Arg {
	return g.argList(fd.argT, false)
}

func (g *gen) argList(ds []argDesc, all bool) []Arg {
	r := g.r
	var res []Arg
	for _, d := range ds {
		p := g.o.Args
		if all {
			p = 100
		}
		if !g.pct(p) {
			continue
		}
		res = append(res, Arg{d.name, g.value(d.t, d.isID, true, 0)})
	}
	for i := len(res) - 1; i > 0; i-- {
		j := r.n(i + 1)
		res[i], res[j] = res[j], res[i]
	}
	return res
}

// varType is the GraphQL type of a variable for a Go input type, "" if it cannot be named.
func varType(t reflect.Type, isID bool) string {
	s, nn := inType(t, isID)
	if s == "" {
		return ""
	}
	if nn {
		s += "!"
	}
	return s
}

func inType(t reflect.Type, isID bool) (string, bool) {
	if t == fileType {
		return "File", false
	}
	if t == timeType {
		return "Time", true
	}
	if _, ok := enumVals[t]; ok {
		return t.Name(), true
	}
	switch t.Kind() {
	case reflect.Ptr:
		s, _ := inType(t.Elem(), isID)
		return s, false
	case reflect.Slice:
		s, nn := inType(t.Elem(), false)
		if s == "" {
			return "", false
		}
		if nn {
			s += "!"
		}
		return "[" + s + "]", true
	case reflect.Struct:
		n := t.Name()
		if n == "Leaf" {
			n = "Leaf__input"
		}
		return n, true
	}
	if isID {
		return "ID", true
	}
	s, nn := qlType(t, false)
	return s, nn
}

// value draws a client value for a Go type.
func (g *gen) value(t reflect.Type, isID, allowVar bool, lvl int) Val {
	if allowVar && g.pct(g.o.Vars/(1+lvl)) {
		if v, ok := g.variable(t, isID); ok {
			return v
		}
	}
	return g.literal(t, isID, allowVar, lvl, false)
}

func (g *gen) variable(t reflect.Type, isID bool) (Val, bool) {
	r := g.r
	ty := varType(t, isID)
	if ty == "" {
		return Val{}, false
	}
	for _, v := range g.vars {
		if v.t == t && v.id == isID && r.p(1, 2) {
			return Val{K: "var", S: v.def.Name}, true
		}
	}
	if len(g.vars) > 25 {
		return Val{}, false
	}
	name := ""
	for {
		name = g.name("v")
		ok := true
		for _, v := range g.vars {
			if v.def.Name == name {
				ok = false
			}
		}
		if ok {
			break
		}
	}
	d := &VarDef{Name: name, Type: ty}
	if r.p(1, 6) && strings.HasSuffix(ty, "!") {
		d.Type = strings.TrimSuffix(ty, "!")
	}
	gv := genVar{def: d, t: t, id: isID}
	def := r.p(1, 3)
	if def {
		v := g.literal(t, isID, false, 1, false)
		d.Default = &v
	}
	if (!def || r.p(1, 2)) && (strings.HasSuffix(d.Type, "!") || def || !r.p(1, 5)) {
		v := g.literal(t, isID, false, 1, true)
		gv.val = &v
	}
	g.vars = append(g.vars, gv)
	return Val{K: "var", S: name}, true
}

func (g *gen) text() string {
	r := g.r
	h := r.u64()
	s := genText(h)
	if r.p(1, 30) && g.o.Long {
		s = strings.Repeat(s+"0123456789", 40)
	}
	return s
}

var intEdge = []string{"0", "-1", "1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808",
	"9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "99999999999999999999999"}

func intFits(s string, t reflect.Type) bool {
	var err error
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		_, err = strconv.ParseUint(s, 10, t.Bits())
	} else {
		_, err = strconv.ParseInt(s, 10, t.Bits())
	}
	return err == nil
}

func (g *gen) integer(t reflect.Type) string {
	r := g.r
	if g.pct(g.o.Reject) {
		return pick(r, intEdge)
	}
	if r.p(1, 3) {
		for i := 0; i < 20; i++ {
			s := pick(r, intEdge)
			if intFits(s, t) {
				return s
			}
		}
	}
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		return strconv.FormatUint(genUint(r.u64(), t.Bits()), 10)
	}
	return strconv.FormatInt(genInt(r.u64(), t.Bits()), 10)
}

// oddFiles are form-file names that are easily mistaken for one another.
var oddFiles = []string{"", " f0", "f0 ", "F0", "f00", "f", "f0.txt", "map.0", "0", "ünïcödé.png", "f\t0", " ", "f0\n", "../f0", "f%200", "f1,f2", "variables.f0", "operations"}

func hasList(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind() == reflect.Slice || t.Kind() == reflect.Array
}

// mistyped draws a value that no request may give for the type.
func (g *gen) mistyped(t reflect.Type, isID, isJSON bool) Val {
	r := g.r
	one := Val{K: "int", S: pick(r, []string{"0", "1", "-1", "7"})}
	for {
		var v Val
		switch r.n(7) {
		case 0:
			v = strVal(pick(r, []string{"", "x", "no such", "1.5", " 1", "0x1", "1e1", "true", "null"}), r.u64()|1)
		case 1:
			v = one
		case 2:
			v = Val{K: "float", S: pick(r, []string{"1.5", "0.0", "-3.0", "1e2"})}
		case 3:
			v = Val{K: "bool", S: pick(r, []string{"true", "false"})}
		case 4:
			v = Val{K: "list"}
			for i := r.n(3); i > 0; i-- {
				v.L = append(v.L, one)
			}
		case 5:
			v = Val{K: "obj"}
			if r.p(1, 2) {
				v.O = []Arg{{"noSuchMember", one}}
			}
		case 6:
			if v = (Val{K: "enum", S: pick(r, []string{"NO_SUCH", "RED_", "red", "a"})}); isJSON {
				v.K = "str"
			}
		}
		if mismatch(&v, t, isID, isJSON) {
			return v
		}
	}
}

// mismatch tells whether a value is certainly not one of the type.
func mismatch(v *Val, t reflect.Type, isID, isJSON bool) bool {
	k := t.Kind()
	num := k >= reflect.Int && k <= reflect.Float64
	_, enum := enumNames[t]
	switch v.K {
	case "str":
		return t == timeType || enum || t != fileType && k != reflect.String || isID && k != reflect.String
	case "int":
		return t == timeType || t == fileType || !num && k != reflect.Bool && !enum || isJSON && (isID || enum)
	case "float":
		return k != reflect.Float32 && k != reflect.Float64 && (!isJSON || k != reflect.Bool)
	case "bool":
		return k != reflect.Bool
	case "list":
		return k != reflect.Slice || t.Elem().Kind() != reflect.Ptr && (len(v.L) > 0 && mismatch(&v.L[0], t.Elem(), false, isJSON))
	case "obj":
		return t != timeType && (k != reflect.Struct || len(v.O) > 0)
	}
	return true // enum value
}

func (g *gen) literal(t reflect.Type, isID, allowVar bool, lvl int, isJSON bool) Val {
	r := g.r
	if t.Kind() == reflect.Ptr && t != fileType {
		if r.p(1, 6) {
			return Val{K: "null"}
		}
		return g.literal(t.Elem(), isID, allowVar, lvl, isJSON)
	}
	if g.o.Mistype > 0 && g.pct(g.o.Mistype) {
		return g.mistyped(t, isID, isJSON)
	}
	switch {
	case t == fileType:
		name := "f" + strconv.Itoa(r.n(5))
		if r.p(1, 5) {
			name = pick(r, oddFiles)
		}
		if r.p(1, 12) {
			name = "no such file \"é\""
		}
		has := false
		for _, f := range g.q.Files {
			if f == name {
				has = true
			}
		}
		if !has && !strings.HasPrefix(name, "no") && r.p(14, 15) {
			g.q.Files = append(g.q.Files, name)
		}
		return strVal(name, r.u64()|1)
	case t == timeType:
		return strVal(genTime(r.u64()).Format("2006-01-02T15:04:05.000Z"), 0)
	}
	if names, ok := enumNames[t]; ok {
		v := Val{K: "enum", S: pick(r, names)}
		if isJSON || r.p(1, 10) {
			v.K = "str"
		}
		return v
	}
	switch t.Kind() {
	case reflect.String:
		s := g.text()
		if isJSON || g.o.SafeText {
			s = clean(s)
		}
		return strVal(s, r.u64()|1)
	case reflect.Bool:
		return Val{K: "bool", S: pick(r, []string{"true", "false"})}
	case reflect.Float32, reflect.Float64:
		s := pick(r, []string{"0", "1", "-1", "0.5", "-2.25", "1000000", "123.456", "3.0", "0.1", "-0.001", "16777216", "1e3", "-2.5E2", "25e-2", "1.5e+1", "0.0", "1E0"})
		if strings.ContainsAny(s, ".eE") {
			return Val{K: "float", S: s}
		}
		return Val{K: "int", S: s}
	case reflect.Slice:
		n := r.n(4)
		if lvl > 3 {
			n = 0
		}
		if g.o.Long && r.p(1, 10) && !isComposite(t) && !hasList(t.Elem()) && g.longs < 5 {
			n = 300
			g.longs++
		}
		v := Val{K: "list"}
		for i := 0; i < n; i++ {
			if allowVar {
				v.L = append(v.L, g.value(t.Elem(), false, true, lvl+1))
			} else {
				v.L = append(v.L, g.literal(t.Elem(), false, false, lvl+1, isJSON))
			}
		}
		return v
	case reflect.Struct:
		v := Val{K: "obj"}
		for _, d := range argDescs([]reflect.Type{t}) {
			b := base(d.t)
			p := g.o.Args
			if b.Kind() == reflect.Struct && b != timeType {
				if lvl > 2 {
					continue
				}
				p /= 1 + lvl
			}
			if !g.pct(p) {
				continue
			}
			if allowVar {
				v.O = append(v.O, Arg{d.name, g.value(d.t, d.isID, true, lvl+1)})
			} else {
				v.O = append(v.O, Arg{d.name, g.literal(d.t, d.isID, false, lvl+1, isJSON)})
			}
		}
		for i := len(v.O) - 1; i > 0; i-- {
			j := r.n(i + 1)
			v.O[i], v.O[j] = v.O[j], v.O[i]
		}
		return v
	}
	s := g.integer(t)
	if isID {
		return strVal(s, 0)
	}
	return Val{K: "int", S: s}
}
