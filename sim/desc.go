package main

import (
	"reflect"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
)

// The documented mapping from Go types to GraphQL, derived by reflection,
// independently of the library.

type fieldDesc struct {
	name    string // GraphQL name
	key     string // name of the callback
	index   int    // struct field or method index
	method  bool
	fn      bool // func held in a struct field
	ins     []reflect.Type
	ctxArg  bool
	out     reflect.Type
	errOut  bool
	isID    bool
	argT    []argDesc
	argName map[string]int
}

type argDesc struct {
	name  string
	in    int // which input struct (0-based, contexts not counted)
	index int
	t     reflect.Type
	isID  bool
}

type typeDesc struct {
	t      reflect.Type
	name   string
	fields []*fieldDesc
	byName map[string]*fieldDesc
}

var ctxPtrType = reflect.TypeOf(&yarql.Ctx{})
var attrIDType = reflect.TypeOf(yarql.AttrIsID(0))

var renamed = map[string]string{"Orig": "Fancy", "RootB": "TheRoot"}

func qlName(s string) string {
	if len(s) <= 1 {
		return strings.ToLower(s)
	}
	if s[1] == strings.ToUpper(s[1:2])[0] {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

func parseTag(f reflect.StructField) (name string, ignore, id bool) {
	name = qlName(f.Name)
	tag, ok := f.Tag.Lookup("gq")
	if !ok {
		return
	}
	parts := strings.Split(tag, ",")
	if parts[0] == "-" {
		ignore = true
		return
	}
	if strings.TrimSpace(parts[0]) != "" {
		name = strings.TrimSpace(parts[0])
	}
	for _, p := range parts[1:] {
		if strings.EqualFold(strings.TrimSpace(p), "id") {
			id = true
		}
	}
	return
}

var descCache = map[reflect.Type]*typeDesc{}

func argDescs(ins []reflect.Type) (res []argDesc) {
	n := 0
	for _, t := range ins {
		if t == ctxPtrType {
			continue
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Anonymous {
				// unexported fields are not settable; the library lists them, clients cannot use them
				continue
			}
			name, ignore, id := parseTag(f)
			if ignore {
				continue
			}
			res = append(res, argDesc{name: name, in: n, index: i, t: f.Type, isID: id})
		}
		n++
	}
	return
}

func (d *fieldDesc) signature(t reflect.Type, skipRecv bool) {
	for i := 0; i < t.NumIn(); i++ {
		if skipRecv && i == 0 {
			continue
		}
		d.ins = append(d.ins, t.In(i))
		if t.In(i) == ctxPtrType {
			d.ctxArg = true
		}
	}
	for i := 0; i < t.NumOut(); i++ {
		switch o := t.Out(i); {
		case o == attrIDType:
			d.isID = true
		case o == errorType:
			d.errOut = true
		default:
			d.out = o
		}
	}
	d.argT = argDescs(d.ins)
}

func typeName(t reflect.Type) string {
	if n, ok := renamed[t.Name()]; ok {
		return n
	}
	return t.Name()
}

func describe(t reflect.Type) *typeDesc {
	if d, ok := descCache[t]; ok {
		return d
	}
	d := &typeDesc{t: t, name: typeName(t), byName: map[string]*fieldDesc{}}
	descCache[t] = d
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Anonymous {
				continue
			}
			name, ignore, id := parseTag(f)
			if ignore {
				continue
			}
			fd := &fieldDesc{name: name, index: i, isID: id, out: f.Type}
			if f.Type.Kind() == reflect.Func {
				fd.out = nil
				fd.fn = true
				fd.key = t.Name() + "." + f.Name
				fd.signature(f.Type, false)
			}
			d.fields = append(d.fields, fd)
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		rest := strings.TrimPrefix(m.Name, "Resolve")
		if rest == m.Name || rest == "" || rest[0] < 'A' || rest[0] > 'Z' {
			continue
		}
		fd := &fieldDesc{name: qlName(rest), index: i, method: true, key: t.Name() + "." + qlName(rest)}
		if fd.key == "Emb.based" {
			// a method of the embedded struct
			fd.key = "Core.based"
		}
		fd.signature(m.Type, t.Kind() == reflect.Struct)
		d.fields = append(d.fields, fd)
	}
	sort.SliceStable(d.fields, func(a, b int) bool { return d.fields[a].name < d.fields[b].name })
	for _, f := range d.fields {
		if f.argName == nil {
			f.argName = map[string]int{}
		}
		for i, a := range f.argT {
			f.argName[a.name] = i
		}
		d.byName[f.name] = f
	}
	return d
}

// registered tells whether the library was told about the interface's implementation.
func registered(iface, impl reflect.Type) bool {
	switch iface {
	case thingType, soloType, oddType:
		for _, t := range implementations(iface) {
			if t == impl {
				return true
			}
		}
		return false
	case shapeType:
		return impl == circleType || impl == squareType
	case namedType:
		return impl == nodeType || impl == mutType
	}
	return false
}

var ifaceTypes = []reflect.Type{thingType, soloType, oddType, shapeType, namedType}

// implementsNamed tells whether the type is registered for the interface of that name.
func implementsNamed(t reflect.Type, name string) bool {
	for _, i := range ifaceTypes {
		if registered(i, t) && describe(i).name == name {
			return true
		}
	}
	return false
}

func implementations(iface reflect.Type) []reflect.Type {
	switch iface {
	case thingType:
		return thTypes
	case soloType:
		return thTypes[:1]
	case oddType:
		return []reflect.Type{thTypes[0], thTypes[3]}
	case shapeType:
		return []reflect.Type{circleType, squareType}
	}
	return []reflect.Type{nodeType, mutType}
}

// base strips pointers and lists.
func base(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		if t == fileType {
			return t
		}
		t = t.Elem()
	}
	return t
}

func isComposite(t reflect.Type) bool {
	b := base(t)
	return b.Kind() == reflect.Interface || (b.Kind() == reflect.Struct && b != timeType)
}

var enumNames = map[reflect.Type][]string{}
var enumVals = map[reflect.Type]map[string]reflect.Value{}

func initEnums() {
	add := func(t reflect.Type, m interface{}) {
		v := reflect.ValueOf(m)
		enumVals[t] = map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			enumNames[t] = append(enumNames[t], k.String())
			enumVals[t][k.String()] = v.MapIndex(k)
		}
		sort.Strings(enumNames[t])
	}
	add(colorType, colorMap)
	add(levelType, levelMap)
	add(maskType, maskMap)
	add(twinType, twinMap)
	add(bigType, bigMap)
	for _, m := range moreEnums {
		add(reflect.TypeOf(m).Elem(), m)
	}
}

// qlType is the GraphQL type the documentation prescribes for a Go type.
func qlType(t reflect.Type, isID bool) (s string, nonNull bool) {
	if isID && t.Kind() != reflect.Ptr {
		return "ID", true
	}
	if t == timeType {
		return "Time", true
	}
	if _, ok := enumVals[t]; ok {
		return t.Name(), true
	}
	switch t.Kind() {
	case reflect.Ptr:
		s, _ = qlType(t.Elem(), isID)
		return s, false
	case reflect.Slice, reflect.Array:
		s, nn := qlType(t.Elem(), false)
		if nn {
			s += "!"
		}
		return "[" + s + "]", false
	case reflect.Interface:
		return t.Name(), false
	case reflect.Struct:
		return typeName(t), true
	case reflect.String:
		return "String", true
	case reflect.Bool:
		return "Boolean", true
	case reflect.Float32, reflect.Float64:
		return "Float", true
	}
	return "Int", true
}

// returnType is the declared type of a field.
func (f *fieldDesc) returnType() string {
	s, nn := qlType(f.out, f.isID)
	if f.fn {
		nn = false
	}
	if nn {
		s += "!"
	}
	return s
}
