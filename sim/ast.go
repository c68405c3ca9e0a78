package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// The simulator's own representation of GraphQL documents and values.

type Doc struct {
	Ops   []*Op   `json:"ops"`
	Frags []*Frag `json:"frags,omitempty"`
	Order []int   `json:"order,omitempty"` // order of definitions: index, operations first; empty = as listed
}

type Op struct {
	Kind string   `json:"kind"` // "" (shorthand), query, mutation
	Name string   `json:"name,omitempty"`
	Vars []VarDef `json:"vars,omitempty"`
	Sel  []*Sel   `json:"sel"`
}

type Frag struct {
	Name string `json:"name"`
	On   string `json:"on"`
	Sel  []*Sel `json:"sel"`
}

type VarDef struct {
	Name    string `json:"name"`
	Type    string `json:"type"`
	Default *Val   `json:"default,omitempty"`
}

type Sel struct {
	Kind  int    `json:"k,omitempty"` // 0 field, 1 spread, 2 inline fragment
	Alias string `json:"alias,omitempty"`
	Name  string `json:"name"` // field, fragment or type name
	Args  []Arg  `json:"args,omitempty"`
	Dirs  []Dir  `json:"dirs,omitempty"`
	Sel   []*Sel `json:"sel,omitempty"`
}

type Arg struct {
	Name string `json:"n"`
	Val  Val    `json:"v"`
}

type Dir struct {
	Name string `json:"name"`
	Args []Arg  `json:"args,omitempty"`
}

// Val is a value literal.
type Val struct {
	K  string `json:"k"` // int, float, str, block, bool, null, enum, list, obj, var, raw
	S  string `json:"s,omitempty"`
	B  []byte `json:"b,omitempty"` // content of str when it is not valid UTF-8
	L  []Val  `json:"l,omitempty"`
	O  []Arg  `json:"o,omitempty"`
	St uint64 `json:"st,omitempty"`
}

func strVal(s string, st uint64) Val {
	if utf8.ValidString(s) {
		return Val{K: "str", S: s, St: st}
	}
	return Val{K: "str", B: []byte(s), St: st}
}

func (v *Val) str() string {
	if v.B != nil {
		return string(v.B)
	}
	return v.S
}

// printer writes a document; style decides the insignificant characters.
type printer struct {
	b     strings.Builder
	style *Rand
	mode  int
}

func (p *printer) sp() { // optional space
	switch p.mode {
	case 0:
		return
	case 1:
		p.b.WriteByte(' ')
	default:
		switch p.style.n(9) {
		case 0, 1, 2:
			p.b.WriteByte(' ')
		case 3:
			p.b.WriteByte('\n')
		case 4:
			p.b.WriteByte('\t')
		case 5:
			p.b.WriteString("\r\n")
		case 6:
			if p.mode == 3 {
				p.b.WriteString("# " + strings.Repeat("c", p.style.n(9)) + " {}\"\n")
			}
		}
	}
}

func (p *printer) must() { // required separator
	switch p.mode {
	case 0, 1:
		p.b.WriteByte(' ')
	default:
		p.b.WriteByte(" \n\t "[p.style.n(4)])
		p.sp()
	}
}

func (p *printer) comma() { // between arguments and list items
	switch p.mode {
	case 0:
		p.b.WriteByte(',')
	case 1:
		p.b.WriteString(", ")
	default:
		if p.style.p(1, 3) {
			p.must()
		} else {
			p.sp()
			p.b.WriteByte(',')
			p.sp()
		}
	}
}

func (p *printer) w(s string) { p.b.WriteString(s) }

func (p *printer) val(v *Val) {
	switch v.K {
	case "int", "float", "enum", "raw":
		p.w(v.S)
	case "bool":
		p.w(v.S)
	case "null":
		p.w("null")
	case "var":
		p.w("$" + v.S)
	case "str":
		if s := v.str(); v.St%7 == 3 && blockable(s) {
			p.block(s, v.St)
		} else {
			p.str(s, v.St)
		}
	case "list":
		p.w("[")
		p.sp()
		for i := range v.L {
			if i > 0 {
				p.comma()
			}
			p.val(&v.L[i])
		}
		p.sp()
		p.w("]")
	case "obj":
		p.w("{")
		p.sp()
		p.args(v.O)
		p.sp()
		p.w("}")
	default:
		harnessFail("print value kind %q", v.K)
	}
}

func (p *printer) args(args []Arg) {
	for i := range args {
		if i > 0 {
			p.comma()
		}
		p.w(args[i].Name)
		p.sp()
		p.w(":")
		p.sp()
		p.val(&args[i].Val)
	}
}

// blockable tells whether a block string without indentation can carry s: its
// lines are taken as they are, and there is nothing to trim or to escape.
func blockable(s string) bool {
	if s == "" || strings.Contains(s, `""`) || !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if c == '\\' || c == '\r' || c == '\t' || c < ' ' && c != '\n' {
			return false
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if l == "" || l[0] == ' ' || l[len(l)-1] == ' ' {
			return false
		}
	}
	return s[0] != '"' && s[len(s)-1] != '"'
}

// block writes a block string; white space around its text does not count.
func (p *printer) block(s string, st uint64) {
	p.w(`"""`)
	r := newRand(st)
	p.w(pick(r, []string{"", "", "\n", "\r\n", "\n\n"}))
	p.w(s)
	p.w(pick(r, []string{"", "", "\n", "\r\n", "\n\n"}))
	p.w(`"""`)
}

func (p *printer) str(s string, st uint64) {
	r := newRand(st)
	p.w(`"`)
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			p.b.WriteByte(s[i])
		case c == '"' || c == '\\':
			p.b.WriteByte('\\')
			p.b.WriteByte(byte(c))
		case c == '\n':
			p.w(`\n`)
		case c == '\r':
			p.w(`\r`)
		case c == '\t' && r.p(1, 2):
			p.w(`\t`)
		case c == 0:
			p.w("\\u0000")
		case c == '/' && r.p(1, 2):
			p.w(`\/`)
		case c == '\b' && r.p(1, 2):
			p.w(`\b`)
		case c == '\f' && r.p(1, 2):
			p.w(`\f`)
		case c < 0x10000 && (c < 0xd800 || c > 0xdfff) && r.p(1, 12):
			h := strconv.FormatInt(int64(c), 16)
			p.w(`\u` + strings.Repeat("0", 4-len(h)) + h)
		default:
			p.w(s[i : i+n])
		}
		i += n
	}
	p.w(`"`)
}

func (p *printer) dirs(ds []Dir) {
	for _, d := range ds {
		p.sp()
		p.w("@" + d.Name)
		if len(d.Args) > 0 {
			p.sp()
			p.w("(")
			p.sp()
			p.args(d.Args)
			p.sp()
			p.w(")")
		}
	}
}

func (p *printer) sels(sels []*Sel) {
	p.w("{")
	p.sp()
	for i, s := range sels {
		if i > 0 {
			p.comma()
		}
		switch s.Kind {
		case 0:
			if s.Alias != "" {
				p.w(s.Alias)
				p.sp()
				p.w(":")
				p.sp()
			}
			p.w(s.Name)
			if len(s.Dirs) > 0 {
				p.must()
			}
			p.dirs(s.Dirs)
			if len(s.Args) > 0 && len(s.Dirs) > 0 && len(s.Dirs[len(s.Dirs)-1].Args) == 0 {
				p.w("()")
			}
			if len(s.Args) > 0 {
				p.sp()
				p.w("(")
				p.sp()
				p.args(s.Args)
				p.sp()
				p.w(")")
			}
		case 1:
			p.w("...")
			p.sp()
			p.w(s.Name)
			p.dirs(s.Dirs)
		case 2:
			p.w("...")
			p.sp()
			p.w("on")
			p.must()
			p.w(s.Name)
			p.dirs(s.Dirs)
		}
		if s.Kind != 1 && s.Sel != nil {
			p.sp()
			p.sels(s.Sel)
		}
	}
	p.sp()
	p.w("}")
}

func (d *Doc) print(style uint64) string {
	p := &printer{style: newRand(style), mode: int(style % 4)}
	n := len(d.Ops) + len(d.Frags)
	order := d.Order
	if len(order) != n {
		order = make([]int, n)
		for i := range order {
			order[i] = i
		}
	}
	for k, i := range order {
		if k > 0 {
			p.must()
		} else if p.mode >= 2 {
			p.sp()
		}
		if i < len(d.Ops) {
			o := d.Ops[i]
			if o.Kind != "" {
				p.w(o.Kind)
				p.must()
				p.w(o.Name)
				if len(o.Vars) > 0 {
					p.sp()
					p.w("(")
					p.sp()
					for j, v := range o.Vars {
						if j > 0 {
							p.comma()
						}
						p.w("$" + v.Name)
						p.sp()
						p.w(":")
						p.sp()
						p.w(v.Type)
						if v.Default != nil {
							p.sp()
							p.w("=")
							p.sp()
							p.val(v.Default)
						}
					}
					p.sp()
					p.w(")")
				}
				p.sp()
			}
			p.sels(o.Sel)
		} else {
			f := d.Frags[i-len(d.Ops)]
			p.w("fragment")
			p.must()
			p.w(f.Name)
			p.must()
			p.w("on")
			p.must()
			p.w(f.On)
			p.sp()
			p.sels(f.Sel)
		}
	}
	if p.mode >= 1 {
		p.sp()
	}
	return p.b.String()
}

// json writes a value as JSON (for variables).
func (v *Val) json(b *strings.Builder) { v.jsonIn(b, nil) }

// jsonIn writes a value with white space and escaped names where r says so.
func (v *Val) jsonIn(b *strings.Builder, r *Rand) {
	sp := func() {
		if r != nil && r.p(1, 6) {
			b.WriteString(pick(r, []string{" ", "\n", "\t ", "\r\n", "  "}))
		}
	}
	switch v.K {
	case "int", "float", "bool", "raw":
		b.WriteString(v.S)
	case "null":
		b.WriteString("null")
	case "str", "enum":
		jsonString(b, v.str(), v.St)
	case "list":
		b.WriteByte('[')
		sp()
		for i := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			v.L[i].jsonIn(b, r)
			sp()
		}
		b.WriteByte(']')
	case "obj":
		b.WriteByte('{')
		sp()
		for i := range v.O {
			if i > 0 {
				b.WriteByte(',')
			}
			st := uint64(0)
			if r != nil && r.p(1, 2) {
				st = r.u64() | 1
			}
			jsonString(b, v.O[i].Name, st)
			sp()
			b.WriteByte(':')
			sp()
			v.O[i].Val.jsonIn(b, r)
			sp()
		}
		b.WriteByte('}')
	default:
		harnessFail("json of %q", v.K)
	}
}

func jsonString(b *strings.Builder, s string, st uint64) {
	r := newRand(st)
	b.WriteByte('"')
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			b.WriteByte(s[i])
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(c))
		case c < 0x20:
			b.WriteString(sprint("\\u%04x", c))
		case c >= 0x10000 && st != 0 && r.p(1, 2):
			x := c - 0x10000
			b.WriteString(sprint("\\u%04x\\u%04x", 0xd800+(x>>10), 0xdc00+(x&0x3ff)))
		case c < 0x10000 && (c < 0xd800 || c > 0xdfff) && st != 0 && r.p(1, 12):
			b.WriteString(sprint("\\u%04X", c))
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	b.WriteByte('"')
}
