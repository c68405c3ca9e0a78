package main

import (
	"errors"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// J is an ordered JSON tree: object members keep their order and duplicates.
type J struct {
	K    byte // o l s n b 0; in expectations also a (one of the strings), f (float), * (anything)
	Keys []string
	L    []*J
	S    string
	Alt  []string
	F    float64
	Bits int
}

type jparser struct {
	b   []byte
	i   int
	lvl int
}

var errJSON = errors.New("not well-formed JSON")

func parseJSON(b []byte) (*J, error) {
	if !utf8.Valid(b) {
		return nil, errors.New("not valid UTF-8")
	}
	p := &jparser{b: b}
	p.ws()
	j, err := p.value()
	if err != nil {
		return nil, errors.New(sprint("%v at offset %d", err, p.i))
	}
	p.ws()
	if p.i != len(b) {
		return nil, errors.New(sprint("data after the JSON document at offset %d", p.i))
	}
	return j, nil
}

func (p *jparser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\n' || p.b[p.i] == '\t' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) lit(s string) bool {
	if len(p.b)-p.i >= len(s) && string(p.b[p.i:p.i+len(s)]) == s {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jparser) value() (*J, error) {
	p.lvl++
	defer func() { p.lvl-- }()
	if p.lvl > 5000 {
		return nil, errors.New("JSON nested too deeply")
	}
	if p.i >= len(p.b) {
		return nil, errJSON
	}
	switch c := p.b[p.i]; {
	case c == '{':
		j := &J{K: 'o'}
		p.i++
		p.ws()
		if p.lit("}") {
			return j, nil
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil, errJSON
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if !p.lit(":") {
				return nil, errJSON
			}
			p.ws()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			j.Keys = append(j.Keys, k)
			j.L = append(j.L, v)
			p.ws()
			if p.lit("}") {
				return j, nil
			}
			if !p.lit(",") {
				return nil, errJSON
			}
		}
	case c == '[':
		j := &J{K: 'l'}
		p.i++
		p.ws()
		if p.lit("]") {
			return j, nil
		}
		for {
			p.ws()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			j.L = append(j.L, v)
			p.ws()
			if p.lit("]") {
				return j, nil
			}
			if !p.lit(",") {
				return nil, errJSON
			}
		}
	case c == '"':
		s, err := p.str()
		return &J{K: 's', S: s}, err
	case c == 't' && p.lit("true"):
		return &J{K: 'b', S: "true"}, nil
	case c == 'f' && p.lit("false"):
		return &J{K: 'b', S: "false"}, nil
	case c == 'n' && p.lit("null"):
		return &J{K: '0'}, nil
	default:
		return p.num()
	}
}

func (p *jparser) num() (*J, error) {
	st := p.i
	digits := func() int {
		n := 0
		for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
			p.i++
			n++
		}
		return n
	}
	p.lit("-")
	if p.lit("0") {
	} else if digits() == 0 {
		return nil, errJSON
	}
	if p.lit(".") && digits() == 0 {
		return nil, errJSON
	}
	if p.lit("e") || p.lit("E") {
		if !p.lit("+") {
			p.lit("-")
		}
		if digits() == 0 {
			return nil, errJSON
		}
	}
	return &J{K: 'n', S: string(p.b[st:p.i])}, nil
}

func (p *jparser) str() (string, error) {
	p.i++
	var b strings.Builder
	for {
		if p.i >= len(p.b) {
			return "", errJSON
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return b.String(), nil
		case c < 0x20:
			return "", errJSON
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", errJSON
			}
			c = p.b[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				b.WriteByte(c)
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u':
				r, err := p.hex4()
				if err != nil {
					return "", err
				}
				if r >= 0xd800 && r < 0xdc00 && p.lit(`\u`) {
					r2, err := p.hex4()
					if err != nil {
						return "", err
					}
					if r2 >= 0xdc00 && r2 < 0xe000 {
						r = (r-0xd800)<<10 + (r2 - 0xdc00) + 0x10000
					} else {
						b.WriteRune(utf8.RuneError)
						r = r2
					}
				}
				b.WriteRune(r)
			default:
				return "", errJSON
			}
		default:
			b.WriteByte(c)
			p.i++
		}
	}
}

func (p *jparser) hex4() (rune, error) {
	if p.i+4 > len(p.b) {
		return 0, errJSON
	}
	v, err := strconv.ParseUint(string(p.b[p.i:p.i+4]), 16, 32)
	if err != nil {
		return 0, errJSON
	}
	p.i += 4
	return rune(v), nil
}

func (j *J) get(key string) *J {
	if j == nil || j.K != 'o' {
		return nil
	}
	for i, k := range j.Keys {
		if k == key {
			return j.L[i]
		}
	}
	return nil
}

func (j *J) count(key string) int {
	n := 0
	for _, k := range j.Keys {
		if k == key {
			n++
		}
	}
	return n
}

func (j *J) write(b *strings.Builder) {
	switch j.K {
	case 'o':
		b.WriteByte('{')
		for i, k := range j.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			j.L[i].write(b)
		}
		b.WriteByte('}')
	case 'l':
		b.WriteByte('[')
		for i, v := range j.L {
			if i > 0 {
				b.WriteByte(',')
			}
			v.write(b)
		}
		b.WriteByte(']')
	case 's':
		b.WriteString(strconv.Quote(j.S))
	case '0':
		b.WriteString("null")
	case 'a':
		b.WriteString("(" + strings.Join(j.Alt, "|") + ")")
	case 'f':
		b.WriteString(strconv.FormatFloat(j.F, 'g', -1, j.Bits))
	case '*':
		b.WriteByte('*')
	default:
		b.WriteString(j.S)
	}
}

func (j *J) String() string {
	if j == nil {
		return "<none>"
	}
	var b strings.Builder
	j.write(&b)
	return b.String()
}

// clean is what a text looks like after a trip through JSON.
func clean(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(c)
		i += n
	}
	return b.String()
}

// diff compares an actual tree with an expected one.
func diff(path string, got, want *J) string {
	if want.K == '*' {
		return ""
	}
	if got == nil {
		return path + ": missing"
	}
	bad := func() string {
		g, w := got.String(), want.String()
		if len(g) > 200 {
			g = g[:200] + "…"
		}
		if len(w) > 200 {
			w = w[:200] + "…"
		}
		return sprint("%s: got %s, expected %s", path, g, w)
	}
	switch want.K {
	case 'a':
		if got.K == 's' {
			for _, a := range want.Alt {
				if a == got.S {
					return ""
				}
			}
		}
		return bad()
	case 'f':
		if got.K == 'n' {
			f, err := strconv.ParseFloat(got.S, want.Bits)
			if err == nil && (f == want.F || math.Float64bits(f) == math.Float64bits(want.F)) {
				return ""
			}
		}
		return bad()
	}
	if got.K != want.K {
		return bad()
	}
	switch want.K {
	case 'o':
		for i := 0; i < len(want.Keys) || i < len(got.Keys); i++ {
			if i >= len(want.Keys) {
				return sprint("%s: unexpected member %q", path, got.Keys[i])
			}
			if i >= len(got.Keys) {
				return sprint("%s: member %q is missing", path, want.Keys[i])
			}
			if got.Keys[i] != want.Keys[i] {
				return sprint("%s: member %d is %q, expected %q", path, i, got.Keys[i], want.Keys[i])
			}
			if d := diff(path+"."+want.Keys[i], got.L[i], want.L[i]); d != "" {
				return d
			}
		}
	case 'l':
		if len(got.L) != len(want.L) {
			return sprint("%s: list of %d, expected %d", path, len(got.L), len(want.L))
		}
		for i := range want.L {
			if d := diff(sprint("%s[%d]", path, i), got.L[i], want.L[i]); d != "" {
				return d
			}
		}
	default:
		if got.S != want.S {
			return bad()
		}
	}
	return ""
}
