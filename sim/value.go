package main

import (
	"math"
	"reflect"
	"strings"
	"time"
)

// Values are pure functions of (type, seed).

var words = []string{
	"", "a", "alpha", "beta gamma", "quote\"d", "back\\slash", "tab\tnew\nline\rret", "\x01\x1f\x7f", "ünïcödé", "日本語", "\u2028x\u2029",
	"</script>&amp;", "{}[]():,$@!...", "null", "true", "query", "0", "-1", "~tilde~", "\U0001F600", "very ", "\x00nul\x00", "end\\",
	"fragment x on Node", "12345678901234567890", "é", "\u00a0", "#hash", "\"\"\"", "\\u0041", "/slash/", "%s%d", "a'b`c", "long long long long long long text that does not fit in small buffers",
}

func genText(h uint64) string {
	switch h % 23 {
	case 0:
		return words[(h>>8)%uint64(len(words))] + words[(h>>16)%uint64(len(words))]
	case 1:
		return strings.Repeat(words[(h>>8)%uint64(len(words))], int(h>>20)%40)
	case 2:
		return "bad\xff\xfeutf\xc3"
	case 3, 4, 5, 6, 7, 8, 9, 10, 11, 12:
		const hex = "0123456789abcdef"
		b := make([]byte, 0, 12)
		for i := uint(0); i < 2+uint(h>>40)%10; i++ {
			b = append(b, hex[(h>>(i*4))&15])
		}
		return "t" + string(b)
	}
	return words[(h>>8)%uint64(len(words))]
}

func genInt(h uint64, bits int) int64 {
	switch h % 7 {
	case 0:
		return 0
	case 1:
		return -1 << (bits - 1)
	case 2:
		return 1<<(bits-1) - 1
	case 3:
		return -1
	}
	return int64(h>>3) << (64 - bits) >> (64 - bits)
}

func genUint(h uint64, bits int) uint64 {
	switch h % 7 {
	case 0:
		return 0
	case 1:
		return 1<<uint(bits) - 1
	}
	return h >> 3 << (64 - uint(bits)) >> (64 - uint(bits))
}

func genFloat(h uint64) float64 {
	switch h % 6 {
	case 0:
		return 0
	case 1:
		return float64(int64(h>>40) - 1<<22)
	case 2:
		return -1.5e-9
	case 3:
		return 1.25e25
	}
	return math.Ldexp(float64(int64(h>>20)-1<<42), int(h>>8)%60-50)
}

func genTime(h uint64) time.Time {
	// years 1970..2090, whole milliseconds, UTC
	ms := int64(h>>4) % (120 * 365 * 86400 * 1000)
	if h&7 == 0 {
		ms = ms / 1000 * 1000
	}
	return time.Unix(ms/1000, ms%1000*1e6).UTC()
}

const maxData = 3 // nesting of plain data

func genValue(t reflect.Type, h uint64, level int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case timeType:
		v.Set(reflect.ValueOf(genTime(h)))
		return v
	case colorType:
		v.SetString([]string{string(Red), string(Green), string(Blue), "b!", "unknown"}[(h>>9)%5])
		return v
	case levelType:
		v.SetInt([]int64{-1, 0, 1000, 7, 99}[(h>>9)%5])
		return v
	case maskType:
		v.SetUint([]uint64{0, 255, 85, 3}[(h>>9)%4])
		return v
	case twinType:
		v.SetUint([]uint64{1, 2, 1, 2, 3}[(h>>9)%5])
		return v
	case bigType:
		v.SetString("big" + hex16((h>>9)%64))
		return v
	}
	if names, ok := enumNames[t]; ok {
		if i := (h >> 9) % uint64(len(names)+1); i < uint64(len(names)) {
			v.Set(enumVals[t][names[i]])
		}
		return v // the zero value is not one of the enum's
	}
	switch t {
	case thingType:
		if i := (h >> 7) % 7; i > 0 {
			v.Set(genValue(thTypes[i%5], mix(h, i), level+1))
		}
		return v
	case soloType:
		if h>>7&3 != 0 {
			v.Set(genValue(thTypes[0], mix(h, 1), level+1))
		}
		return v
	case oddType:
		// not all that fit are registered
		if i := (h >> 7) % 7; i > 0 {
			v.Set(genValue(thTypes[[]int{0, 3, 1, 0, 3, 0}[i-1]], mix(h, i), level+1))
		}
		return v
	case shapeType:
		switch (h >> 7) % 8 {
		case 0:
			return v
		case 1:
			v.Set(genValue(ghostType, mix(h, 1), level+1))
		case 2, 3, 4:
			v.Set(genValue(circleType, mix(h, 2), level+1))
		default:
			v.Set(genValue(squareType, mix(h, 3), level+1))
		}
		return v
	case namedType:
		switch (h >> 7) % 6 {
		case 0:
			return v
		case 1:
			v.Set(genValue(mutType, mix(h, 1), level+1))
		default:
			v.Set(genValue(nodeType, mix(h, 2), level+1))
		}
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(genText(h))
	case reflect.Bool:
		v.SetBool(h>>5&1 == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(h, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUint(h, t.Bits()))
	case reflect.Float32:
		v.SetFloat(float64(float32(genFloat(h) / 1e6)))
	case reflect.Float64:
		v.SetFloat(genFloat(h))
	case reflect.Ptr:
		e := t.Elem()
		if h>>6&7 == 0 || (holdsStruct(e) && level >= maxData) {
			return v
		}
		p := reflect.New(e)
		p.Elem().Set(genValue(e, mix(h, 11), level))
		v.Set(p)
	case reflect.Slice:
		e := t.Elem()
		n := int(h>>6) % 5
		if holdsStruct(e) && level >= maxData {
			n = n % 2
			if level > maxData {
				n = 0
			}
		}
		if n == 4 {
			return v // nil
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			if i > 0 && mix(h, 30+uint64(i))%4 == 0 {
				// the same value (or object) again
				s.Index(i).Set(s.Index(int(h>>12) % i))
				continue
			}
			s.Index(i).Set(genValue(e, mix(h, 20+uint64(i)), level))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			if i > 0 && mix(h, 30+uint64(i))%4 == 0 {
				v.Index(i).Set(v.Index(i - 1))
				continue
			}
			v.Index(i).Set(genValue(t.Elem(), mix(h, 20+uint64(i)), level))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Name == "H" {
				v.Field(i).SetUint(h)
				continue
			}
			fh := mix(h, 40+uint64(i))
			if f.Type.Kind() == reflect.Func {
				if !strings.HasSuffix(f.Name, "Nil") && fh>>6&15 != 0 {
					v.Field(i).Set(makeFunc(f.Type, t.Name()+"."+f.Name, h))
				}
				continue
			}
			v.Field(i).Set(genValue(f.Type, fh, level+1))
		}
	default:
		panic("genValue: " + t.String())
	}
	return v
}

func holdsStruct(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		return t != timeType
	case reflect.Slice, reflect.Ptr, reflect.Array:
		return holdsStruct(t.Elem())
	case reflect.Interface:
		return true
	}
	return false
}

var rootCache = map[uint64][2]interface{}{}

// rootValues are the root objects of a world.
func rootValues(world uint64) (interface{}, interface{}) {
	if v, ok := rootCache[world]; ok {
		return v[0], v[1]
	}
	if len(rootCache) > 64 {
		rootCache = map[uint64][2]interface{}{}
	}
	qt, mt := rootTypes(world)
	q := genValue(qt, mix(world, 1), 0).Interface()
	m := genValue(mt, mix(world, 2), 0).Interface()
	rootCache[world] = [2]interface{}{q, m}
	return q, m
}
