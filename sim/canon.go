package main

import (
	"fmt"
	"math"
	"mime/multipart"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	timeType   = reflect.TypeOf(time.Time{})
	fileType   = reflect.TypeOf(&multipart.FileHeader{})
	colorType  = reflect.TypeOf(Color(""))
	levelType  = reflect.TypeOf(Level(0))
	maskType   = reflect.TypeOf(Mask(0))
	twinType   = reflect.TypeOf(Twin(0))
	shapeType  = reflect.TypeOf((*Shape)(nil)).Elem()
	namedType  = reflect.TypeOf((*Named)(nil)).Elem()
	errorType  = reflect.TypeOf((*error)(nil)).Elem()
	circleType = reflect.TypeOf(Circle{})
	squareType = reflect.TypeOf(Square{})
	ghostType  = reflect.TypeOf(Ghost{})
	nodeType   = reflect.TypeOf(Node{})
	mutType    = reflect.TypeOf(Mut{})
)

// canon writes an argument value in a canonical textual form. Empty and nil
// lists are the same; everything else is told apart.
func canon(b *strings.Builder, v reflect.Value) {
	t := v.Type()
	switch {
	case t == timeType:
		tm := v.Interface().(time.Time)
		if tm.IsZero() {
			b.WriteString("t0")
		} else {
			b.WriteString("t" + strconv.FormatInt(tm.UnixNano(), 10))
		}
		return
	case t == fileType:
		f := v.Interface().(*multipart.FileHeader)
		if f == nil {
			b.WriteString("nofile")
		} else {
			b.WriteString("file<" + strconv.Quote(f.Filename) + ">")
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString("f" + strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteByte('&')
			canon(b, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			canon(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte('=')
			canon(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

func canonArgs(args []interface{}) string {
	if len(args) == 0 {
		return ""
	}
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			b.WriteByte('|')
		}
		canon(&b, reflect.ValueOf(a))
	}
	return b.String()
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sprint(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }
