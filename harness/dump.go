package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// dump writes a value field by field, following pointers, with floats bit for bit.
// Nil and empty slices or maps look the same: the library does not distinguish them.
func dump(v interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		t := v.Interface().(time.Time)
		fmt.Fprintf(b, "@%d.%d", t.Unix(), t.Nanosecond())
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue // unexported: not observable
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpValue(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i))
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var keys []string
		byKey := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := dump(k.Interface())
			keys = append(keys, s)
			byKey[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		b.WriteString("<")
		for _, k := range keys {
			b.WriteString(k + "=")
			dumpValue(b, byKey[k])
			b.WriteString(" ")
		}
		b.WriteString(">")
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// interned numbers values in the order of their first appearance.
type interned map[string]int

func (t interned) id(v interface{}) int {
	s := dump(v)
	if n, ok := t[s]; ok {
		return n
	}
	t[s] = len(t) + 1
	return t[s]
}
