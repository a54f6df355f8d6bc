package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// dump writes out a value with everything it refers to, through unexported
// fields and pointers, with maps in order.
func dump(v interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dumpValue(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			dumpValue(&e, it.Key(), depth+1)
			e.WriteString(":")
			dumpValue(&e, it.Value(), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprintf(b, "map%v", es)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	default:
		switch {
		case v.Kind() == reflect.String:
			fmt.Fprintf(b, "%q", v.String())
		case v.Kind() == reflect.Bool:
			fmt.Fprint(b, v.Bool())
		case v.CanInt():
			fmt.Fprint(b, v.Int())
		case v.CanUint():
			fmt.Fprint(b, v.Uint())
		case v.CanFloat():
			fmt.Fprint(b, v.Float())
		}
	}
}
