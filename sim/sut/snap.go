package sut

import (
	"fmt"
	"reflect"
	"strings"
)

// Snap writes everything a decoded message shows, at any depth. What it keeps to itself may change: it is seen in what its
// methods say.
func Snap(o interface{}) string {
	var b strings.Builder
	snap(&b, reflect.ValueOf(o), 0)
	return b.String()
}

func snap(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() || depth > 12 {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		snap(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			snap(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			snap(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		fmt.Fprintf(b, "map%v", v.Len())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.Kind().String())
	}
}

// Query calls every method without arguments of a decoded message and of the values in it, and returns what they say;
// a panic is returned as p, with the method.
func Query(o interface{}) (said string, calls int, p string) {
	q := &query{}
	q.walk(reflect.ValueOf(o), "", 0)
	return q.b.String(), q.calls, q.p
}

type query struct {
	b     strings.Builder
	calls int
	p     string
}

func (q *query) walk(v reflect.Value, path string, depth int) {
	if !v.IsValid() || q.p != "" || depth > 8 {
		return
	}
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
	}
	if v.CanInterface() {
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := v.Method(i)
			if m.Type().NumIn() != 0 {
				continue
			}
			name := path + t.Name() + "." + t.Method(i).Name
			var out []reflect.Value
			q.calls++
			if p := Guard(func() { out = m.Call(nil) }); p != "" {
				q.p = name + ": " + p
				return
			}
			q.b.WriteString(name)
			for _, r := range out {
				q.b.WriteByte('=')
				if r.Type() == errType && !r.IsNil() {
					fmt.Fprintf(&q.b, "%q", r.Interface().(error).Error())
					continue
				}
				snap(&q.b, r, 0)
			}
			q.b.WriteByte('\n')
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		q.walk(v.Elem(), path+"*", depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				q.walk(v.Field(i), path+f.Name+":", depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				q.walk(v.Index(i), path, depth+1)
			}
		}
	}
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// Scribble overwrites everything in a decoded message that its receiver can write.
func Scribble(o interface{}) { scribble(reflect.ValueOf(o), 0) }

func scribble(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(v.Int() ^ 0x55)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(v.Uint() ^ 0x55)
		case reflect.Float32, reflect.Float64:
			v.SetFloat(v.Float() + 12345)
		case reflect.String:
			v.SetString("scribbled")
		}
	}
}
