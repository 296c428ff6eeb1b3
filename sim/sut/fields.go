package sut

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/bds/register"
	"github.com/twuillemin/modes/pkg/modes/messages"
)

// Field is a value held by a message and the texts by which it may be shown.
type Field struct {
	Path string
	Type string // the type, when it is one of the library with a text of its own
	Num  int64  // its value, when Type is not empty and it is a number
	Text string // by its own method if it has one, or else as Go prints it
	Own  bool   // it has a text of its own
	t    reflect.Type
}

// Fields lists the values held by a message.
func Fields(o interface{}) (l []Field, p string) {
	p = Guard(func() { fields(reflect.ValueOf(o), "", 0, &l) })
	return
}

// Heads are the texts by which a message names itself: its register, its format, and the version it was read at.
type Heads struct {
	HasRegister, HasFormat, HasVersion  bool
	RegisterID, Register, Name, Version string
	Format                              int
}

// HeadsOf asks a message for its names.
func HeadsOf(o interface{}) (h Heads, p string) {
	p = Guard(func() {
		if t, ok := o.(interface{ GetRegister() register.Register }); ok {
			h.HasRegister = true
			h.RegisterID, h.Register = t.GetRegister().GetId(), t.GetRegister().ToString()
		}
		if t, ok := o.(messages.ModeSMessage); ok {
			h.HasFormat, h.Name, h.Format = true, t.GetName(), int(t.GetDownLinkFormat())
		}
		if t, ok := o.(interface{ GetADSBVersion() adsb.ADSBVersion }); ok {
			h.HasVersion, h.Version = true, t.GetADSBVersion().ToString()
		}
	})
	return
}

// TextOf is the text of another value of the type of a field that has a Type.
func (f *Field) TextOf(num int64) (s string, p string) {
	p = Guard(func() {
		v := reflect.New(f.t).Elem()
		if k := v.Kind(); k >= reflect.Uint && k <= reflect.Uint64 {
			v.SetUint(uint64(num))
		} else {
			v.SetInt(num)
		}
		s, _ = textOf(v)
	})
	return
}

func fields(v reflect.Value, path string, depth int, l *[]Field) {
	if !v.IsValid() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if _, ok := textOf(v.Elem()); ok || v.Elem().Kind() == reflect.Struct || v.Elem().Kind() == reflect.Interface || v.Elem().Kind() == reflect.Ptr {
			fields(v.Elem(), path, depth+1, l)
			return
		}
		if s, ok := textOf(v); ok {
			*l = append(*l, Field{Path: path, Text: s, Own: true})
			return
		}
		fields(v.Elem(), path, depth+1, l)
		return
	}
	f := Field{Path: path}
	s, ok := textOf(v)
	if ok {
		f.Text, f.Own = s, true
		f.Type = strings.TrimPrefix(v.Type().PkgPath(), "github.com/twuillemin/modes/pkg/") + "." + v.Type().Name()
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.Num = v.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.Num = int64(v.Uint())
		default:
			f.Type = ""
		}
		f.t = v.Type()
		if path != "" {
			*l = append(*l, f)
		}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if path != "" {
				n = path + "." + n
			}
			fields(v.Field(i), n, depth+1, l)
		}
	case reflect.Bool:
		if !ok {
			f.Text = fmt.Sprint(v.Bool())
			*l = append(*l, f)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !ok {
			f.Text = fmt.Sprint(v.Int())
			*l = append(*l, f)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !ok {
			f.Text = fmt.Sprint(v.Uint())
			*l = append(*l, f)
		}
	case reflect.Float32:
		if !ok {
			f.Text = fmt.Sprint(float32(v.Float()))
			*l = append(*l, f)
		}
	case reflect.Float64:
		if !ok {
			f.Text = fmt.Sprint(v.Float())
			*l = append(*l, f)
		}
	case reflect.String:
		if !ok {
			f.Text = v.String()
			*l = append(*l, f)
		}
	}
}

func textOf(v reflect.Value) (string, bool) {
	if !v.CanInterface() {
		return "", false
	}
	if t, ok := v.Interface().(interface{ ToString() string }); ok {
		return t.ToString(), true
	}
	if v.CanAddr() {
		if t, ok := v.Addr().Interface().(interface{ ToString() string }); ok {
			return t.ToString(), true
		}
	}
	return "", false
}

// Line is a line of a report.
type Line struct{ Label, Value string }

// Lines splits a report into its lines; the label of an indented line has that of the line above it in front.
func Lines(text string) (l []Line) {
	parent := ""
	for _, s := range strings.Split(text, "\n") {
		in := strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\t")
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		label, value := s, ""
		if i := strings.Index(s, ": "); i >= 0 {
			label, value = s[:i], s[i+1:]
		} else if strings.HasSuffix(s, ":") {
			label = s[:len(s)-1]
		} else if i := strings.Index(s, "  "); i >= 0 {
			label, value = s[:i], s[i:]
		}
		label, value = strings.TrimSpace(label), strings.TrimSpace(value)
		if !in {
			parent = label
		} else {
			label = parent + "/" + label
		}
		l = append(l, Line{label, value})
	}
	return
}

// Kind is the type of a message and those of the values it holds by an interface.
func Kind(o interface{}) (s string, p string) {
	var l []string
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if !v.IsValid() || depth > 20 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			t := v.Elem().Type()
			for t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			l = append(l, t.Name())
			walk(v.Elem(), depth+1)
		case reflect.Ptr:
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		}
	}
	p = Guard(func() {
		v := reflect.ValueOf(o)
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		l = append(l, v.Type().Name())
		walk(v, 0)
	})
	return strings.Join(l, " "), p
}
