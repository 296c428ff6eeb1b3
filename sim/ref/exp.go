// Package ref is the reference model: it encodes what a simulated aircraft says, bit by bit from the standards, and
// records what a receiver must read back. It shares no code with the decoder under test.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
)

// Kind of an expectation.
type Kind byte

// Kinds.
const (
	KInt Kind = iota
	KBool
	KStr
	KFloat
	KNil
	KNotNil
	KErr
	KType
	KBytes
	KAngle // equal to Lo modulo 360, within Hi
)

// Exp is one expected observation on a decoded message.
type Exp struct {
	Path   string
	Kind   Kind
	I      int64
	B      bool
	S      string
	Lo, Hi float64
	Raw    []byte
}

func (e Exp) want() string {
	switch e.Kind {
	case KInt:
		return fmt.Sprint(e.I)
	case KBool:
		return fmt.Sprint(e.B)
	case KStr, KType:
		return fmt.Sprintf("%q", e.S)
	case KFloat:
		if e.Lo == e.Hi {
			return fmt.Sprint(e.Lo)
		}
		return fmt.Sprintf("[%v, %v]", e.Lo, e.Hi)
	case KAngle:
		return fmt.Sprintf("%v (modulo 360)", e.Lo)
	case KNil:
		return "nothing"
	case KNotNil:
		return "a value"
	case KErr:
		return "an error"
	case KBytes:
		return fmt.Sprintf("%X", e.Raw)
	}
	return "?"
}

// Key is a comparable text of the expectation.
func (e Exp) Key() string { return e.Path + "=" + e.want() }

type seg struct {
	name string
	call bool
}

var segCache sync.Map

func segs(path string) []seg {
	if v, ok := segCache.Load(path); ok {
		return v.([]seg)
	}
	var out []seg
	if path != "" {
		for _, p := range strings.Split(path, ".") {
			if strings.HasSuffix(p, "()") {
				out = append(out, seg{p[:len(p)-2], true})
			} else {
				out = append(out, seg{p, false})
			}
		}
	}
	segCache.Store(path, out)
	return out
}

type fkey struct {
	t reflect.Type
	n string
}

var fieldCache sync.Map

func fieldOf(v reflect.Value, name string) (reflect.Value, bool) {
	k := fkey{v.Type(), name}
	if ix, ok := fieldCache.Load(k); ok {
		if ix == nil {
			return reflect.Value{}, false
		}
		return byIndex(v, ix.([]int))
	}
	f, ok := v.Type().FieldByName(name)
	if !ok {
		return reflect.Value{}, false
	}
	fieldCache.Store(k, f.Index)
	return byIndex(v, f.Index)
}

func byIndex(v reflect.Value, ix []int) (reflect.Value, bool) {
	for i, x := range ix {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v, true
}

// MissingError says that the decoded value does not have the shape the check was written for: the check gives no answer.
type MissingError struct{ Path, Type string }

func (m MissingError) Error() string {
	return fmt.Sprintf("the decoded value of type %s has no %q", m.Type, m.Path)
}

// Get walks a path from a decoded message.
func Get(obj interface{}, path string) (reflect.Value, error, error) {
	v := reflect.ValueOf(obj)
	for _, s := range segs(path) {
		if s.call {
			var m reflect.Value
			for v.IsValid() && v.Kind() == reflect.Interface && !v.IsNil() {
				v = v.Elem()
			}
			if v.IsValid() {
				m = v.MethodByName(s.name)
				if !m.IsValid() && v.CanAddr() {
					m = v.Addr().MethodByName(s.name)
				}
			}
			if !m.IsValid() {
				return v, nil, MissingError{path, typeName(v)}
			}
			if !m.CanInterface() {
				return v, nil, MissingError{path, typeName(v)}
			}
			out := m.Call(nil)
			n := len(out)
			if n > 0 && out[n-1].Type() == errType {
				var err error
				if !out[n-1].IsNil() {
					err = out[n-1].Interface().(error)
				}
				if n == 1 {
					return out[0], err, nil
				}
				if err != nil {
					return out[0], err, nil
				}
			}
			if n == 0 {
				return reflect.Value{}, nil, MissingError{path, typeName(v)}
			}
			v = out[0]
			continue
		}
		for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
			if v.IsNil() {
				return v, nil, nil
			}
			v = v.Elem()
		}
		if !v.IsValid() || v.Kind() != reflect.Struct {
			return v, nil, MissingError{path, typeName(v)}
		}
		f, ok := fieldOf(v, s.name)
		if !ok {
			return v, nil, MissingError{path, typeName(v)}
		}
		v = f
	}
	return v, nil, nil
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func typeName(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return v.Type().String()
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return v
		}
		v = v.Elem()
	}
	return v
}

func isNil(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

// TypeName is the name of the dynamic type of a decoded message.
func TypeName(obj interface{}) string {
	v := deref(reflect.ValueOf(obj))
	if !v.IsValid() || isNil(v) {
		return "nil"
	}
	return v.Type().Name()
}

// Show writes a decoded value.
func Show(v reflect.Value) string {
	v = deref(v)
	if !v.IsValid() || isNil(v) {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	}
	return fmt.Sprintf("%v", v)
}

// Check compares a decoded message with one expectation; "" means equal.
func (e *Exp) Check(obj interface{}) (string, error) {
	if e.Kind == KType {
		if n := TypeName(obj); e.Path == "" && n != e.S {
			return fmt.Sprintf("is a %s, want a %s", n, e.S), nil
		} else if e.Path == "" {
			return "", nil
		}
	}
	v, cerr, miss := Get(obj, e.Path)
	if miss != nil {
		return "", miss
	}
	if e.Kind == KErr {
		if cerr == nil {
			return fmt.Sprintf("%s gives %s, want an error", e.Path, Show(v)), nil
		}
		return "", nil
	}
	if e.Kind == KNil {
		if cerr == nil && !isNil(v) {
			return fmt.Sprintf("%s is %s, want nothing", e.Path, Show(v)), nil
		}
		return "", nil
	}
	if cerr != nil {
		return fmt.Sprintf("%s gives error %q, want %s", e.Path, cerr, e.want()), nil
	}
	if e.Kind == KType {
		if isNil(v) {
			return fmt.Sprintf("%s is nothing, want a %s", e.Path, e.S), nil
		}
		if n := deref(v).Type().Name(); n != e.S {
			return fmt.Sprintf("%s is a %s, want a %s", e.Path, n, e.S), nil
		}
		return "", nil
	}
	if isNil(v) {
		return fmt.Sprintf("%s is nothing, want %s", e.Path, e.want()), nil
	}
	if e.Kind == KNotNil {
		return "", nil
	}
	if e.Kind == KBytes {
		for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Slice {
			return "", MissingError{e.Path + " (bytes)", typeName(v)}
		}
		if !bytes.Equal(v.Bytes(), e.Raw) {
			return fmt.Sprintf("%s is %X, want %X", e.Path, v.Bytes(), e.Raw), nil
		}
		return "", nil
	}
	v = deref(v)
	bad := false
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch e.Kind {
		case KInt:
			bad = v.Int() != e.I
		case KFloat:
			f := float64(v.Int())
			bad = !(f >= e.Lo && f <= e.Hi)
		case KBool:
			bad = (v.Int() != 0) != e.B
		default:
			return "", MissingError{e.Path + " (kind)", typeName(v)}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch e.Kind {
		case KInt:
			bad = e.I < 0 || v.Uint() != uint64(e.I)
		case KFloat:
			f := float64(v.Uint())
			bad = !(f >= e.Lo && f <= e.Hi)
		case KBool:
			bad = (v.Uint() != 0) != e.B
		default:
			return "", MissingError{e.Path + " (kind)", typeName(v)}
		}
	case reflect.Bool:
		switch e.Kind {
		case KBool:
			bad = v.Bool() != e.B
		case KInt:
			bad = v.Bool() != (e.I != 0)
		default:
			return "", MissingError{e.Path + " (kind)", typeName(v)}
		}
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		switch e.Kind {
		case KFloat:
			bad = !(f >= e.Lo && f <= e.Hi) || math.IsNaN(f)
		case KInt:
			bad = f != float64(e.I)
		case KAngle:
			d := math.Mod(math.Abs(f-e.Lo), 360)
			bad = !(d <= e.Hi || d >= 360-e.Hi) || !(f >= -360 && f <= 360)
		default:
			return "", MissingError{e.Path + " (kind)", typeName(v)}
		}
	case reflect.String:
		if e.Kind != KStr {
			return "", MissingError{e.Path + " (kind)", typeName(v)}
		}
		bad = v.String() != e.S
	default:
		return "", MissingError{e.Path + " (kind)", typeName(v)}
	}
	if bad {
		return fmt.Sprintf("%s is %s, want %s", e.Path, Show(v), e.want()), nil
	}
	return "", nil
}

// CheckAll compares a decoded message with all its expectations and returns the first difference.
func CheckAll(obj interface{}, exps []Exp) (path, diff string, err error) {
	for i := range exps {
		d, e := exps[i].Check(obj)
		if e != nil {
			return "", "", e
		}
		if d != "" {
			return exps[i].Path, d, nil
		}
	}
	return "", "", nil
}
