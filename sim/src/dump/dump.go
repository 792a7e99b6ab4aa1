// Package dump prints the exported structure of any value, with sharing and
// cycles made explicit, so that two values can be compared byte for byte.
package dump

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type dumper struct {
	b    strings.Builder
	seen map[ptr]int
}

type ptr struct {
	p uintptr
	t reflect.Type
}

// String dumps v.
func String(v interface{}) string {
	d := &dumper{seen: map[ptr]int{}}
	d.dump(reflect.ValueOf(v))
	return d.b.String()
}

func (d *dumper) dump(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		k := ptr{v.Pointer(), v.Type()}
		if id, ok := d.seen[k]; ok {
			d.b.WriteString("#" + strconv.Itoa(id))
			return
		}
		d.seen[k] = len(d.seen)
		d.b.WriteByte('&')
		d.dump(v.Elem())
	case reflect.Interface:
		d.dump(v.Elem())
	case reflect.Struct:
		d.b.WriteString(v.Type().Name())
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			d.b.WriteString(f.Name)
			d.b.WriteByte(':')
			d.dump(v.Field(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(']')
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := String(k.Interface())
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		d.b.WriteByte('{')
		for _, k := range ks {
			d.b.WriteString(k + ":")
			d.dump(m[k])
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Func, reflect.Chan:
		if v.IsNil() {
			d.b.WriteString("nil")
		} else {
			d.b.WriteString(v.Type().String())
		}
	default:
		d.b.WriteString(v.String())
	}
}

// Scribble overwrites everything mutable that is reachable through exported
// fields: strings, numbers, slices. It does not follow the AST links of
// formulas, which lead to somebody else's value on purpose.
func Scribble(v interface{}) { scribble(reflect.ValueOf(v), map[ptr]bool{}, 0) }

func scribble(v reflect.Value, seen map[ptr]bool, depth int) {
	if !v.IsValid() || depth > 10000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[ptr{v.Pointer(), v.Type()}] {
			return
		}
		seen[ptr{v.Pointer(), v.Type()}] = true
		scribble(v.Elem(), seen, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "AST" {
				scribble(v.Field(i), seen, depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen, depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("✗scribbled")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// ClearNodes additionally cuts slices and pointers near the top.
func ClearNodes(v interface{}) {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Ptr && !r.IsNil() && r.Elem().Kind() == reflect.Struct {
		e := r.Elem()
		for i := 0; i < e.NumField(); i++ {
			if e.Type().Field(i).PkgPath == "" && e.Field(i).CanSet() {
				f := e.Field(i)
				if f.Kind() == reflect.Slice && f.Len() > 0 {
					for j := 0; j < f.Len(); j++ {
						f.Index(j).Set(reflect.Zero(f.Type().Elem()))
					}
				}
			}
		}
	}
}
