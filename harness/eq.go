package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// access makes values that were reached through unexported fields readable.
func access(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// addressable returns v, or a copy of it, such that its fields are accessible.
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return access(v)
	}
	p := reflect.New(v.Type()).Elem()
	if v.CanInterface() {
		p.Set(v)
		return p
	}
	return v
}

// diff compares strictly: nil and empty are different, floats are compared by
// their bits, times by instant and by being UTC. It returns where they differ.
func diff(a, b reflect.Value) string { return diffX(a, b, "", false) }

// diffTimes also compares the zones and encodings of times
func diffX(a, b reflect.Value, path string, zones bool) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %v and %v", path, a.Type(), b.Type())
	}
	a, b = addressable(a), addressable(b)
	at := func(f string, args ...interface{}) string {
		return fmt.Sprintf("at %q: ", path) + fmt.Sprintf(f, args...)
	}
	if a.Type() == tTime {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if x.Unix() != y.Unix() || x.Nanosecond() != y.Nanosecond() {
			return at("time %v and %v", x, y)
		}
		if zones {
			if x.Format(time.RFC3339Nano) != y.Format(time.RFC3339Nano) {
				return at("time %v and %v", x, y)
			}
		} else if (x.Location() == time.UTC) != (y.Location() == time.UTC) || (strings.Contains(x.String(), " m=") != strings.Contains(y.String(), " m=")) {
			return at("zones of time %v and %v", x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return at("%v and %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return at("%v and %v", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return at("%v and %v", a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.Float64bits(x) != math.Float64bits(y) && !(math.IsNaN(x) && math.IsNaN(y)) {
			return at("%v and %v", x, y)
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return at("%v and %v", a.Complex(), b.Complex())
		}
	case reflect.String:
		if a.String() != b.String() {
			return at("%q and %q", a.String(), b.String())
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return at("nil %v and %v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() || a.Pointer() == b.Pointer() {
			return ""
		}
		return diffX(a.Elem(), b.Elem(), path+"*", zones)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return at("nil %v and %v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return at("dynamic types %v and %v", a.Elem().Type(), b.Elem().Type())
		}
		return diffX(a.Elem(), b.Elem(), path+".("+a.Elem().Type().String()+")", zones)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return at("nil slice %v and %v", a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return at("lengths %d and %d", a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return at("%x and %x", a.Bytes(), b.Bytes())
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffX(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]", zones); d != "" {
				return d
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := diffX(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]", zones); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).Name == "_" {
				continue
			}
			if d := diffX(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, zones); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return at("nil map %v and %v", a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return at("map lengths %d and %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return at("key %v is missing", k)
			}
			if d := diffX(a.MapIndex(k), y, fmt.Sprintf("%s[%q]", path, fmt.Sprint(k)), zones); d != "" {
				return d
			}
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if a.Pointer() != b.Pointer() {
			return at("pointers differ")
		}
	}
	return ""
}

// show formats a value with what its pointers point to.
func show(v reflect.Value) string {
	var sb strings.Builder
	showTo(&sb, v, 0)
	return clip(sb.String(), 3000)
}

func showTo(sb *strings.Builder, v reflect.Value, depth int) {
	if sb.Len() > 4000 {
		return
	}
	if !v.IsValid() {
		sb.WriteString("<invalid>")
		return
	}
	v = addressable(v)
	if v.Type() == tTime && v.CanInterface() {
		fmt.Fprintf(sb, "time(%v)", v.Interface())
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		showTo(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "%v(", v.Elem().Type())
		showTo(sb, v.Elem(), depth+1)
		sb.WriteString(")")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(v.Type().Field(i).Name + ":")
			showTo(sb, v.Field(i), depth+1)
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString("x'")
			for i := 0; i < v.Len() && i < 200; i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			sb.WriteString("'")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			showTo(sb, v.Index(i), depth+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return showKey(ks[i]) < showKey(ks[j]) })
		sb.WriteString("map[")
		for i, k := range ks {
			if i > 0 {
				sb.WriteString(", ")
			}
			fmt.Fprintf(sb, "%q:", showKey(k))
			showTo(sb, v.MapIndex(k), depth+1)
		}
		sb.WriteString("]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int()) // without the methods of v
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func showKey(k reflect.Value) string {
	if k.Kind() == reflect.String {
		return k.String()
	}
	return fmt.Sprint(k)
}

// clone makes an independent copy (not using anything of amino), keeping nil
// and empty apart, and also what is in unexported fields.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	cloneTo(out, addressable(v))
	return out
}

func cloneTo(out, v reflect.Value) {
	out, v = access(out), access(v)
	if v.Type() == tTime {
		out.Set(v)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := reflect.New(v.Type().Elem())
		cloneTo(p.Elem(), v.Elem())
		out.Set(p.Convert(v.Type()))
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(clone(v.Elem()))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(s, v)
		} else {
			for i := 0; i < v.Len(); i++ {
				cloneTo(s.Index(i), v.Index(i))
			}
		}
		out.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cloneTo(out.Index(i), v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" {
				continue
			}
			cloneTo(out.Field(i), v.Field(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		out.Set(m)
	case reflect.String:
		out.SetString(string(append([]byte(nil), v.String()...)))
	default:
		out.Set(v)
	}
}

// region is memory that is reachable from a value.
type region struct {
	lo, hi uintptr
	path   string
	obj    interface{} // keeps it alive
}

// regions collects the mutable memory reachable from v: what pointers, slices
// (with their spare capacity) and maps refer to; with strs, also the contents
// of strings.
func regions(v reflect.Value, strs bool) (out []region) { return regionsX(v, strs, false) }

// regionsX: with again, memory that is reached twice is listed twice.
func regionsX(v reflect.Value, strs, again bool) (out []region) {
	seen := map[uintptr]map[reflect.Type]bool{}
	var walk func(v reflect.Value, path string)
	add := func(p unsafe.Pointer, n uintptr, path string) {
		if n > 0 && p != nil {
			out = append(out, region{uintptr(p), uintptr(p) + n, path, p})
		}
	}
	walk = func(v reflect.Value, path string) {
		v = addressable(v)
		if v.Type() == tTime {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			p := v.Pointer()
			if seen[p][v.Type()] {
				if again {
					add(v.UnsafePointer(), v.Type().Elem().Size(), path+"*")
				}
				return
			}
			if seen[p] == nil {
				seen[p] = map[reflect.Type]bool{}
			}
			seen[p][v.Type()] = true
			add(v.UnsafePointer(), v.Type().Elem().Size(), path+"*")
			walk(v.Elem(), path+"*")
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			if v.Cap() > 0 {
				add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size(), path+"[]")
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"["+strconv.Itoa(i)+"]")
			}
		case reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"["+strconv.Itoa(i)+"]")
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			add(unsafe.Pointer(v.Pointer()), 8, path+" (map)")
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k), path+fmt.Sprintf("[%q]", fmt.Sprint(k)))
			}
		case reflect.String:
			if s := v.String(); strs && len(s) > 0 {
				add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), path+" (string)")
			}
		}
	}
	walk(v, "")
	return
}

// overlap finds memory that is in both.
func overlap(a, b []region) string {
	sort.Slice(a, func(i, j int) bool { return a[i].lo < a[j].lo })
	for _, x := range b {
		for _, y := range a {
			if y.lo >= x.hi {
				break
			}
			if y.hi > x.lo {
				return fmt.Sprintf("%q and %q share memory", y.path, x.path)
			}
		}
	}
	return ""
}

// selfShared finds memory that can be reached from v in two ways.
func selfShared(v reflect.Value) string {
	rs := regionsX(v, false, true)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	hi, at := uintptr(0), ""
	for _, r := range rs {
		if r.lo < hi {
			return fmt.Sprintf("%q and %q share memory", at, r.path)
		}
		hi, at = r.hi, r.path
	}
	return ""
}

// scribble overwrites everything that can be reached from v.
func scribble(v reflect.Value) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		v = access(v)
		if v.Type() == tTime {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(77, 7)))
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type().Elem().Size() > 0 {
				seen[v.Pointer()] = true
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			w := v.Slice(0, v.Cap())
			for i := 0; i < w.Len(); i++ {
				walk(w.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name != "_" {
					walk(v.Field(i))
				}
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(^v.Int())
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if v.CanSet() {
				v.SetUint(^v.Uint() << (64 - uint(v.Type().Bits())) >> (64 - uint(v.Type().Bits())))
			}
		case reflect.Float32, reflect.Float64:
			if v.CanSet() {
				v.SetFloat(-12345.5)
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("scribbled")
			}
		}
	}
	walk(v)
}
