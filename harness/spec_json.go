package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The reference model of Amino JSON: values to trees and back.

type jkind int

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jnode struct {
	kind jkind
	b    bool
	s    string // of strings and number literals
	arr  []*jnode
	keys []string
	raw  []byte // as it was, for types with JSON methods
}

func jstr(s string) *jnode { return &jnode{kind: jStr, s: s} }
func jnum(s string) *jnode { return &jnode{kind: jNum, s: s} }

var jnull = &jnode{kind: jNull}

func (n *jnode) set(k string, v *jnode) {
	n.keys = append(n.keys, k)
	n.arr = append(n.arr, v)
}

func (n *jnode) get(k string) *jnode { // the last one
	for i := len(n.keys) - 1; i >= 0; i-- {
		if n.keys[i] == k {
			return n.arr[i]
		}
	}
	return nil
}

func (n *jnode) write(b *bytes.Buffer) {
	if n.raw != nil {
		b.Write(n.raw)
		return
	}
	switch n.kind {
	case jNull:
		b.WriteString("null")
	case jBool:
		b.WriteString(strconv.FormatBool(n.b))
	case jNum:
		b.WriteString(n.s)
	case jStr:
		s, _ := json.Marshal(n.s)
		b.Write(s)
	case jArr:
		b.WriteByte('[')
		for i, e := range n.arr {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b)
		}
		b.WriteByte(']')
	case jObj:
		b.WriteByte('{')
		for i, e := range n.arr {
			if i > 0 {
				b.WriteByte(',')
			}
			s, _ := json.Marshal(n.keys[i])
			b.Write(s)
			b.WriteByte(':')
			e.write(b)
		}
		b.WriteByte('}')
	}
}

func (n *jnode) bytes() []byte {
	var b bytes.Buffer
	n.write(&b)
	return b.Bytes()
}

// jparse parses exactly one JSON text.
func jparse(bz []byte) (*jnode, error) {
	if !json.Valid(bz) {
		return nil, errors.New("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(bz))
	d.UseNumber()
	n, err := jparseNext(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return n, nil
}

func jparseNext(d *json.Decoder) (*jnode, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case nil:
		return jnull, nil
	case bool:
		return &jnode{kind: jBool, b: x}, nil
	case json.Number:
		return jnum(string(x)), nil
	case string:
		return jstr(x), nil
	case json.Delim:
		n := &jnode{kind: jArr}
		if x == '{' {
			n.kind = jObj
		}
		for d.More() {
			if n.kind == jObj {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
			}
			e, err := jparseNext(d)
			if err != nil {
				return nil, err
			}
			n.arr = append(n.arr, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, errors.New("token")
}

// jdiff: the same text but for white space and escapes.
func jdiff(a, b *jnode, path string) string {
	if a.kind != b.kind {
		return fmt.Sprintf("at %q: %s and %s", path, a.bytes(), b.bytes())
	}
	if a.b != b.b || a.s != b.s {
		return fmt.Sprintf("at %q: %s and %s", path, a.bytes(), b.bytes())
	}
	if len(a.arr) != len(b.arr) {
		return fmt.Sprintf("at %q: %d and %d entries: %s and %s", path, len(a.arr), len(b.arr), clip(string(a.bytes()), 500), clip(string(b.bytes()), 500))
	}
	for i := range a.arr {
		p := path + "/" + strconv.Itoa(i)
		if a.kind == jObj {
			if a.keys[i] != b.keys[i] {
				return fmt.Sprintf("at %q: names %q and %q", path, a.keys[i], b.keys[i])
			}
			p = path + "/" + a.keys[i]
		}
		if d := jdiff(a.arr[i], b.arr[i], p); d != "" {
			return d
		}
	}
	return ""
}

var tJSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()

func isJSONMarshaler(t reflect.Type) bool {
	return t != tTime && t.Kind() != reflect.Interface && t.Kind() != reflect.Ptr && reflect.PtrTo(t).Implements(tJSONMarshaler)
}

// jtop is what MarshalJSON has to return.
func (s *spec) jtop(v reflect.Value) (*jnode, error) {
	ri := s.u.byType[deref(v.Type())]
	n, err := s.jenc(v, fopt{})
	if err != nil || ri == nil {
		return n, err
	}
	return wrapper(ri.name, n), nil
}

func wrapper(name string, n *jnode) *jnode {
	w := &jnode{kind: jObj}
	w.set("type", jstr(name))
	w.set("value", n)
	return w
}

func (s *spec) jenc(v reflect.Value, o fopt) (*jnode, error) {
	v, ok := derefV(v)
	if !ok {
		return jnull, nil
	}
	t := v.Type()
	if t == tTime {
		tm := v.Interface().(time.Time).UTC()
		if y := tm.Year(); y < 0 || y > 9999 {
			return nil, serr("time")
		}
		return jstr(tm.Format("2006-01-02T15:04:05.999999999Z")), nil
	}
	if isJSONMarshaler(t) {
		p := reflect.New(t)
		p.Elem().Set(v)
		bz, err := p.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return nil, err
		}
		return jparse(bz)
	}
	if isMarshaler(t) {
		r, err := repr(v)
		if err != nil {
			return nil, err
		}
		return s.jenc(r, o)
	}
	switch t.Kind() {
	case reflect.Bool:
		return &jnode{kind: jBool, b: v.Bool()}, nil
	case reflect.Int, reflect.Int64:
		return jstr(strconv.FormatInt(v.Int(), 10)), nil
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return jnum(strconv.FormatInt(v.Int(), 10)), nil
	case reflect.Uint, reflect.Uint64:
		return jstr(strconv.FormatUint(v.Uint(), 10)), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return jnum(strconv.FormatUint(v.Uint(), 10)), nil
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return nil, serr("float")
		}
		bz, err := json.Marshal(v.Interface())
		if err != nil {
			return nil, err
		}
		return jnum(string(bz)), nil
	case reflect.String:
		return jstr(v.String()), nil
	case reflect.Interface:
		if v.IsNil() {
			return jnull, nil
		}
		if s.u.ifaces[t] == nil {
			return nil, serr("interface not registered")
		}
		c, ok := derefV(v.Elem())
		if !ok {
			return nil, serr("nil pointer in interface")
		}
		ri := s.u.byType[c.Type()]
		if ri == nil {
			return nil, serr("not registered")
		}
		n, err := s.jenc(c, o)
		if err != nil {
			return nil, err
		}
		return wrapper(ri.name, n), nil
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return jnull, nil
		}
		if isByteList(t) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return jstr(base64.StdEncoding.EncodeToString(b)), nil
		}
		n := &jnode{kind: jArr}
		for i := 0; i < v.Len(); i++ {
			e, err := s.jenc(v.Index(i), o)
			if err != nil {
				return nil, err
			}
			n.arr = append(n.arr, e)
		}
		return n, nil
	case reflect.Struct:
		n := &jnode{kind: jObj}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !encoded(f) {
				continue
			}
			fo := parseTag(f)
			if fo.omitempty && !s.whole && jomit(v.Field(i)) {
				continue
			}
			e, err := s.jenc(v.Field(i), fo)
			if err != nil {
				return nil, err
			}
			n.set(fo.name, e)
		}
		return n, nil
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			return nil, serr("map key")
		}
		n := &jnode{kind: jObj}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			e, err := s.jenc(v.MapIndex(k), o)
			if err != nil {
				return nil, err
			}
			n.set(k.String(), e)
		}
		return n, nil
	}
	return nil, serr("no JSON encoding for %v", t)
}

// jomit: zero values, and empty lists and strings, also behind pointers.
func jomit(v reflect.Value) bool {
	if v.IsZero() {
		return true
	}
	d, ok := derefV(v)
	if !ok {
		return true
	}
	switch d.Kind() {
	case reflect.Slice, reflect.Array, reflect.String:
		return d.Len() == 0
	}
	return false
}

// jnormTop is what a round trip through JSON yields.
func (s *spec) jnormTop(v reflect.Value) (reflect.Value, error) { return s.jnorm(v, fopt{}) }

func (s *spec) jnorm(v reflect.Value, o fopt) (reflect.Value, error) {
	t := v.Type()
	out := reflect.New(t).Elem()
	if t.Kind() == reflect.Ptr {
		n, err := s.jenc(v, o)
		if err != nil {
			return v, err
		}
		if n.kind == jNull {
			return out, nil
		}
		d, _ := derefV(v)
		nd, err := s.jnorm(d, o)
		if err != nil {
			return v, err
		}
		return rebuild(t, nd), nil
	}
	if t == tTime {
		tm := v.Interface().(time.Time)
		out.Set(reflect.ValueOf(time.Unix(tm.Unix(), int64(tm.Nanosecond())).UTC()))
		return out, nil
	}
	if isJSONMarshaler(t) {
		if t == typeOf[ReJ]() { // its methods encode reJIn
			r, err := s.jnorm(v.Convert(typeOf[reJIn]()), o)
			if err == nil {
				out.Set(r.Convert(t))
			}
			return out, err
		}
		out.Set(v)
		return out, nil
	}
	if isMarshaler(t) {
		r, err := repr(v)
		if err != nil {
			return v, err
		}
		nr, err := s.jnorm(r, o)
		if err != nil {
			return v, err
		}
		e := out.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{nr})
		if !e[0].IsNil() {
			return v, e[0].Interface().(error)
		}
		return out, nil
	}
	switch t.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return out, nil
		}
		c, ok := derefV(v.Elem())
		if !ok {
			return v, serr("nil")
		}
		ri := s.u.byType[c.Type()]
		if ri == nil {
			return v, serr("not registered")
		}
		n, err := s.jnorm(c, o)
		if err != nil {
			return v, err
		}
		if ri.ptr || !ri.rt.Implements(t) {
			n = rebuild(reflect.PtrTo(ri.rt), n)
		}
		out.Set(n)
		return out, nil
	case reflect.Slice:
		if v.Len() == 0 {
			return out, nil
		}
		out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		fallthrough
	case reflect.Array:
		if isByteList(t) {
			reflect.Copy(out, v)
			return out, nil
		}
		for i := 0; i < v.Len(); i++ {
			n, err := s.jnorm(v.Index(i), o)
			if err != nil {
				return v, err
			}
			out.Index(i).Set(n)
		}
		return out, nil
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !encoded(f) {
				continue
			}
			fo := parseTag(f)
			if fo.omitempty && jomit(v.Field(i)) {
				continue
			}
			n, err := s.jnorm(v.Field(i), fo)
			if err != nil {
				return v, err
			}
			out.Field(i).Set(n)
		}
		return out, nil
	case reflect.Map:
		out.Set(reflect.MakeMap(t))
		for _, k := range v.MapKeys() {
			n, err := s.jnorm(v.MapIndex(k), o)
			if err != nil {
				return v, err
			}
			out.SetMapIndex(k, n)
		}
		return out, nil
	}
	out.Set(v)
	return out, nil
}

//----------------------------------------
// the reference decoder

// errLenient: the documentation does not say.
var errLenient = errors.New("not specified")

var reInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var reTime = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z$`)

func (s *spec) jdecTop(bz []byte, t reflect.Type) (reflect.Value, error) {
	n, err := jparse(bz)
	if err != nil {
		return reflect.Value{}, err
	}
	if len(bytes.TrimSpace(bz)) != len(bz) {
		return reflect.Value{}, errLenient
	}
	if ri := s.u.byType[deref(t)]; ri != nil {
		name, val, err := unwrapJSON(n)
		if err != nil {
			return reflect.Value{}, err
		}
		if name != ri.name {
			return reflect.Value{}, bad("another type")
		}
		n = val
	}
	return s.jdec(n, t, fopt{})
}

func unwrapJSON(n *jnode) (string, *jnode, error) {
	if n.kind != jObj {
		return "", nil, bad("no wrapper")
	}
	for i, k := range n.keys {
		if k != "type" && k != "value" && (regexp.MustCompile("(?i)^(type|value)$").MatchString(k)) {
			return "", nil, errLenient
		}
		for _, l := range n.keys[:i] {
			if l == k && (k == "type" || k == "value") {
				return "", nil, errLenient
			}
		}
	}
	ty, val := n.get("type"), n.get("value")
	if ty == nil || ty.kind != jStr || ty.s == "" || val == nil {
		return "", nil, bad("incomplete wrapper")
	}
	return ty.s, val, nil
}

func (s *spec) jdec(n *jnode, t reflect.Type, o fopt) (v reflect.Value, err error) {
	v = reflect.New(t).Elem()
	if t.Kind() == reflect.Interface && s.u.ifaces[t] == nil {
		return v, bad("interface not registered")
	}
	if n.kind == jNull {
		return v, nil
	}
	if t.Kind() == reflect.Ptr {
		e, err := s.jdec(n, deref(t), o)
		if err != nil {
			return v, err
		}
		return rebuild(t, e), nil
	}
	if t == tTime {
		if n.kind != jStr {
			return v, bad("time")
		}
		if !reTime.MatchString(n.s) {
			if _, err := time.Parse(time.RFC3339Nano, n.s); err == nil && strings.HasSuffix(n.s, "Z") {
				return v, errLenient // a comma and such: package time takes these
			}
			return v, bad("time")
		}
		tm, err := time.Parse(time.RFC3339Nano, n.s)
		if err != nil {
			return v, err
		}
		v.Set(reflect.ValueOf(tm.UTC()))
		return v, nil
	}
	if isJSONMarshaler(t) {
		return v, v.Addr().Interface().(json.Unmarshaler).UnmarshalJSON(n.bytes())
	}
	if isMarshaler(t) {
		return s.viaRepr(t, func(rt reflect.Type) (reflect.Value, error) { return s.jdec(n, rt, o) })
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.kind != jBool {
			return v, bad("bool")
		}
		v.SetBool(n.b)
	case reflect.String:
		if n.kind != jStr {
			return v, bad("string")
		}
		v.SetString(n.s)
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		if n.kind != jStr {
			return v, bad("not quoted")
		}
		if !reInt.MatchString(n.s) && reInt.MatchString(string(bytes.TrimSpace([]byte(n.s)))) {
			return v, errLenient
		}
		return v, setInt(v, n.s)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		if n.kind != jNum {
			return v, bad("number")
		}
		return v, setInt(v, n.s)
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return v, bad("float")
		}
		if n.kind != jNum {
			return v, bad("number")
		}
		f, err := strconv.ParseFloat(n.s, t.Bits())
		if err != nil || math.IsInf(f, 0) {
			return v, bad("range")
		}
		v.SetFloat(f)
	case reflect.Interface:
		name, val, err := unwrapJSON(n)
		if err != nil {
			return v, err
		}
		ri := s.u.byName[name]
		if ri == nil || !implements(ri.rt, t) {
			return v, bad("type %q", name)
		}
		c, err := s.jdec(val, ri.rt, o)
		if err != nil {
			return v, err
		}
		if ri.ptr || !ri.rt.Implements(t) {
			c = rebuild(reflect.PtrTo(ri.rt), c)
		}
		v.Set(c)
	case reflect.Slice, reflect.Array:
		if isByteList(t) {
			if n.kind == jArr {
				return v, errLenient
			}
			if n.kind != jStr {
				return v, bad("bytes")
			}
			b, err := base64.StdEncoding.DecodeString(n.s)
			if err != nil {
				return v, err
			}
			if t.Kind() == reflect.Array {
				if len(b) != t.Len() {
					return v, bad("array length")
				}
			} else if len(b) > 0 {
				v.Set(reflect.MakeSlice(t, len(b), len(b)))
			}
			for i := range b {
				v.Index(i).SetUint(uint64(b[i]))
			}
			return v, nil
		}
		if n.kind != jArr {
			return v, bad("array")
		}
		if t.Kind() == reflect.Array {
			if len(n.arr) != t.Len() {
				return v, bad("array length")
			}
		} else if len(n.arr) > 0 {
			v.Set(reflect.MakeSlice(t, len(n.arr), len(n.arr)))
		}
		for i, e := range n.arr {
			x, err := s.jdec(e, t.Elem(), o)
			if err != nil {
				return v, err
			}
			v.Index(i).Set(x)
		}
	case reflect.Struct:
		if n.kind != jObj {
			return v, bad("object")
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !encoded(f) {
				continue
			}
			fo := parseTag(f)
			e := n.get(fo.name)
			if e == nil {
				continue
			}
			x, err := s.jdec(e, f.Type, fo)
			if err != nil {
				return v, err
			}
			v.Field(i).Set(x)
		}
	case reflect.Map:
		if n.kind != jObj {
			return v, bad("object")
		}
		v.Set(reflect.MakeMap(t))
		for i, k := range n.keys {
			x, err := s.jdec(n.arr[i], t.Elem(), o)
			if err != nil {
				return v, err
			}
			v.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), x)
		}
	default:
		return v, bad("no JSON encoding")
	}
	return v, nil
}

func setInt(v reflect.Value, lit string) error {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !reInt.MatchString(lit) {
			return bad("integer")
		}
		i, err := strconv.ParseInt(lit, 10, v.Type().Bits())
		if err != nil {
			return err
		}
		v.SetInt(i)
	default:
		if !reInt.MatchString(lit) || lit[0] == '-' {
			return bad("integer")
		}
		u, err := strconv.ParseUint(lit, 10, v.Type().Bits())
		if err != nil {
			return err
		}
		v.SetUint(u)
	}
	return nil
}
