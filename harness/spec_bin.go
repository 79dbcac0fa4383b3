package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"
)

// The reference model of the binary encoding: what the documentation and the
// wire format prescribe, written without looking at how amino does it (it
// builds values bottom up, where amino streams and rolls back).

type specErr struct{ msg string }

func (e *specErr) Error() string { return "spec: " + e.msg }

func serr(f string, a ...interface{}) error { return &specErr{fmt.Sprintf(f, a...)} }

const (
	wVarint = 0
	w8      = 1
	wBytes  = 2
	w4      = 5
)

// class is the wire type of a (pointer to a) type.
func class(t reflect.Type, o fopt) int {
	t = deref(t)
	switch t.Kind() {
	case reflect.Int64, reflect.Uint64:
		if o.fixed64 {
			return w8
		}
		return wVarint
	case reflect.Int32, reflect.Uint32:
		if o.fixed32 {
			return w4
		}
		return wVarint
	case reflect.Float64:
		return w8
	case reflect.Float32:
		return w4
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Uint, reflect.Uint8, reflect.Uint16:
		return wVarint
	case reflect.String, reflect.Slice, reflect.Array, reflect.Struct, reflect.Interface, reflect.Map:
		return wBytes // (there is no binary form of a map, but lists of none)
	}
	return -1
}

func uv(u uint64) []byte {
	var b []byte
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func zz(i int64) []byte { return uv(uint64(i<<1) ^ uint64(i>>63)) }

func key(num uint32, cl int) []byte { return uv(uint64(num)<<3 | uint64(cl)) }

func lp(b []byte) []byte { return append(uv(uint64(len(b))), b...) }

func le(u uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(u >> (8 * uint(i)))
	}
	return b
}

// structish types are not wrapped at top level.
func structish(t reflect.Type) bool {
	return t.Kind() == reflect.Struct || isList(t) && t.Elem().Kind() == reflect.Struct
}

func derefV(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Value{}, false
		}
		v = v.Elem()
	}
	return v, true
}

// isDef: zero numbers, and empty or nil strings, lists and interfaces. (But
// neither false nor empty structs.)
func isDef(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Interface:
		return v.IsNil()
	}
	return false
}

// isUnpacked: a field that is a list gets one entry per element.
func isUnpacked(t reflect.Type, o fopt) bool {
	return isList(t) && t.Elem().Kind() != reflect.Uint8 && !isMarshaler(t) && class(t.Elem(), o) == wBytes
}

// repr calls the marshalling method.
func repr(v reflect.Value) (reflect.Value, error) {
	out := callMarshal(v)
	if !out[1].IsNil() {
		return reflect.Value{}, out[1].Interface().(error)
	}
	// addressable
	r := reflect.New(out[0].Type()).Elem()
	r.Set(out[0])
	return r, nil
}

type spec struct {
	u *universe
	// jtop writes omitempty fields even if they are empty
	whole bool
}

// top is what MarshalBinaryBare has to return.
func (s *spec) top(v reflect.Value) ([]byte, error) {
	v, ok := derefV(v)
	if !ok {
		return nil, serr("nil pointer")
	}
	var out []byte
	switch {
	case v.Kind() == reflect.Interface:
		if v.IsNil() {
			return nil, nil
		}
		return s.iface(v, fopt{}, 1, true)
	case structish(v.Type()):
		b, err := s.body(v, fopt{}, 1)
		if err != nil {
			return nil, err
		}
		out = b
	default:
		b, err := s.wrapped(v)
		if err != nil {
			return nil, err
		}
		out = b
	}
	if ri := s.u.byType[v.Type()]; ri != nil {
		out = append(append([]byte{}, ri.prefix[:]...), out...)
	}
	return out, nil
}

// wrapped: as the first field of a message, or nothing if that is default.
func (s *spec) wrapped(v reflect.Value) ([]byte, error) {
	cl := class(v.Type(), fopt{})
	if cl < 0 {
		return nil, serr("no encoding for %v", v.Type())
	}
	b, err := s.value(v, fopt{}, 1)
	if err != nil {
		return nil, err
	}
	if len(b) == 1 && b[0] == 0 {
		return nil, nil
	}
	return append(key(1, cl), b...), nil
}

// value as it follows a key: with its length if it is of the bytes class.
func (s *spec) value(v reflect.Value, o fopt, num uint32) ([]byte, error) {
	if isMarshaler(v.Type()) {
		r, err := repr(v)
		if err != nil {
			return nil, err
		}
		return s.value(r, o, num)
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case reflect.Int8, reflect.Int16:
		return zz(v.Int()), nil
	case reflect.Int:
		return uv(uint64(v.Int())), nil
	case reflect.Int32:
		if o.fixed32 {
			return le(uint64(v.Int()), 4), nil
		}
		return uv(uint64(v.Int())), nil
	case reflect.Int64:
		if o.fixed64 {
			return le(uint64(v.Int()), 8), nil
		}
		return uv(uint64(v.Int())), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16:
		return uv(v.Uint()), nil
	case reflect.Uint32:
		if o.fixed32 {
			return le(v.Uint(), 4), nil
		}
		return uv(v.Uint()), nil
	case reflect.Uint64:
		if o.fixed64 {
			return le(v.Uint(), 8), nil
		}
		return uv(v.Uint()), nil
	case reflect.Float32:
		if !o.unsafe {
			return nil, serr("float")
		}
		return le(uint64(math.Float32bits(float32(v.Float()))), 4), nil
	case reflect.Float64:
		if !o.unsafe {
			return nil, serr("float")
		}
		return le(math.Float64bits(v.Float()), 8), nil
	case reflect.Slice, reflect.Array:
		if listOfLists(v.Type()) && !multiBytes(v.Type()) {
			return nil, serr("list of lists")
		}
	}
	b, err := s.contents(v, o, num)
	if err != nil {
		return nil, err
	}
	return lp(b), nil
}

// contents of a value of the bytes class.
func (s *spec) contents(v reflect.Value, o fopt, num uint32) ([]byte, error) {
	switch v.Kind() {
	case reflect.String:
		return []byte(v.String()), nil
	case reflect.Slice, reflect.Array:
		if isByteList(v.Type()) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return b, nil
		}
		return s.list(v, o, num)
	case reflect.Struct:
		return s.strct(v)
	case reflect.Interface:
		if v.IsNil() {
			return nil, nil
		}
		return s.iface(v, o, num, false)
	}
	return nil, serr("no encoding for %v", v.Type())
}

// body of an unwrapped value: structs and lists go without a length.
func (s *spec) body(v reflect.Value, o fopt, num uint32) ([]byte, error) {
	if isMarshaler(v.Type()) {
		r, err := repr(v)
		if err != nil {
			return nil, err
		}
		return s.body(r, o, num)
	}
	if v.Kind() == reflect.Struct {
		return s.strct(v)
	}
	if isList(v.Type()) && !isByteList(v.Type()) {
		if listOfLists(v.Type()) && !multiBytes(v.Type()) {
			return nil, serr("list of lists")
		}
		return s.list(v, o, num)
	}
	return s.value(v, o, num)
}

func (s *spec) iface(v reflect.Value, o fopt, num uint32, top bool) ([]byte, error) {
	c, ok := derefV(v.Elem())
	if !ok {
		return nil, serr("nil pointer in interface")
	}
	if s.u.ifaces[v.Type()] == nil {
		return nil, serr("interface %v not registered", v.Type())
	}
	ri := s.u.byType[c.Type()]
	if ri == nil {
		return nil, serr("%v not registered", c.Type())
	}
	var out []byte
	if s.u.needDisamb(v.Type(), ri) {
		out = append(out, 0)
		out = append(out, ri.disamb[:]...)
	}
	out = append(out, ri.prefix[:]...)
	var b []byte
	var err error
	if top && !structish(c.Type()) {
		b, err = s.wrapped(c)
	} else {
		b, err = s.body(c, o, num)
	}
	return append(out, b...), err
}

func (s *spec) list(v reflect.Value, o fopt, num uint32) ([]byte, error) {
	et := v.Type().Elem()
	cl := class(et, o)
	if cl < 0 && v.Len() > 0 {
		return nil, serr("no encoding for %v", et)
	}
	var out []byte
	for i := 0; i < v.Len(); i++ {
		e, ok := derefV(v.Index(i))
		if cl != wBytes {
			if !ok {
				e = reflect.New(deref(et)).Elem()
			}
			b, err := s.value(e, o, num)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
			continue
		}
		out = append(out, key(num, wBytes)...)
		if !ok || isDef(e) {
			if o.emptyElems && et.Kind() == reflect.Ptr && deref(et).Kind() == reflect.Struct {
				return nil, serr("nil element with empty_elements")
			}
			out = append(out, 0)
			continue
		}
		b, err := s.value(e, o, 1)
		if err != nil {
			return nil, err
		}
		out = append(out, b...)
	}
	return out, nil
}

func specTime(t time.Time) ([]byte, error) {
	sec, ns := t.Unix(), t.Nanosecond()
	if sec < minSec || sec >= maxSec {
		return nil, serr("time out of range")
	}
	var out []byte
	if sec != 0 {
		out = append(append(out, key(1, wVarint)...), uv(uint64(sec))...)
	}
	if ns != 0 {
		out = append(append(out, key(2, wVarint)...), uv(uint64(ns))...)
	}
	return out, nil
}

func (s *spec) strct(v reflect.Value) ([]byte, error) {
	t := v.Type()
	if t == tTime {
		return specTime(v.Interface().(time.Time))
	}
	var out []byte
	num := uint32(0)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !encoded(f) {
			continue
		}
		num++
		o := parseTag(f)
		fv, ok := derefV(v.Field(i))
		if !ok {
			continue
		}
		if isDef(fv) && !o.writeEmpty {
			continue
		}
		if isUnpacked(f.Type, o) {
			b, err := s.list(fv, o, num)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
			continue
		}
		cl := class(f.Type, o)
		if cl < 0 {
			return nil, serr("no encoding for %v", f.Type)
		}
		b, err := s.value(fv, o, num)
		if err != nil {
			return nil, err
		}
		if len(b) == 1 && b[0] == 0 && !o.writeEmpty && f.Type.Kind() != reflect.Ptr {
			continue
		}
		out = append(append(out, key(num, cl)...), b...)
	}
	return out, nil
}

//----------------------------------------
// norm: what a value looks like after a round trip.

func epoch() time.Time { return time.Unix(0, 0).UTC() }

// defaultFor is what a field that is not there becomes.
func defaultFor(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if deref(t) == tTime {
			return rebuild(t, reflect.ValueOf(epoch()))
		}
	case reflect.Struct:
		if t == tTime {
			v.Set(reflect.ValueOf(epoch()))
			return v
		}
		for i := 0; i < t.NumField(); i++ {
			if encoded(t.Field(i)) {
				v.Field(i).Set(defaultFor(t.Field(i).Type))
			}
		}
	}
	return v
}

// rebuild makes the pointers of t around v.
func rebuild(t reflect.Type, v reflect.Value) reflect.Value {
	if t.Kind() != reflect.Ptr {
		return v
	}
	p := reflect.New(t.Elem())
	p.Elem().Set(rebuild(t.Elem(), v))
	if p.Type() != t { // named pointer types
		p = p.Convert(t)
	}
	return p
}

func (s *spec) normTop(v reflect.Value) (reflect.Value, error) {
	d, ok := derefV(v)
	if !ok {
		return v, serr("nil")
	}
	n, err := s.norm(d, fopt{}, 1)
	if err != nil {
		return v, err
	}
	return rebuild(v.Type(), n), nil
}

func (s *spec) norm(v reflect.Value, o fopt, num uint32) (reflect.Value, error) {
	t := v.Type()
	out := reflect.New(t).Elem()
	if t == tTime {
		tm := v.Interface().(time.Time)
		out.Set(reflect.ValueOf(time.Unix(tm.Unix(), int64(tm.Nanosecond())).UTC()))
		return out, nil
	}
	if isMarshaler(t) {
		r, err := repr(v)
		if err != nil {
			return v, err
		}
		nr, err := s.norm(r, o, num)
		if err != nil {
			return v, err
		}
		e := out.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{nr})
		if !e[0].IsNil() {
			return v, e[0].Interface().(error)
		}
		return out, nil
	}
	switch t.Kind() {
	case reflect.Struct:
		k := uint32(0)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !encoded(f) {
				continue
			}
			k++
			n, err := s.normField(v.Field(i), parseTag(f), k)
			if err != nil {
				return v, err
			}
			out.Field(i).Set(n)
		}
		return out, nil
	case reflect.Slice:
		if v.Len() == 0 {
			return out, nil
		}
		if isByteList(t) {
			out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
			reflect.Copy(out, v)
			return out, nil
		}
		out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		return out, s.normElems(v, out, o, num)
	case reflect.Array:
		if isByteList(t) {
			out.Set(v)
			return out, nil
		}
		return out, s.normElems(v, out, o, num)
	case reflect.Interface:
		if v.IsNil() {
			return out, nil
		}
		c, ok := derefV(v.Elem())
		if !ok {
			return v, serr("nil")
		}
		ri := s.u.byType[c.Type()]
		if ri == nil {
			return v, serr("not registered")
		}
		n, err := s.norm(c, o, num)
		if err != nil {
			return v, err
		}
		if ri.ptr || !ri.rt.Implements(t) {
			n = rebuild(reflect.PtrTo(ri.rt), n)
		}
		out.Set(n)
		return out, nil
	}
	out.Set(v)
	return out, nil
}

func (s *spec) normField(v reflect.Value, o fopt, num uint32) (reflect.Value, error) {
	t := v.Type()
	d, ok := derefV(v)
	if !ok || isDef(d) && !o.writeEmpty {
		return defaultFor(t), nil
	}
	n, err := s.norm(d, o, num)
	if err != nil {
		return v, err
	}
	return rebuild(t, n), nil
}

func (s *spec) normElems(v, out reflect.Value, o fopt, num uint32) error {
	et := v.Type().Elem()
	cl := class(et, o)
	for i := 0; i < v.Len(); i++ {
		e, ok := derefV(v.Index(i))
		if cl != wBytes {
			if !ok {
				e = reflect.New(deref(et)).Elem()
			}
			n, err := s.norm(e, o, num)
			if err != nil {
				return err
			}
			if et.Kind() == reflect.Ptr && isDef(n) {
				continue // nil
			}
			out.Index(i).Set(rebuild(et, n))
			continue
		}
		keep := o.emptyElems && et.Kind() == reflect.Ptr && deref(et).Kind() == reflect.Struct
		if !ok || isDef(e) {
			if keep {
				return serr("nil element")
			}
			out.Index(i).Set(defaultFor(et))
			continue
		}
		b, err := s.value(e, o, 1)
		if err != nil {
			return err
		}
		if b[0] == 0 && !keep {
			out.Index(i).Set(defaultFor(et))
			continue
		}
		n, err := s.norm(e, o, 1)
		if err != nil {
			return err
		}
		out.Index(i).Set(rebuild(et, n))
	}
	return nil
}

//----------------------------------------
// the reference decoder

var errBad = errors.New("malformed")

func bad(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func getUv(b []byte) (uint64, int, error) {
	u, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, 0, bad("varint")
	}
	return u, n, nil
}

func getKey(b []byte) (num uint32, cl int, n int, err error) {
	u, n, err := getUv(b)
	if err != nil {
		return
	}
	if u>>3 >= 1<<29 {
		return 0, 0, 0, bad("field number")
	}
	return uint32(u >> 3), int(u & 7), n, nil
}

func getLp(b []byte) ([]byte, int, error) {
	u, n, err := getUv(b)
	if err != nil {
		return nil, 0, err
	}
	if u > uint64(len(b)-n) {
		return nil, 0, bad("length")
	}
	return b[n : n+int(u)], n + int(u), nil
}

// decTop is what UnmarshalBinaryBare has to do with b for a fresh variable of type t.
func (s *spec) decTop(b []byte, t reflect.Type) (reflect.Value, error) {
	d := deref(t)
	if ri := s.u.byType[d]; ri != nil {
		if len(b) < 4 || [4]byte{b[0], b[1], b[2], b[3]} != ri.prefix {
			return reflect.Value{}, bad("prefix")
		}
		b = b[4:]
	}
	var v reflect.Value
	var err error
	switch {
	case d.Kind() == reflect.Interface:
		v, err = s.decIface(b, d, fopt{}, 1, true)
	case structish(d):
		v, b, err = s.decBody(b, d, fopt{}, 1)
		if err == nil && len(b) > 0 {
			err = bad("leftover")
		}
	default:
		v, err = s.decWrapped(b, d)
	}
	if err != nil {
		return v, err
	}
	return rebuild(t, v), nil
}

func (s *spec) decWrapped(b []byte, d reflect.Type) (reflect.Value, error) {
	if len(b) == 0 {
		b = []byte{0}
	} else {
		num, cl, n, err := getKey(b)
		if err != nil {
			return reflect.Value{}, err
		}
		if num != 1 || cl != class(d, fopt{}) {
			return reflect.Value{}, bad("key")
		}
		b = b[n:]
	}
	v, b, err := s.decValue(b, d, fopt{}, 1)
	if err == nil && len(b) > 0 {
		err = bad("leftover")
	}
	return v, err
}

func (s *spec) viaRepr(t reflect.Type, dec func(rt reflect.Type) (reflect.Value, error)) (reflect.Value, error) {
	out := reflect.New(t).Elem()
	um := out.Addr().MethodByName("UnmarshalAmino")
	r, err := dec(um.Type().In(0))
	if err != nil {
		return out, err
	}
	e := um.Call([]reflect.Value{r})
	if !e[0].IsNil() {
		return out, e[0].Interface().(error)
	}
	return out, nil
}

// decValue decodes what follows a key, and returns the rest.
func (s *spec) decValue(b []byte, t reflect.Type, o fopt, num uint32) (reflect.Value, []byte, error) {
	v := reflect.New(t).Elem()
	if isMarshaler(t) {
		v, err := s.viaRepr(t, func(rt reflect.Type) (r reflect.Value, err error) {
			r, b, err = s.decValue(b, rt, o, num)
			return
		})
		return v, b, err
	}
	fixed := func(n int) (uint64, error) {
		if len(b) < n {
			return 0, bad("eof")
		}
		var u uint64
		for i := n - 1; i >= 0; i-- {
			u = u<<8 | uint64(b[i])
		}
		b = b[n:]
		return u, nil
	}
	varint := func() (uint64, error) {
		u, n, err := getUv(b)
		b = b[n:]
		return u, err
	}
	switch t.Kind() {
	case reflect.Bool:
		if len(b) == 0 || b[0] > 1 {
			return v, b, bad("bool")
		}
		v.SetBool(b[0] == 1)
		return v, b[1:], nil
	case reflect.Int8, reflect.Int16:
		u, err := varint()
		i := int64(u>>1) ^ -int64(u&1)
		if err != nil || v.OverflowInt(i) {
			return v, b, bad("range")
		}
		v.SetInt(i)
		return v, b, nil
	case reflect.Int, reflect.Int32, reflect.Int64:
		var u uint64
		var err error
		switch {
		case t.Kind() == reflect.Int64 && o.fixed64:
			u, err = fixed(8)
		case t.Kind() == reflect.Int32 && o.fixed32:
			u, err = fixed(4)
			u = uint64(int64(int32(u)))
		default:
			u, err = varint()
		}
		if err != nil || v.OverflowInt(int64(u)) {
			return v, b, bad("range")
		}
		v.SetInt(int64(u))
		return v, b, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var u uint64
		var err error
		switch {
		case t.Kind() == reflect.Uint64 && o.fixed64:
			u, err = fixed(8)
		case t.Kind() == reflect.Uint32 && o.fixed32:
			u, err = fixed(4)
		default:
			u, err = varint()
		}
		if err != nil || v.OverflowUint(u) {
			return v, b, bad("range")
		}
		v.SetUint(u)
		return v, b, nil
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return v, b, bad("float")
		}
		if t.Kind() == reflect.Float32 {
			u, err := fixed(4)
			v.SetFloat(float64(math.Float32frombits(uint32(u))))
			return v, b, err
		}
		u, err := fixed(8)
		v.SetFloat(math.Float64frombits(u))
		return v, b, err
	}
	// bytes class
	c, n, err := getLp(b)
	if err != nil {
		return v, b, err
	}
	rest := b[n:]
	switch {
	case t.Kind() == reflect.String:
		v.SetString(string(c))
	case isByteList(t):
		if t.Kind() == reflect.Array {
			if len(c) != t.Len() {
				return v, b, bad("array length")
			}
			for i := range c {
				v.Index(i).SetUint(uint64(c[i]))
			}
		} else if len(c) > 0 {
			v.SetBytes(append([]byte{}, c...))
		}
	case t.Kind() == reflect.Interface:
		if len(c) == 0 {
			return v, rest, nil
		}
		v, err = s.decIface(c, t, o, num, false)
	default:
		v, c, err = s.decBody(c, t, o, num)
		if err == nil && len(c) > 0 {
			err = bad("leftover")
		}
	}
	return v, rest, err
}

// decPtr decodes into a (pointer to a) type.
func (s *spec) decPtr(b []byte, t reflect.Type, o fopt, num uint32) (reflect.Value, []byte, error) {
	v, b, err := s.decValue(b, deref(t), o, num)
	if err != nil {
		return v, b, err
	}
	return rebuild(t, v), b, nil
}

// decBody decodes an unwrapped value, and returns the rest.
func (s *spec) decBody(b []byte, t reflect.Type, o fopt, num uint32) (reflect.Value, []byte, error) {
	if isMarshaler(t) {
		v, err := s.viaRepr(t, func(rt reflect.Type) (r reflect.Value, err error) {
			r, b, err = s.decBody(b, rt, o, num)
			return
		})
		return v, b, err
	}
	if t.Kind() == reflect.Struct {
		v, err := s.decStruct(b, t)
		return v, nil, err
	}
	if isList(t) && !isByteList(t) {
		return s.decList(b, t, o, num)
	}
	return s.decValue(b, t, o, num)
}

func (s *spec) decIface(b []byte, t reflect.Type, o fopt, num uint32, top bool) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	if s.u.ifaces[t] == nil {
		return v, bad("interface not registered")
	}
	var ri *regInfo
	if len(b) < 4 {
		return v, bad("prefix")
	}
	if b[0] == 0 {
		if len(b) < 8 {
			return v, bad("disfix")
		}
		for _, r := range s.u.regs {
			if string(r.disamb[:])+string(r.prefix[:]) == string(b[1:8]) {
				ri = r
			}
		}
		b = b[8:]
	} else {
		for _, r := range s.u.regs {
			if string(r.prefix[:]) == string(b[:4]) && implements(r.rt, t) {
				if ri != nil {
					return v, bad("ambiguous prefix")
				}
				ri = r
			}
		}
		b = b[4:]
	}
	if ri == nil || !implements(ri.rt, t) {
		return v, bad("unknown type")
	}
	var c reflect.Value
	var err error
	if top && !structish(ri.rt) {
		if class(ri.rt, fopt{}) < 0 {
			return v, bad("no encoding")
		}
		c, err = s.decWrapped(b, ri.rt)
	} else {
		c, b, err = s.decBody(b, ri.rt, o, num)
		if err == nil && len(b) > 0 {
			err = bad("leftover")
		}
	}
	if err != nil {
		return v, err
	}
	if ri.ptr || !ri.rt.Implements(t) {
		c = rebuild(reflect.PtrTo(ri.rt), c)
	}
	v.Set(c)
	return v, nil
}

// decList returns the rest, which starts with the key of a later field.
func (s *spec) decList(b []byte, t reflect.Type, o fopt, num uint32) (reflect.Value, []byte, error) {
	v := reflect.New(t).Elem()
	et := t.Elem()
	cl := class(et, o)
	want := -1
	if t.Kind() == reflect.Array {
		want = t.Len()
	}
	put := func(i int, e reflect.Value) {
		if want >= 0 {
			v.Index(i).Set(e)
		} else {
			v.Set(reflect.Append(v, e))
		}
	}
	for i := 0; ; i++ {
		if i == want || want < 0 && len(b) == 0 {
			break
		}
		if cl != wBytes {
			e, rest, err := s.decValue(b, deref(et), o, num)
			if err != nil {
				return v, b, err
			}
			b = rest
			if et.Kind() == reflect.Ptr && isDef(e) {
				put(i, reflect.Zero(et))
			} else {
				put(i, rebuild(et, e))
			}
			continue
		}
		k, c, n, err := getKey(b)
		if err != nil {
			return v, b, err
		}
		if want < 0 && k > num {
			return v, b, nil
		}
		if k != num || c != wBytes {
			return v, b, bad("list key")
		}
		b = b[n:]
		keep := o.emptyElems && et.Kind() == reflect.Ptr && deref(et).Kind() == reflect.Struct
		if len(b) > 0 && b[0] == 0 && !keep {
			b = b[1:]
			put(i, defaultFor(et))
			continue
		}
		e, rest, err := s.decPtr(b, et, o, 1)
		if err != nil {
			return v, b, err
		}
		b = rest
		put(i, e)
	}
	if len(b) > 0 {
		if cl != wBytes {
			return v, b, bad("leftover")
		}
		k, _, _, err := getKey(b)
		if err != nil {
			return v, b, err
		}
		if k <= num {
			return v, b, bad("too many elements")
		}
	}
	return v, b, nil
}

func (s *spec) decStruct(b []byte, t reflect.Type) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	if t == tTime {
		tm, err := specDecTime(b)
		v.Set(reflect.ValueOf(tm))
		return v, err
	}
	num := uint32(0)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !encoded(f) {
			continue
		}
		num++
		o := parseTag(f)
		if len(b) == 0 {
			v.Field(i).Set(defaultFor(f.Type))
			continue
		}
		if isUnpacked(f.Type, o) {
			e, rest, err := s.decList(b, f.Type, o, num)
			if err != nil {
				return v, err
			}
			v.Field(i).Set(e)
			b = rest
			continue
		}
		k, cl, n, err := getKey(b)
		if err != nil {
			return v, err
		}
		if k > num {
			v.Field(i).Set(defaultFor(f.Type))
			continue
		}
		if k < num || cl != class(f.Type, o) {
			return v, bad("key")
		}
		e, rest, err := s.decPtr(b[n:], f.Type, o, num)
		if err != nil {
			return v, err
		}
		v.Field(i).Set(e)
		b = rest
	}
	return v, skipUnknown(b, num)
}

// skipUnknown: later fields that the type does not know; strictly ascending,
// but for lists.
func skipUnknown(b []byte, last uint32) error {
	rep := false
	for len(b) > 0 {
		k, cl, n, err := getKey(b)
		if err != nil {
			return err
		}
		if k < last || k == last && !(rep && cl == wBytes) {
			return bad("field order")
		}
		last, rep = k, cl == wBytes
		b = b[n:]
		switch cl {
		case wVarint:
			_, n, err = getUv(b)
		case w8:
			n = 8
		case w4:
			n = 4
		case wBytes:
			_, n, err = getLp(b)
		default:
			err = bad("wire type")
		}
		if err != nil {
			return err
		}
		if n > len(b) {
			return bad("eof")
		}
		b = b[n:]
	}
	return nil
}

func specDecTime(b []byte) (time.Time, error) {
	var sec int64
	var ns uint64
	seen := uint32(0)
	for len(b) > 0 {
		k, cl, n, err := getKey(b)
		if err != nil {
			return epoch(), err
		}
		if k <= seen || k > 2 || cl != wVarint {
			return epoch(), bad("time key")
		}
		seen = k
		b = b[n:]
		u, n, err := getUv(b)
		if err != nil {
			return epoch(), err
		}
		b = b[n:]
		if k == 1 {
			sec = int64(u)
			if sec < minSec || sec >= maxSec {
				return epoch(), bad("seconds")
			}
		} else {
			ns = u
			if ns > 999999999 {
				return epoch(), bad("nanos")
			}
		}
	}
	return time.Unix(sec, int64(ns)).UTC(), nil
}
