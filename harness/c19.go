package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/golang/protobuf/proto"
)

func init() {
	register(&check{id: "C19", run: c19,
		rule:  "50 generated pairs of an Amino type and its proto3 message (all scalars, fixed and zigzag integers, floats, strings, bytes, times, packed and repeated lists, arrays, nested, recursive): Amino's encoding of random values is decoded by golang/protobuf, compared field by field and must leave nothing unrecognized; the message is encoded by golang/protobuf, compared byte by byte where it is canonical, and decoded by Amino; the same with length-delimited messages; encodings of random other types go through a strict parser of the proto3 wire format that knows the documented numbers and wire types; distinct = distinct (type, encoding), non-trivial = at least one field",
		assum: []string{"golang/protobuf 1.3.5 stands for protobuf; strings are UTF-8, as proto3 requires; Amino's encoder writes floats that are zero and fields with write_empty, which protobuf omits and accepts"}})
}

type protoPair struct {
	a interface{}
	p proto.Message
}

// PTime is google.protobuf.Timestamp.
type PTime struct {
	Seconds          int64 `protobuf:"varint,1,opt,name=seconds,proto3"`
	Nanos            int32 `protobuf:"varint,2,opt,name=nanos,proto3"`
	XXX_unrecognized []byte
}

func (m *PTime) Reset()         { *m = PTime{} }
func (m *PTime) String() string { return "" }
func (*PTime) ProtoMessage()    {}

func c19(c *ctx) {
	c.run("pairs", c.n(5000), c19pair)
	c.run("wire", c.n(2500), c19wire)
	c.run("wire systematic", c.n(len(sysBin)), func(t *T) { sysCases(t, false, 2, func(b *bcase) { c19wireCase(t, b) }) })
}

type c19conv struct {
	floatZero bool // there is a float that is zero: protobuf omits it
	keepEmpty bool // write empty messages for structs, instead of none
}

// toProto fills the message p from the Amino value v.
func (c *c19conv) toProto(v, p reflect.Value) {
	switch {
	case v.Type() == tTime:
		tm := v.Interface().(time.Time)
		x := p.Interface().(PTime)
		x.Seconds, x.Nanos = tm.Unix(), int32(tm.Nanosecond())
		p.Set(reflect.ValueOf(x))
		return
	}
	switch p.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.field(v.Field(i), p.Field(i))
		}
	case reflect.Int32, reflect.Int64:
		p.SetInt(v.Int())
	case reflect.Uint32, reflect.Uint64:
		p.SetUint(v.Uint())
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(v.Float()) == 0 {
			c.floatZero = true
		}
		p.SetFloat(v.Float())
	case reflect.Bool:
		p.SetBool(v.Bool())
	case reflect.String:
		p.SetString(v.String())
	case reflect.Slice: // bytes
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		p.SetBytes(b)
	default:
		panic("toProto")
	}
}

func (c *c19conv) field(v, p reflect.Value) {
	if isList(v.Type()) && !isByteList(v.Type()) {
		if v.Len() == 0 {
			return
		}
		p.Set(reflect.MakeSlice(p.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			e, pe := v.Index(i), p.Index(i)
			if pe.Kind() == reflect.Ptr {
				pe.Set(reflect.New(pe.Type().Elem()))
				pe = pe.Elem()
			}
			if e, ok := derefV(e); ok {
				was := c.floatZero
				c.toProto(e, pe)
				if pe.Kind() == reflect.Float32 || pe.Kind() == reflect.Float64 {
					c.floatZero = was // packed
				}
			}
		}
		return
	}
	if p.Kind() != reflect.Ptr {
		c.toProto(v, p)
		return
	}
	d, ok := derefV(v)
	if !ok {
		return
	}
	p.Set(reflect.New(p.Type().Elem()))
	c.toProto(d, p.Elem())
	if v.Kind() != reflect.Ptr && !c.keepEmpty && proto.Size(p.Interface().(proto.Message)) == 0 {
		// an empty struct is left out -- if it is for Amino, too
		if !hasFloat(v) {
			p.Set(reflect.Zero(p.Type()))
		}
	}
}

// hasFloat: a float in a place that Amino always writes.
func hasFloat(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return true
	case reflect.Struct:
		if v.Type() == tTime {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if hasFloat(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// same compares a value with a decoded message.
func c19same(v, p reflect.Value, at string) string {
	if v.Type() == tTime {
		tm := v.Interface().(time.Time)
		x := p.Interface().(PTime)
		if len(x.XXX_unrecognized) > 0 {
			return fmt.Sprintf("%s: protobuf does not know %x", at, x.XXX_unrecognized)
		}
		if x.Seconds != tm.Unix() || int(x.Nanos) != tm.Nanosecond() {
			return fmt.Sprintf("%s: time %v and %d s %d ns", at, tm, x.Seconds, x.Nanos)
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("%s: %s and %v", at, show(v), p.Interface()) }
	switch p.Kind() {
	case reflect.Struct:
		if u := p.FieldByName("XXX_unrecognized"); u.Len() > 0 {
			return fmt.Sprintf("%s: protobuf does not know %x", at, u.Bytes())
		}
		for i := 0; i < v.NumField(); i++ {
			if d := c19sameField(v.Field(i), p.Field(i), at+"."+v.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Int32, reflect.Int64:
		if p.Int() != v.Int() {
			return bad()
		}
	case reflect.Uint32, reflect.Uint64:
		if p.Uint() != v.Uint() {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(p.Float()) != math.Float64bits(v.Float()) {
			return bad()
		}
	case reflect.Bool:
		if p.Bool() != v.Bool() {
			return bad()
		}
	case reflect.String:
		if p.String() != v.String() {
			return bad()
		}
	case reflect.Slice:
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		if !bytes.Equal(b, p.Bytes()) {
			return bad()
		}
	default:
		panic("same")
	}
	return ""
}

func c19sameField(v, p reflect.Value, at string) string {
	if isList(v.Type()) && !isByteList(v.Type()) {
		if v.Len() != p.Len() {
			return fmt.Sprintf("%s: %d and %d elements", at, v.Len(), p.Len())
		}
		for i := 0; i < v.Len(); i++ {
			e, pe := v.Index(i), p.Index(i)
			if pe.Kind() == reflect.Ptr {
				pe = pe.Elem()
			}
			d, ok := derefV(e)
			if !ok { // nil elements are empty ones
				if proto.Size(pe.Addr().Interface().(proto.Message)) != 0 {
					return fmt.Sprintf("%s[%d]: nil and %v", at, i, pe.Interface())
				}
				continue
			}
			if s := c19same(d, pe, fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
		return ""
	}
	if p.Kind() != reflect.Ptr {
		return c19same(v, p, at)
	}
	d, ok := derefV(v)
	if !ok {
		if !p.IsNil() {
			return fmt.Sprintf("%s: nil and %v", at, p.Interface())
		}
		return ""
	}
	if p.IsNil() {
		if v.Kind() == reflect.Ptr && d.Type() != tTime { // no time is 1970 for Amino
			return fmt.Sprintf("%s: %s and nothing", at, show(v))
		}
		return c19same(d, reflect.New(p.Type().Elem()).Elem(), at)
	}
	return c19same(d, p.Elem(), at)
}

func c19pair(t *T) {
	pp := protoPairs[t.idx%len(protoPairs)]
	u := newUniverse(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	g.utf8 = true
	at, pt := reflect.TypeOf(pp.a), reflect.TypeOf(pp.p).Elem()
	for i := 0; i < 4; i++ {
		g.budget = 200
		v := reflect.New(at).Elem()
		if i > 0 || t.rng.Intn(3) > 0 {
			v = g.value(at, fopt{})
		} else {
			g.fixZero(v, fopt{})
		}
		norm, err := s.normTop(v)
		if err != nil {
			t.count("not encodable")
			continue
		}
		bz, err := marshalBare(u.cdc, v.Interface())
		if err != nil {
			t.failf("MarshalBinaryBare of %v %s: %v", at, show(v), err)
		}
		t.evaluated(fmt.Sprintf("%v %x", at, bz), len(bz) > 0)
		// protobuf decodes it
		m := reflect.New(pt)
		if err := proto.Unmarshal(bz, m.Interface().(proto.Message)); err != nil {
			t.failf("%v %s encodes to %x, protobuf says: %v", at, show(v), bz, err)
		}
		if d := c19same(v, m.Elem(), ""); d != "" {
			t.failf("%v %s encodes to %x, protobuf decodes other values: %s", at, show(v), bz, d)
		}
		t.count("decoded by protobuf")
		// and what protobuf makes of the message
		cv := &c19conv{}
		p := reflect.New(pt)
		cv.toProto(v, p.Elem())
		pm := p.Interface().(proto.Message)
		pbz, err := proto.Marshal(pm)
		if err != nil {
			t.failf("protobuf cannot encode the counterpart of %v %s: %v", at, show(v), err)
		}
		if !cv.floatZero {
			if !bytes.Equal(pbz, bz) {
				t.failf("%v %s encodes to %x, protobuf encodes the same message to %x", at, show(v), bz, pbz)
			}
			t.count("same bytes")
		}
		got, err := unmarshalBare(u.cdc, pbz, at)
		if err != nil {
			t.failf("%v %s is %x in protobuf, Amino says: %v", at, show(v), pbz, err)
		}
		judge := func(got reflect.Value, in []byte) {
			d := ""
			if cv.floatZero { // protobuf leaves these out, and Amino takes empty elements of pointer lists for nil
				d = c19same(got, m.Elem(), "")
			} else {
				d = diff(norm, got)
			}
			if d != "" {
				t.failf("%s: Amino decodes other values from the protobuf encoding %x of %v %s", d, in, at, show(v))
			}
		}
		judge(got, pbz)
		t.count("decoded by Amino")
		// with empty messages that are there
		cv2 := &c19conv{keepEmpty: true}
		p2 := reflect.New(pt)
		cv2.toProto(v, p2.Elem())
		pbz2, err := proto.Marshal(p2.Interface().(proto.Message))
		if err != nil {
			t.failf("protobuf cannot encode the counterpart of %v %s: %v", at, show(v), err)
		}
		if !bytes.Equal(pbz2, pbz) {
			got, err := unmarshalBare(u.cdc, pbz2, at)
			if err != nil {
				t.failf("%v %s is %x in protobuf (empty messages not left out), Amino says: %v", at, show(v), pbz2, err)
			}
			if d := c19same(got, m.Elem(), ""); d != "" {
				t.failf("%v %s is %x in protobuf (empty messages not left out), Amino decodes other values: %s", at, show(v), pbz2, d)
			}
			t.count("decoded by Amino, with empty messages")
		}
		// delimited
		b := proto.NewBuffer(nil)
		if err := b.EncodeMessage(pm); err != nil {
			t.failf("protobuf: EncodeMessage: %v", err)
		}
		q := reflect.New(at)
		var n int64
		err, _ = try(func() (err error) {
			if t.rng.Intn(2) == 0 {
				n, err = u.cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(b.Bytes()), q.Interface(), 0)
				return
			}
			n = int64(len(b.Bytes()))
			return u.cdc.UnmarshalBinaryLengthPrefixed(b.Bytes(), q.Interface())
		})
		if err != nil || n != int64(len(b.Bytes())) {
			t.failf("%v %s is %x in delimited protobuf, Amino says: %v (%d bytes read)", at, show(v), b.Bytes(), err, n)
		}
		judge(q.Elem(), b.Bytes())
		var lbz []byte
		err, _ = try(func() (err error) { lbz, err = u.cdc.MarshalBinaryLengthPrefixed(v.Interface()); return })
		if err != nil {
			t.failf("MarshalBinaryLengthPrefixed of %v %s: %v", at, show(v), err)
		}
		m2 := reflect.New(pt)
		if err := proto.NewBuffer(lbz).DecodeMessage(m2.Interface().(proto.Message)); err != nil {
			t.failf("%v %s encodes to %x, protobuf says: %v", at, show(v), lbz, err)
		}
		if d := c19same(v, m2.Elem(), ""); d != "" {
			t.failf("%v %s encodes to %x, protobuf decodes other values: %s", at, show(v), lbz, d)
		}
		t.count("delimited messages")
		if t.rng.Intn(2000) == 0 {
			t.sample("%v: %x", at, bz)
		}
	}
}

func c19wire(t *T) {
	randomCases(t, genOpts{richTags: t.idx%3 == 0}, 4, 3, func(b *bcase) { c19wireCase(t, b) })
}

func c19wireCase(t *T, b *bcase) {
	d, ok := derefV(b.v)
	if !ok || d.Kind() != reflect.Struct || isMarshaler(d.Type()) {
		return
	}
	if _, err := b.s.top(b.v); err != nil {
		return
	}
	bz, err := marshalBare(b.cdc, b.in())
	if err != nil {
		t.failf("MarshalBinaryBare of %s: %v", b, err)
	}
	in := bz
	if ri := b.u.byType[d.Type()]; ri != nil {
		if !bytes.HasPrefix(bz, ri.prefix[:]) {
			t.failf("%s encodes to %x without its prefix", b, bz)
		}
		in = bz[4:]
	}
	if err := wireStruct(in, d.Type()); err != nil {
		t.failf("%s encodes to %x, which is no well-formed message: %v", b, bz, err)
	}
	t.count("encodings parsed as messages")
	t.evaluated(fmt.Sprintf("%v %x", b.t, bz), len(in) > 0)
}

// wireStruct: b is a proto3 message in canonical form, with the fields that
// the documentation prescribes for t.
func wireStruct(b []byte, t reflect.Type) error {
	type doc struct {
		t reflect.Type
		o fopt
	}
	fields := map[uint64]doc{}
	if t == tTime {
		fields[1] = doc{reflect.TypeOf(int64(0)), fopt{}}
		fields[2] = doc{reflect.TypeOf(int32(0)), fopt{}}
	} else {
		n := uint64(0)
		for i := 0; i < t.NumField(); i++ {
			if encoded(t.Field(i)) {
				n++
				fields[n] = doc{t.Field(i).Type, parseTag(t.Field(i))}
			}
		}
	}
	last := uint64(0)
	for len(b) > 0 {
		k, n, err := canonUv(b)
		if err != nil {
			return err
		}
		b = b[n:]
		num, wt := k>>3, k&7
		f, ok := fields[num]
		if !ok {
			return fmt.Errorf("no field has number %d", num)
		}
		ft := deref(f.t)
		repeated := isList(f.t) && !isByteList(f.t) && !isMarshaler(ft) && wireTypeOf(ft.Elem(), f.o) == 2
		if num < last || num == last && !repeated {
			return fmt.Errorf("field %d after field %d", num, last)
		}
		last = num
		if int(wt) != wireTypeOf(ft, f.o) {
			return fmt.Errorf("field %d has wire type %d", num, wt)
		}
		var body []byte
		switch wt {
		case 0:
			if _, n, err = canonUv(b); err != nil {
				return err
			}
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			l, m, err := canonUv(b)
			if err != nil {
				return err
			}
			if l > uint64(len(b)-m) {
				return fmt.Errorf("field %d has %d bytes, %d are left", num, l, len(b)-m)
			}
			body = b[m : m+int(l)]
			n = m + int(l)
		}
		if n > len(b) {
			return fmt.Errorf("field %d is cut off", num)
		}
		b = b[n:]
		if wt != 2 {
			continue
		}
		et := ft
		if repeated && ft.Elem().Kind() != reflect.Uint8 {
			et = deref(ft.Elem())
		}
		if err := wireBody(body, et, f.o); err != nil {
			return fmt.Errorf("in field %d: %v", num, err)
		}
	}
	return nil
}

func wireBody(b []byte, t reflect.Type, o fopt) error {
	if isMarshaler(t) || t.Kind() == reflect.Interface {
		return nil
	}
	if t.Kind() == reflect.Struct {
		return wireStruct(b, t)
	}
	if !isList(t) || isByteList(t) {
		return nil
	}
	e := deref(t.Elem())
	wt := wireTypeOf(e, o)
	for len(b) > 0 && wt == 2 { // a pointer to a list, or a list in a list: one field, repeated
		k, n, err := canonUv(b)
		if err != nil || k&7 != 2 || k>>3 == 0 {
			return fmt.Errorf("%x for a list element: %v", b, err)
		}
		l, m, err := canonUv(b[n:])
		if err != nil || l > uint64(len(b)-n-m) {
			return fmt.Errorf("%x for a list element: %v", b, err)
		}
		if err := wireBody(b[n+m:n+m+int(l)], e, o); err != nil {
			return err
		}
		b = b[n+m+int(l):]
	}
	for len(b) > 0 { // packed
		n := map[int]int{1: 8, 5: 4}[wt]
		if wt == 0 {
			var err error
			if _, n, err = canonUv(b); err != nil {
				return err
			}
		}
		if n > len(b) {
			return fmt.Errorf("packed list cut off")
		}
		b = b[n:]
	}
	return nil
}

// canonUv: a minimal varint.
func canonUv(b []byte) (uint64, int, error) {
	x, n, ok := bigGetUv(b)
	if !ok || n > 1 && b[n-1] == 0 {
		return 0, 0, fmt.Errorf("no minimal varint at %x", b)
	}
	return x.Uint64(), n, nil
}

// wireTypeOf is the wire type documented for a type.
func wireTypeOf(t reflect.Type, o fopt) int {
	t = deref(t)
	if isMarshaler(t) {
		return wireTypeOf(reprType(t), o)
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Uint8, reflect.Uint16, reflect.Int, reflect.Uint:
		return 0
	case reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
		switch {
		case o.fixed64 && t.Kind() != reflect.Int32 && t.Kind() != reflect.Uint32:
			return 1
		case o.fixed32 && (t.Kind() == reflect.Int32 || t.Kind() == reflect.Uint32):
			return 5
		}
		return 0
	case reflect.Float32:
		return 5
	case reflect.Float64:
		return 1
	}
	return 2
}
