package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C18", run: c18,
		rule:  "random types that contain structs are paired with types in which any of these structs, at any depth (fields, pointers, lists, arrays, maps, registered types in interfaces), lack trailing fields; values of either type are encoded and decoded as the other, in binary and JSON, by all decoders, and compared with the projection of what the longer type round-trips to, respectively with the round trip of the shorter one and defaults; unknown fields, well-formed and malformed, are appended to encodings at every struct; distinct = distinct (types, encoding), non-trivial = the data has at least one byte of a field the target does not know, or the target lacks at least one of the fields",
		assum: []string{"fields missing from a struct that is itself an omitted list element may come out as the zero value or the documented default (1970) of their type"}})
}

// shrink cuts trailing fields off the unnamed structs that t is made of.
func shrink(r *rand.Rand, t reflect.Type, cuts *int) reflect.Type {
	if t.Name() != "" {
		return t
	}
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(shrink(r, t.Elem(), cuts))
	case reflect.Slice:
		return reflect.SliceOf(shrink(r, t.Elem(), cuts))
	case reflect.Array:
		return reflect.ArrayOf(t.Len(), shrink(r, t.Elem(), cuts))
	case reflect.Map:
		return reflect.MapOf(t.Key(), shrink(r, t.Elem(), cuts))
	case reflect.Struct:
		n := t.NumField()
		if n > 0 && r.Intn(3) > 0 {
			n = r.Intn(n)
		}
		var fs []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if i >= n {
				if encoded(f) {
					*cuts++
				}
				continue
			}
			if encoded(f) {
				f.Type = shrink(r, f.Type, cuts)
			}
			fs = append(fs, reflect.StructField{Name: f.Name, PkgPath: f.PkgPath, Type: f.Type, Tag: f.Tag})
		}
		return reflect.StructOf(fs)
	}
	return t
}

// project gives v as a value of the shorter type t.
func project(v reflect.Value, t reflect.Type) reflect.Value {
	if v.Type() == t {
		return v
	}
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(t.Elem()))
			out.Elem().Set(project(v.Elem(), t.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(project(v.Index(i), t.Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(project(v.Index(i), t.Elem()))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(t))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, project(v.MapIndex(k), t.Elem()))
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				out.Field(i).Set(project(v.Field(i), t.Field(i).Type))
			}
		}
	default:
		panic("project")
	}
	return out
}

// extrasDefault says whether the fields that the shorter type t lacks have
// default values in v.
func extrasDefault(v reflect.Value, t reflect.Type, at string) string {
	if v.Type() == t {
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return extrasDefault(v.Elem(), t.Elem(), at+"*")
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if d := extrasDefault(v.Index(i), t.Elem(), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if d := extrasDefault(v.MapIndex(k), t.Elem(), fmt.Sprintf("%s[%v]", at, k)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if i < t.NumField() {
				if encoded(f) {
					if d := extrasDefault(v.Field(i), t.Field(i).Type, at+"."+f.Name); d != "" {
						return d
					}
				}
				continue
			}
			if f.PkgPath == "" && !isDefaultish(v.Field(i)) {
				return fmt.Sprintf("%s.%s is %s", at, f.Name, show(v.Field(i)))
			}
		}
	}
	return ""
}

// isDefaultish: zero, or 1970 for times.
func isDefaultish(v reflect.Value) bool {
	if v.Type() == tTime {
		tm := v.Interface().(time.Time)
		return tm.IsZero() || tm == epoch()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if deref(v.Type()) == tTime {
			return v.IsNil() || isDefaultish(v.Elem())
		}
		return v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !isDefaultish(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isDefaultish(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func c18(c *ctx) {
	c.run("binary", c.n(3000), func(t *T) { c18pairs(t, false) })
	c.run("JSON", c.n(2000), func(t *T) { c18pairs(t, true) })
	c.run("registered", c.n(600), c18registered)
	c.run("unknown", c.n(2000), c18unknown)
	c.run("JSON unknown", c.n(600), c18unknownJSON)
}

// c18decode uses one of the decoders.
func c18decode(t *T, cdc *amino.Codec, bz []byte, rt reflect.Type) (v reflect.Value, err error) {
	p := reflect.New(rt)
	err, _ = try(func() error {
		switch t.rng.Intn(4) {
		case 0:
			return cdc.UnmarshalBinaryLengthPrefixed(lp(bz), p.Interface())
		case 1:
			if len(bz) > 0 {
				_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lp(bz)), p.Interface(), 0)
				return err
			}
		}
		return cdc.UnmarshalBinaryBare(bz, p.Interface())
	})
	return p.Elem(), err
}

// evoType is a type with structs that can be cut.
func evoType(t *T, g *gen, json bool) (long, short reflect.Type, ok bool) {
	for try := 0; try < 20; try++ {
		long = g.structType(1 + t.rng.Intn(3))
		for k := t.rng.Intn(4); k > 0; k-- {
			switch t.rng.Intn(6) {
			case 0:
				long = reflect.PtrTo(long)
			case 1:
				if json || listOK(long, posTop) && !isList(long) {
					long = reflect.SliceOf(long)
				}
			case 2:
				if json || listOK(long, posTop) && !isList(long) {
					long = reflect.ArrayOf(1+t.rng.Intn(3), long)
				}
			case 3:
				if json {
					long = reflect.MapOf(reflect.TypeOf(""), long)
				}
			default:
				tag := []string{"", "", `amino:"write_empty"`, `amino:"empty_elements"`, `json:",omitempty"`}[t.rng.Intn(5)]
				fs := []reflect.StructField{fld("A", scalarTypes[t.rng.Intn(len(scalarTypes))], ""), fld("S", long, tag)}
				if t.rng.Intn(2) == 0 {
					fs = append(fs, fld("Z", scalarTypes[t.rng.Intn(len(scalarTypes))], ""))
				}
				if !json && isList(long) && isList(long.Elem()) {
					continue
				}
				long = reflect.StructOf(fs)
			}
		}
		cuts := 0
		short = shrink(t.rng, long, &cuts)
		if cuts > 0 {
			return long, short, true
		}
	}
	return
}

func c18pairs(t *T, json bool) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	g.json, g.utf8 = json, json
	g.richTags = t.idx%4 == 0
	long, short, ok := evoType(t, g, json)
	if !ok {
		return
	}
	t.note("long type %v\nshort type %v", long, short)
	for i := 0; i < 4; i++ {
		g.budget = 200
		if i == 3 {
			v := reflect.New(long).Elem()
			g.fixZero(v, fopt{})
			c18judge(t, s, u.cdc, v, short, json)
			v = reflect.New(short).Elem()
			g.fixZero(v, fopt{})
			c18judgeUp(t, s, u.cdc, v, long, json)
			continue
		}
		c18judge(t, s, u.cdc, g.value(long, fopt{}), short, json)
		g.budget = 200
		c18judgeUp(t, s, u.cdc, g.value(short, fopt{}), long, json)
	}
}

// c18judge: data of the longer type, decoded as the shorter one.
func c18judge(t *T, s *spec, cdc *amino.Codec, v reflect.Value, short reflect.Type, json bool) {
	var bz []byte
	var err error
	var norm, got reflect.Value
	if json {
		if _, err := s.jtop(v); err != nil {
			t.count("not encodable")
			return
		}
		norm, err = s.jnormTop(v)
		if err != nil {
			t.count("not encodable")
			return
		}
		bz, err = marshalJSON(cdc, v.Interface())
		if err == nil {
			got, err = unmarshalJSON(cdc, bz, short)
		}
	} else {
		if _, err := s.top(v); err != nil {
			t.count("not encodable")
			return
		}
		norm, err = s.normTop(v)
		if err != nil {
			t.count("not encodable")
			return
		}
		bz, err = marshalBare(cdc, v.Interface())
		if err == nil {
			got, err = c18decode(t, cdc, bz, short)
		}
	}
	if err != nil {
		t.failf("%s, encoded as %s, as the type with fewer fields: %v", show(v), c18bz(bz, json), err)
	}
	want := project(norm, short)
	if d := diff(want, got); d != "" {
		t.failf("%s, encoded as %s, as the type with fewer fields: %s; should be %s: %s", show(v), c18bz(bz, json), show(got), show(want), d)
	}
	t.count("decoded as the shorter type")
	sz := 0
	if sv, err := s.top(want); err == nil {
		sz = len(sv)
	}
	t.evaluated(fmt.Sprint(short, v.Type(), c18bz(bz, json)), json || len(bz) > sz)
	if t.rng.Intn(2000) == 0 {
		t.sample("%v as %v: %s", v.Type(), short, c18bz(bz, json))
	}
}

func c18bz(bz []byte, json bool) string {
	if json {
		return clip(string(bz), 2000)
	}
	return clip(fmt.Sprintf("%x", bz), 2000)
}

// c18judgeUp: data of the shorter type, decoded as the longer one.
func c18judgeUp(t *T, s *spec, cdc *amino.Codec, v reflect.Value, long reflect.Type, json bool) {
	var bz []byte
	var err error
	var norm, got, ref reflect.Value
	var rerr error
	if json {
		if _, err := s.jtop(v); err != nil {
			t.count("not encodable")
			return
		}
		norm, err = s.jnormTop(v)
		if err != nil {
			t.count("not encodable")
			return
		}
		bz, err = marshalJSON(cdc, v.Interface())
		if err == nil {
			got, err = unmarshalJSON(cdc, bz, long)
			ref, rerr = s.jdecTop(bz, long)
		}
	} else {
		if _, err := s.top(v); err != nil {
			t.count("not encodable")
			return
		}
		norm, err = s.normTop(v)
		if err != nil {
			t.count("not encodable")
			return
		}
		bz, err = marshalBare(cdc, v.Interface())
		if err == nil {
			got, err = c18decode(t, cdc, bz, long)
			ref, rerr = s.decTop(bz, long)
		}
	}
	if err != nil {
		t.failf("%s, encoded as %s, as the type %v with more fields: %v", show(v), c18bz(bz, json), long, err)
	}
	if d := diff(norm, project(got, v.Type())); d != "" {
		t.failf("%s, encoded as %s, as the type with more fields: %s; the common fields should be %s: %s", show(v), c18bz(bz, json), show(got), show(norm), d)
	}
	if d := extrasDefault(got, v.Type(), ""); d != "" {
		t.failf("%s, encoded as %s, as the type with more fields: %s, which is not encoded", show(v), c18bz(bz, json), d)
	}
	if rerr == nil {
		if d := diff(ref, got); d != "" {
			t.failf("%s, encoded as %s, as the type with more fields: %s; should be %s: %s", show(v), c18bz(bz, json), show(got), show(ref), d)
		}
	} else if rerr != errLenient {
		t.failf("the model disagrees with itself: %v", rerr)
	}
	t.count("decoded as the longer type")
	t.evaluated(fmt.Sprint("up", long, v.Type(), c18bz(bz, json)), true)
}

// c18registered: one codec knows the longer type under a name, another one
// the shorter type.
func c18registered(t *T) {
	for i := 0; i < 3; i++ {
		u := newUniverseModel()
		g := newGen(t.rng, u)
		g.bare = true
		g.json, g.utf8 = true, true // the generated types then have to do for both: filter
		g.json = t.idx%2 == 0
		json := g.json
		g.utf8 = json
		var long, short reflect.Type
		for {
			long = g.structType(1 + t.rng.Intn(3))
			cuts := 0
			short = shrink(t.rng, long, &cuts)
			if cuts > 0 {
				break
			}
		}
		ptr := t.rng.Intn(2) == 0
		name := "evo/" + g.str()
		mk := func(rt reflect.Type) *amino.Codec {
			cdc := amino.NewCodec()
			cdc.RegisterInterface((*interface{})(nil), nil)
			if ptr {
				cdc.RegisterConcrete(reflect.New(rt).Interface(), name, nil)
			} else {
				cdc.RegisterConcrete(reflect.New(rt).Elem().Interface(), name, nil)
			}
			return cdc
		}
		cl, cs := mk(long), mk(short)
		s := &spec{u: u} // without registrations: the contents
		t.note("registered %q: long type %v\nshort type %v", name, long, short)
		form := func(v reflect.Value) interface{} {
			if ptr {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				return p.Interface()
			}
			return v.Interface()
		}
		for j := 0; j < 3; j++ {
			for _, up := range []bool{false, true} {
				from, to, cf, ct := long, short, cl, cs
				if up {
					from, to, cf, ct = short, long, cs, cl
				}
				g.budget = 150
				v := g.value(from, fopt{})
				var norm reflect.Value
				var err error
				if json {
					if _, err = s.jtop(v); err == nil {
						norm, err = s.jnormTop(v)
					}
				} else {
					if _, err = s.top(v); err == nil {
						norm, err = s.normTop(v)
					}
				}
				if err != nil {
					t.count("not encodable")
					continue
				}
				// at top, in an interface variable, in a field, in a list
				var in interface{}
				x := form(v)
				out := reflect.Value{}
				get := func(o reflect.Value) interface{} { return o.Interface() }
				where := t.rng.Intn(4)
				switch where {
				case 0:
					in = x
					out = reflect.New(to)
				case 1:
					in = &x
					out = reflect.New(tAny)
				case 2:
					st := reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), ""), fld("I", tAny, ""), fld("Z", reflect.TypeOf(""), "")})
					sv := reflect.New(st).Elem()
					sv.Field(0).SetInt(3)
					sv.Field(1).Set(reflect.ValueOf(x))
					sv.Field(2).SetString("z")
					in = sv.Interface()
					out = reflect.New(st)
					get = func(o reflect.Value) interface{} {
						if o.Field(0).Int() != 3 || o.Field(2).String() != "z" {
							t.failf("the fields around an interface value do not come back: %s", show(o))
						}
						return o.Field(1).Interface()
					}
				case 3:
					in = []interface{}{x, x}
					out = reflect.New(reflect.TypeOf([]interface{}{}))
					get = func(o reflect.Value) interface{} {
						if o.Len() != 2 {
							t.failf("a list of two came back with %d elements", o.Len())
						}
						if d := diff(addr(o.Index(0).Elem()), addr(o.Index(1).Elem())); d != "" {
							t.failf("two equal elements come back different: %s", d)
						}
						return o.Index(1).Interface()
					}
				}
				var bz []byte
				if json {
					bz, err = marshalJSON(cf, in)
				} else {
					bz, err = marshalBare(cf, in)
				}
				if err == nil {
					err, _ = try(func() error {
						if json {
							return ct.UnmarshalJSON(bz, out.Interface())
						}
						return ct.UnmarshalBinaryBare(bz, out.Interface())
					})
				}
				if err != nil {
					t.failf("%s at place %d, encoded as %s, decoded by a codec that knows another version: %v", show(v), where, c18bz(bz, json), err)
				}
				got := reflect.ValueOf(get(out.Elem()))
				if !got.IsValid() {
					t.failf("%s at place %d, encoded as %s: came back as nil", show(v), where, c18bz(bz, json))
				}
				if where > 0 {
					if (got.Kind() == reflect.Ptr) != ptr {
						t.failf("%s at place %d came back as %v, registered with pointer: %v", show(v), where, got.Type(), ptr)
					}
					if ptr {
						got = got.Elem()
					}
				}
				got = addr(got)
				if got.Type() != to {
					t.failf("%s at place %d came back as %v", show(v), where, got.Type())
				}
				if up {
					if d := diff(norm, project(got, from)); d != "" {
						t.failf("%s at place %d, encoded as %s, as the longer version: %s: %s", show(v), where, c18bz(bz, json), show(got), d)
					}
					if d := extrasDefault(got, from, ""); d != "" {
						t.failf("%s at place %d, encoded as %s, as the longer version: %s, which is not encoded", show(v), where, c18bz(bz, json), d)
					}
				} else {
					want := project(norm, to)
					if d := diff(want, got); d != "" {
						t.failf("%s at place %d, encoded as %s, as the shorter version: %s: %s", show(v), where, c18bz(bz, json), show(got), d)
					}
				}
				t.count(fmt.Sprintf("versions of registered types at place %d", where))
				t.evaluated(fmt.Sprint(up, where, long, short, c18bz(bz, json)), true)
			}
		}
	}
}

// wireFields makes well-formed fields with ascending numbers above last.
func wireFields(r *rand.Rand, last uint32) (out []byte) {
	num := last
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			num += uint32(r.Intn(20) + 1)
		case 1:
			num += uint32(r.Intn(1 << 20))
			num++
		default:
			num++
		}
		if num > 1<<29-1 {
			break
		}
		switch r.Intn(5) {
		case 0:
			out = append(append(out, key(num, wVarint)...), uv(genUint(r, 64))...)
		case 1:
			out = append(append(out, key(num, w8)...), le(r.Uint64(), 8)...)
		case 2:
			out = append(append(out, key(num, w4)...), le(r.Uint64(), 4)...)
		default:
			for k := 1 + r.Intn(3)*r.Intn(2); k > 0; k-- {
				b := make([]byte, r.Intn(6))
				if r.Intn(6) == 0 {
					b = make([]byte, r.Intn(300))
				}
				r.Read(b)
				out = append(append(out, key(num, wBytes)...), lp(b)...)
			}
		}
	}
	if num == last || len(out) == 0 {
		out = append(append(out, key(last+1, wVarint)...), 7)
	}
	return
}

// c18unknown: fields after the last one.
func c18unknown(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	st := g.structType(1 + t.rng.Intn(2))
	last := uint32(0)
	for i := 0; i < st.NumField(); i++ {
		if encoded(st.Field(i)) {
			last++
		}
	}
	// the struct, and wrapped in others
	i8 := reflect.TypeOf(int8(0))
	outer := reflect.StructOf([]reflect.StructField{fld("A", i8, ""), fld("S", st, ""), fld("P", reflect.PtrTo(st), ""), fld("L", reflect.SliceOf(st), ""), fld("Z", i8, "")})
	for i := 0; i < 5; i++ {
		g.budget = 100
		v := g.value(st, fopt{})
		body, err := s.top(v)
		if err != nil {
			t.count("not encodable")
			continue
		}
		norm, err := s.normTop(v)
		if err != nil {
			continue
		}
		extra := wireFields(t.rng, last)
		in := append(append([]byte{}, body...), extra...)
		got, err := c18decode(t, u.cdc, in, st)
		if err != nil {
			t.failf("type %v: %x followed by the unknown fields %x: %v", st, body, extra, err)
		}
		if d := diff(norm, got); d != "" {
			t.failf("type %v: %x followed by the unknown fields %x: %s, should be %s: %s", st, body, extra, show(got), show(norm), d)
		}
		t.count("unknown fields skipped")
		t.evaluated(fmt.Sprintf("%v %x", st, in), true)
		// nested
		wrapped := append([]byte{8, 2}, append([]byte{18}, lp(in)...)...)
		wrapped = append(append(wrapped, 26), lp(append(append([]byte{}, body...), wireFields(t.rng, last)...))...)
		for k := 0; k < 2; k++ {
			wrapped = append(append(wrapped, 34), lp(append(append([]byte{}, body...), wireFields(t.rng, last)...))...)
		}
		wrapped = append(wrapped, 40, 4)
		wrapped = append(wrapped, wireFields(t.rng, 5)...)
		got, err = c18decode(t, u.cdc, wrapped, outer)
		if err != nil {
			t.failf("type %v: %x, with unknown fields in every struct: %v", outer, wrapped, err)
		}
		if got.Field(0).Int() != 1 || got.Field(4).Int() != 2 || got.Field(2).IsNil() || got.Field(3).Len() != 2 {
			t.failf("type %v: %x, with unknown fields in every struct: %s", outer, wrapped, show(got))
		}
		for _, x := range []reflect.Value{got.Field(1), got.Field(2).Elem(), got.Field(3).Index(0), got.Field(3).Index(1)} {
			if d := diff(norm, x); d != "" {
				t.failf("type %v: %x, with unknown fields in every struct: %s, should be %s: %s", outer, wrapped, show(x), show(norm), d)
			}
		}
		t.count("nested unknown fields skipped")
		t.evaluated(fmt.Sprintf("%v %x", outer, wrapped), true)
		// malformed
		for k := 0; k < 6; k++ {
			bad := append([]byte{}, extra...)
			why := ""
			switch t.rng.Intn(5) {
			case 0:
				bad = bad[:len(bad)-1-t.rng.Intn(len(bad))]
				if len(bad) == 0 || skipUnknown(bad, last) == nil {
					continue
				}
				why = "cut off"
			case 1:
				bad = append(bad, key(1<<28+uint32(t.rng.Intn(1000)), []int{3, 4, 6, 7}[t.rng.Intn(4)])...)
				bad = append(bad, 0, 0, 0, 0, 0, 0, 0, 0)
				why = "no such wire type"
			case 2:
				bad = append(append(append([]byte{}, key(last+9, wBytes)...), uv(uint64(1+t.rng.Intn(1000)))...))
				why = "no contents"
			case 3:
				bad = append(append([]byte{}, key(last+5, wVarint)...), 1)
				bad = append(append(bad, key(last+1+uint32(t.rng.Intn(5)), wVarint)...), 1)
				why = "out of order"
			case 4:
				bad = append(append([]byte{}, key(last+1, wVarint)...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f)
				why = "varint overflows"
			}
			in := append(append([]byte{}, body...), bad...)
			got, err := c18decode(t, u.cdc, in, st)
			if err == nil {
				t.failf("type %v: %x followed by %x, which is malformed (%s), decodes to %s", st, body, bad, why, show(got))
			}
			w := append([]byte{8, 2, 18}, lp(in)...)
			if got, err := c18decode(t, u.cdc, w, outer); err == nil {
				t.failf("type %v: %x, with malformed unknown fields %x (%s), decodes to %s", outer, w, bad, why, show(got))
			}
			t.count("malformed unknown fields refused")
			t.evaluated(fmt.Sprintf("%v %x", st, in), true)
		}
	}
}

// c18unknownJSON: names the struct does not know, with any values.
func c18unknownJSON(t *T) {
	randomCases(t, genOpts{json: true, utf8: true, richTags: t.idx%3 == 0}, 3, 3, func(b *bcase) {
		if _, err := b.s.jtop(b.v); err != nil {
			return
		}
		norm, err := b.s.jnormTop(b.v)
		if err != nil {
			return
		}
		bz, err := marshalJSON(b.cdc, b.in())
		if err != nil {
			t.failf("MarshalJSON of %s: %v", b, err)
		}
		n, err := jparse(bz)
		if err != nil {
			t.failf("MarshalJSON of %s: %s: %v", b, bz, err)
		}
		added := 0
		c18addFields(t, b, n, b.t, &added)
		if added == 0 {
			return
		}
		in := n.text()
		got, err := unmarshalJSON(b.cdc, []byte(in), b.t)
		if err != nil {
			t.failf("type %v: %s with unknown fields added: %s: %v", b.t, bz, in, err)
		}
		if d := diff(norm, got); d != "" {
			t.failf("type %v: %s with unknown fields added: %s: %s; should be %s: %s", b.t, bz, in, show(got), show(norm), d)
		}
		t.count("JSON unknown fields ignored")
		t.evaluated(fmt.Sprint(b.t, in), true)
	})
}

func (n *jnode) text() string { return string(n.bytes()) }

// randomJSON is any value at all.
func randomJSON(r *rand.Rand, depth int) *jnode {
	k := r.Intn(8)
	if depth <= 0 && k > 5 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return jnull
	case 1:
		return &jnode{kind: jBool, b: r.Intn(2) == 0}
	case 2, 3:
		return jnum(evilNums[r.Intn(len(evilNums))])
	case 4, 5:
		return jstr(evilStrs[r.Intn(len(evilStrs))])
	case 6:
		n := &jnode{kind: jArr}
		for i := r.Intn(4); i > 0; i-- {
			n.arr = append(n.arr, randomJSON(r, depth-1))
		}
		return n
	}
	n := &jnode{kind: jObj}
	for i := r.Intn(4); i > 0; i-- {
		n.set(fmt.Sprintf("%s%d", []string{"", "type", "value", "F"}[r.Intn(4)], i), randomJSON(r, depth-1))
	}
	return n
}

// c18addFields adds unknown names to the objects that stand for structs.
func c18addFields(t *T, b *bcase, n *jnode, rt reflect.Type, added *int) {
	rt = deref(rt)
	if b.u.byType[rt] != nil && n.kind == jObj && len(n.keys) == 2 && n.keys[0] == "type" && rt == deref(b.t) && *added == 0 && n.keys[1] == "value" && n.arr[0].s == b.u.byType[rt].name {
		c18fields(t, b, n.arr[1], rt, added)
		return
	}
	c18fields(t, b, n, rt, added)
}

func c18fields(t *T, b *bcase, n *jnode, rt reflect.Type, added *int) {
	rt = deref(rt)
	if rt == tTime || isJSONMarshaler(rt) || isMarshaler(rt) || n.kind != jObj && n.kind != jArr {
		return
	}
	switch rt.Kind() {
	case reflect.Slice, reflect.Array:
		for _, e := range n.arr {
			c18fields(t, b, e, rt.Elem(), added)
		}
	case reflect.Map:
		for _, e := range n.arr {
			c18fields(t, b, e, rt.Elem(), added)
		}
	case reflect.Struct:
		known := map[string]bool{}
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if !encoded(f) {
				continue
			}
			o := parseTag(f)
			known[o.name] = true
			if e := n.get(o.name); e != nil {
				c18fields(t, b, e, f.Type, added)
			}
		}
		for k := t.rng.Intn(3); k > 0; k-- {
			name := []string{"unknown", "ünknown", "un\"known", "F99", "", "zzz", "type of nothing", "-", "b", "inner"}[t.rng.Intn(10)] + fmt.Sprint(k)
			if known[name] {
				continue
			}
			e := randomJSON(t.rng, 3)
			i := t.rng.Intn(len(n.keys) + 1)
			n.keys = append(append(append([]string{}, n.keys[:i]...), name), n.keys[i:]...)
			n.arr = append(append(append([]*jnode{}, n.arr[:i]...), e), n.arr[i:]...)
			*added++
		}
	}
}
