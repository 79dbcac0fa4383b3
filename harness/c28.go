package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C28", run: c28,
		rule:  "encodings of values of random and systematic types, and hostile inputs, are decoded through every entry point into a fresh variable and into variables that hold another value of the type, a value with extra list elements, map entries and capacity, a value in which every bit that can be is set, or what earlier decodings (whole and failed) left there: verdict and value have to be equal, except in fields that are not encoded and absent JSON omitempty fields, which keep their value; a non-nil interface in the target is refused by the binary decoder, or replaced, never merged; JSON in which nothing is omitted, but some values are null, overwrites everything; histories decode one input after the other into the same variable; distinct = distinct (type, input, old value), non-trivial = old values that differ from the result",
		assum: []string{"the old value does not refer to the same memory by two paths", "hooks set all of their receiver; of an omitted nested struct, the fields that are not encoded may be kept or zeroed"}})
}

var tJSONUnmarshaler = typeOf[json.Unmarshaler]()

// hooked types decode themselves.
func hooked(t reflect.Type, js bool) bool {
	if t == tTime {
		return true
	}
	if js && reflect.PtrTo(t).Implements(tJSONUnmarshaler) {
		return true
	}
	_, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino")
	return ok
}

// c28expect changes a and b (clones of the fresh and of the other result)
// where they may differ: fields that are not encoded and empty omitempty
// fields. old is what the target held, or invalid where it held nothing; these
// fields have to be as in old then, if strict.
func c28expect(a, b, old reflect.Value, js, whole, strict bool, path string) string {
	t := a.Type()
	if a.Type() != b.Type() || hooked(t, js) {
		return ""
	}
	some := func(v reflect.Value, f func(v reflect.Value) reflect.Value) reflect.Value {
		if !v.IsValid() {
			return v
		}
		return f(v)
	}
	switch t.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return ""
		}
		return c28expect(a.Elem(), b.Elem(), some(old, func(v reflect.Value) reflect.Value { return v.Elem() }), js, whole, strict, path)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return ""
		}
		x, y := addr(a.Elem()), addr(b.Elem())
		d := c28expect(x, y, reflect.Value{}, js, whole, strict, path)
		if x.Type() == y.Type() {
			a.Set(x)
			b.Set(y)
		}
		return d
	case reflect.Slice, reflect.Array:
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			o := reflect.Value{}
			if t.Kind() == reflect.Array && old.IsValid() {
				o = old.Index(i)
			}
			if d := c28expect(a.Index(i), b.Index(i), o, js, whole, strict, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		for _, k := range a.MapKeys() {
			if y := b.MapIndex(k); y.IsValid() {
				x, y := addr(a.MapIndex(k)), addr(y)
				if d := c28expect(x, y, reflect.Value{}, js, whole, strict, fmt.Sprintf("%s[%v]", path, k)); d != "" {
					return d
				}
				a.SetMapIndex(k, x)
				b.SetMapIndex(k, y)
			}
		}
	case reflect.Struct:
		if path != "" && (a.IsZero() || diff(a, defaultFor(t)) == "") {
			strict = false // may have been omitted as a whole
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			o := parseTag(f)
			x, y := access(a.Field(i)), access(b.Field(i))
			of := some(old, func(v reflect.Value) reflect.Value { return access(v.Field(i)) })
			at := path + "." + f.Name
			switch {
			case f.PkgPath != "" || o.skip:
				if strict && of.IsValid() {
					if d := diff(of, y); d != "" {
						return at + ", which is not encoded, is changed: " + d
					}
				}
				x.Set(reflect.Zero(f.Type))
				y.Set(reflect.Zero(f.Type))
			case js && !whole && o.omitempty && jomit(x) && of.IsValid() && diff(of, y) == "":
				// absent, kept
				x.Set(reflect.Zero(f.Type))
				y.Set(reflect.Zero(f.Type))
			default:
				if d := c28expect(x, y, of, js, whole, strict, at); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

// noIfaces sets all interfaces that decoding could meet to nil.
func noIfaces(v reflect.Value) (n int) {
	if !v.CanSet() {
		return
	}
	if hooked(v.Type(), false) {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			v.Set(reflect.Zero(v.Type()))
			n++
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n += noIfaces(v.Elem())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += noIfaces(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += noIfaces(v.Field(i))
			}
		}
	}
	return
}

// fill sets everything that decoding could fail to overwrite to something
// that is not zero.
func (t *T) fill(v reflect.Value, depth int) {
	if !v.CanSet() || hooked(v.Type(), true) || depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(1<<64 - 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-1.5)
	case reflect.String:
		v.SetString("old")
	case reflect.Slice:
		n := 3
		s := reflect.MakeSlice(v.Type(), n, n+5)
		s.Slice(0, n+5)
		for i := 0; i < n+5; i++ {
			t.fill(s.Slice(0, n+5).Index(i), depth+2)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			t.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		if v.Type().Key().Kind() == reflect.String {
			for _, k := range []string{"", "old", "a"} {
				e := reflect.New(v.Type().Elem()).Elem()
				t.fill(e, depth+2)
				m.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), e)
			}
		}
		v.Set(m)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		t.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			t.fill(access(v.Field(i)), depth+1)
		}
	}
}

type c28way struct {
	name string
	js   bool
	dec  func(cdc *amino.Codec, in []byte, p interface{}) error
}

var c28ways = []c28way{
	{"UnmarshalBinaryBare", false, func(cdc *amino.Codec, in []byte, p interface{}) error { return cdc.UnmarshalBinaryBare(in, p) }},
	{"UnmarshalBinaryLengthPrefixed", false, func(cdc *amino.Codec, in []byte, p interface{}) error {
		return cdc.UnmarshalBinaryLengthPrefixed(lp(in), p)
	}},
	{"UnmarshalBinaryLengthPrefixedReader", false, func(cdc *amino.Codec, in []byte, p interface{}) error {
		_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lp(in)), p, 0)
		return err
	}},
	{"UnmarshalJSON", true, func(cdc *amino.Codec, in []byte, p interface{}) error { return cdc.UnmarshalJSON(in, p) }},
}

// c28one decodes in into a fresh variable and into one that holds old.
func c28one(t *T, b *bcase, in []byte, js bool, old reflect.Value, what string) {
	c28two(t, b, in, js, false, old, what)
}

// c28two is c28one, for JSON in which nothing that may be omitted is omitted,
// if whole.
func c28two(t *T, b *bcase, in []byte, js, whole bool, old reflect.Value, what string) {
	w := c28ways[3]
	if !js {
		w = c28ways[t.rng.Intn(3)]
	}
	t.desc = nil
	t.note("%s of %s\ninto %v that holds %s: %s", w.name, enctext(js, in), b.t, what, show(old))
	f := reflect.New(b.t)
	ferr, fp := try(func() error { return w.dec(b.cdc, in, f.Interface()) })
	q := reflect.New(b.t)
	q.Elem().Set(old)
	was := clone(q.Elem())
	if t.rng.Intn(3) == 0 { // in a list element, with neighbours
		l := reflect.MakeSlice(reflect.SliceOf(b.t), 3, 3)
		l.Index(1).Set(old)
		q = l.Index(1).Addr()
		defer func() {
			if d := diff(reflect.Zero(b.t), l.Index(0)); d != "" {
				t.errorf("the element before the target is changed %s", d)
			}
		}()
	}
	qerr, qp := try(func() error { return w.dec(b.cdc, in, q.Interface()) })
	if fp || qp {
		if fp != qp {
			t.failf("panic: %v; into a fresh variable: %v", qerr, ferr)
		}
		t.count("panicked (left to C05 and C06)")
		return
	}
	if (ferr == nil) != (qerr == nil) {
		if ferr == nil && !js && strings.Contains(what, "interface") {
			t.count("a non-nil interface refused")
			return
		}
		t.failf("error %v; into a fresh variable: %v", qerr, ferr)
	}
	if ferr != nil {
		t.count("refused both")
		return
	}
	x, y := clone(f.Elem()), clone(q.Elem())
	x, y = addr(x), addr(y)
	if d := c28expect(x, y, addr(was), js, whole, !js || string(bytes.TrimSpace(in)) != "null", ""); d != "" {
		t.failf("field %s\nresult %s\nfresh  %s", d, show(q.Elem()), show(f.Elem()))
	}
	if d := diff(x, y); d != "" {
		t.failf("the old value shines through: %s\nresult %s\nfresh  %s", d, show(q.Elem()), show(f.Elem()))
	}
	t.count("equal: " + what)
	t.evaluated(fmt.Sprint(b.t)+string(in)+show(was), diff(was, f.Elem()) != "")
}

// olds makes values for the target.
func (t *T) c28old(b *bcase, js bool) (reflect.Value, string) {
	old := reflect.New(b.t).Elem()
	what := ""
	switch t.rng.Intn(4) {
	case 0:
		t.fill(old, 0)
		return old, "everything set"
	case 1:
		old.Set(clone(b.v))
		what = "the value itself"
	default:
		b.g.budget = 60
		old.Set(b.g.value(b.t, fopt{}))
		what = "another value"
	}
	old = addr(old)
	if !js {
		if t.rng.Intn(4) == 0 {
			c := addr(clone(old))
			if noIfaces(c) > 0 {
				return old, what + ", with interfaces"
			}
		}
		noIfaces(old)
	}
	return old, what
}

func c28case(t *T, b *bcase, js bool) {
	var in []byte
	var err error
	if js {
		in, err = marshalJSON(b.cdc, b.in())
	} else {
		in, err = marshalBare(b.cdc, b.in())
	}
	if err != nil {
		t.count("not encodable (skipped)")
		return
	}
	for i := 0; i < 3; i++ {
		old, what := t.c28old(b, js)
		c28one(t, b, in, js, old, what)
	}
	if js {
		c28nulls(t, b)
	}
}

// c28nulls: nothing is omitted, but some values are null.
func c28nulls(t *T, b *bcase) {
	n, err := (&spec{u: b.u, whole: true}).jtop(b.v)
	if err != nil {
		return
	}
	for i := 0; i < 3; i++ {
		m := n.clone()
		all := jall(m, nil)
		for k := t.rng.Intn(4); k > 0; k-- {
			*all[t.rng.Intn(len(all))] = jnode{kind: jNull}
		}
		old, what := t.c28old(b, true)
		t.count("nothing omitted, with nulls")
		c28two(t, b, m.bytes(), true, true, old, what)
	}
}

// c28history decodes one input after the other into the same variable.
func c28history(t *T, js bool) {
	var bs []*bcase
	randomCases(t, genOpts{json: js, utf8: true, richTags: t.idx%3 == 0}, 1, 8, func(b *bcase) { bs = append(bs, b) })
	b := bs[0]
	var encs [][]byte
	var trees []*jnode
	for _, b := range bs {
		if js {
			if n, err := b.s.jtop(b.v); err == nil {
				trees = append(trees, n)
				encs = append(encs, n.bytes())
			}
		} else if bz, err := marshalBare(b.cdc, b.in()); err == nil {
			encs = append(encs, bz)
		}
	}
	if len(encs) == 0 {
		return
	}
	target := reflect.New(b.t)
	names := jsonNamesOf(b.u)
	for i := 0; i < 14; i++ {
		in := encs[t.rng.Intn(len(encs))]
		if t.rng.Intn(3) == 0 {
			if js {
				in = t.hostileJSON(trees, names)
			} else {
				in = hostile(t.rng, encs)
			}
		}
		if !js {
			noIfaces(target.Elem())
		}
		c28one(t, b, in, js, addr(clone(target.Elem())), "what was decoded before")
		// and go on
		_, _ = try(func() error {
			if js {
				return b.cdc.UnmarshalJSON(in, target.Interface())
			}
			return b.cdc.UnmarshalBinaryBare(in, target.Interface())
		})
	}
}

// c28lists: lists decoded into lists that share memory with others.
func c28capacity(t *T) {
	cdc := amino.NewCodec()
	type el struct {
		A, B int32
		C    string
		D    []byte
	}
	type st struct {
		L []el
		P []*el
		B []byte
		I []int64
		S []string
	}
	back := make([]el, 10)
	bb := make([]byte, 10)
	ib := make([]int64, 10)
	sb := make([]string, 10)
	pb := make([]*el, 10)
	for i := range back {
		back[i], bb[i], ib[i], sb[i], pb[i] = el{7, 8, "old", []byte{9}}, 7, 7, "old", &el{A: 7}
	}
	keep := clone(reflect.ValueOf([]interface{}{back, bb, ib, sb, pb}))
	n := t.rng.Intn(5)
	v := st{L: make([]el, n), B: make([]byte, n), I: make([]int64, n), S: make([]string, n), P: make([]*el, n)}
	for i := 0; i < n; i++ {
		v.P[i] = &el{B: int32(i)}
		v.L[i].A = int32(t.rng.Intn(3))
		v.L[i].D = []byte{1, 2}[:t.rng.Intn(3)]
		v.I[i] = int64(t.rng.Intn(2))
		v.B[i] = byte(t.rng.Intn(2))
		v.S[i] = []string{"", "new"}[t.rng.Intn(2)]
	}
	for _, js := range []bool{false, true} {
		m := 1 + t.rng.Intn(5)
		q := st{back[:m], pb[:m], bb[:m], ib[:m], sb[:m]}
		var f st
		var err error
		if js {
			bz := cdc.MustMarshalJSON(v)
			err = cdc.UnmarshalJSON(bz, &f)
			if err == nil {
				err = cdc.UnmarshalJSON(bz, &q)
			}
		} else {
			bz := cdc.MustMarshalBinaryBare(v)
			err = cdc.UnmarshalBinaryBare(bz, &f)
			if err == nil {
				err = cdc.UnmarshalBinaryBare(bz, &q)
			}
		}
		if err != nil {
			t.failf("decoding: %v", err)
		}
		if d := diff(reflect.ValueOf(f), reflect.ValueOf(q)); d != "" {
			t.failf("json %v: a target with lists: %s", js, d)
		}
		t.evaluated(fmt.Sprint(js, show(reflect.ValueOf(v)), m), true)
	}
	now := reflect.ValueOf([]interface{}{back, bb, ib, sb, pb})
	if d := diff(keep, now); d != "" {
		t.failf("old lists: %s", d)
	}
}

func c28(c *ctx) {
	for _, js := range []bool{false, true} {
		js := js
		name := map[bool]string{false: "binary", true: "JSON"}[js]
		n := len(sysBin)
		if js {
			n = len(sysJSON)
		}
		c.run("systematic "+name, c.n(n), func(t *T) { sysCases(t, js, 3, func(b *bcase) { c28case(t, b, js) }) })
		c.run("random "+name, c.n(1500), func(t *T) {
			randomCases(t, genOpts{json: js, utf8: true, richTags: t.idx%3 == 0}, 4, 3, func(b *bcase) { c28case(t, b, js) })
		})
		c.run("history "+name, c.n(1500), func(t *T) { c28history(t, js) })
	}
	c.run("capacity", c.n(300), c28capacity)
}
