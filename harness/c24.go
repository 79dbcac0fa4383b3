package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C24", run: c24,
		rule:  "struct types with random fields and random options on all of them, and the same struct with one option of one field changed, are filled with the same values: the two encodings are taken apart into fields and may differ in nothing but what the option is documented to change there; both are decoded and compared, also into targets that held something; distinct = distinct (option, type of the field, type, value), non-trivial = those where the option had an effect",
		assum: []string{"options of fields whose types marshal themselves or hold interfaces are only checked for having no effect elsewhere", "of several JSON options only the first is documented"}})
}

// fdef is a struct field under construction.
type fdef struct {
	name  string
	t     reflect.Type
	o     fopt   // name: as given in the tag, or empty
	json  string // other JSON option
	extra string // other tags
	v     reflect.Value
}

func (f *fdef) tag(r *rand.Rand) reflect.StructTag {
	var parts []string
	j := f.o.name
	has := j != ""
	if f.o.omitempty {
		j, has = j+",omitempty", true
	} else if f.json != "" {
		j, has = j+","+f.json, true
	}
	if f.o.skip {
		j, has = "-", true
	}
	if has {
		parts = append(parts, "json:"+strconv.Quote(j))
	}
	switch {
	case f.o.fixed32:
		parts = append(parts, `binary:"fixed32"`)
	case f.o.fixed64:
		parts = append(parts, `binary:"fixed64"`)
	}
	var as []string
	for _, x := range []struct {
		on bool
		s  string
	}{{f.o.unsafe, "unsafe"}, {f.o.writeEmpty, "write_empty"}, {f.o.emptyElems, "empty_elements"}} {
		if x.on {
			as = append(as, x.s)
		}
	}
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	if len(as) > 0 {
		parts = append(parts, "amino:"+strconv.Quote(strings.Join(as, ",")))
	}
	if f.extra != "" {
		parts = append(parts, f.extra)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return reflect.StructTag(strings.Join(parts, " "))
}

func (f *fdef) exported() bool { return f.name[0] >= 'A' && f.name[0] <= 'Z' }

func c24struct(fs []*fdef, r *rand.Rand) reflect.Value {
	var sf []reflect.StructField
	for _, f := range fs {
		x := reflect.StructField{Name: f.name, Type: f.t, Tag: f.tag(r)}
		if !f.exported() {
			x.PkgPath = "main"
		}
		sf = append(sf, x)
	}
	v := reflect.New(reflect.StructOf(sf)).Elem()
	for i, f := range fs {
		access(v.Field(i)).Set(clone(f.v))
	}
	return v
}

// wentry is an entry of an encoded struct.
type wentry struct {
	num uint32
	cl  int
	raw []byte // with the key
	val []byte
}

func wentries(t *T, bz []byte) (out []wentry) {
	in := bz
	for len(bz) > 0 {
		num, cl, n, err := getKey(bz)
		if err != nil {
			t.failf("encoding %x: %v", in, err)
		}
		m := 0
		switch cl {
		case wVarint:
			_, m = binary.Uvarint(bz[n:])
		case w8:
			m = 8
		case w4:
			m = 4
		case wBytes:
			_, m, err = getLp(bz[n:])
		}
		if err != nil || m <= 0 || n+m > len(bz) {
			t.failf("encoding %x: no field at %x (%v)", in, bz, err)
		}
		out = append(out, wentry{num, cl, bz[:n+m], bz[n : n+m]})
		bz = bz[n+m:]
	}
	return
}

// of leaves out or selects the entries of a field.
func entriesOf(es []wentry, num uint32, with bool) (out []byte) {
	for _, e := range es {
		if (e.num == num) == with {
			out = append(out, e.raw...)
		}
	}
	return
}

// fieldNum is the number of the i-th field.
func fieldNum(fs []*fdef, i int) (n uint32) {
	for _, f := range fs[:i+1] {
		if f.exported() && !f.o.skip {
			n++
		}
	}
	return
}

func (f *fdef) jname() string {
	if f.o.name != "" {
		return f.o.name
	}
	return f.name
}

var extraTags = []string{"", "", "", `protobuf:"varint,2"`, `yaml:"-"`, `xml:"a,omitempty" binaryx:"fixed32"`, `Json:"-"`, `json2:"x" amino2:"unsafe"`}

func c24fields(g *gen, n int) (fs []*fdef) {
	r := g.rng
	used := map[string]bool{"": true}
	for i := 0; i < n; i++ {
		f := &fdef{name: fmt.Sprintf("F%d", i), extra: extraTags[r.Intn(len(extraTags))]}
		used[f.name] = true
		if r.Intn(3) == 0 {
			if nm := jsonNames[r.Intn(len(jsonNames))]; !used[nm] && !strings.Contains(nm, ",") && nm != "-" {
				f.o.name = nm
				used[nm] = true
			}
		}
		f.o.omitempty = r.Intn(5) == 0
		if r.Intn(8) == 0 {
			f.json = []string{"string", "other", "omitempt", "OMITEMPTY", " omitempty"}[r.Intn(5)]
		}
		switch r.Intn(6) {
		case 0:
			f.o.fixed32 = true
		case 1:
			f.o.fixed64 = true
		}
		f.o.unsafe, f.o.writeEmpty, f.o.emptyElems = r.Intn(3) == 0, r.Intn(6) == 0, r.Intn(6) == 0
		switch r.Intn(12) {
		case 0:
			f.name = fmt.Sprintf("u%d", i)
			f.t = []reflect.Type{typeOf[int](), typeOf[string](), typeOf[chan int](), typeOf[float64](), typeOf[[]Leaf](), typeOf[map[int]int]()}[r.Intn(6)]
		case 1:
			f.o.skip = true
			f.t = []reflect.Type{typeOf[int](), typeOf[*Leaf](), typeOf[map[int]string](), typeOf[float64](), typeOf[[]string](), tINever}[r.Intn(6)]
		default:
			f.t = g.typ(1, posField, f.o)
		}
		f.v = g.c24value(f)
		fs = append(fs, f)
	}
	return
}

func (g *gen) c24value(f *fdef) reflect.Value {
	v := reflect.New(f.t).Elem()
	switch {
	case g.rng.Intn(5) == 0:
		g.fixZero(v, f.o)
	case !f.exported() || f.o.skip:
		c24any(g.rng, v)
	default:
		g.fill(v, f.o, 2)
	}
	return v
}

// c24any puts something into values that are not encoded.
func c24any(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(r.Int63())
	case reflect.String:
		v.SetString("hidden")
	case reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() {}))
	case reflect.Complex128:
		v.SetComplex(complex(1, 1))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf(1), reflect.Zero(v.Type().Elem()))
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
	case reflect.Interface:
		v.Set(reflect.ValueOf(CSt{A: 9}))
	}
}

// both encodings of a struct; panics count as refusals.
type c24enc struct {
	v      reflect.Value
	bin    []byte
	es     []wentry
	js     *jnode
	jtext  []byte
	be, je error
}

func c24encode(t *T, cdc *amino.Codec, v reflect.Value) (e c24enc) {
	e.v = v
	if e.bin, e.be = marshalBare(cdc, v.Interface()); e.be == nil {
		e.es = wentries(t, e.bin)
	}
	if e.jtext, e.je = marshalJSON(cdc, v.Interface()); e.je == nil {
		n, err := jparse(e.jtext)
		if err != nil || n.kind != jObj {
			t.failf("JSON encoding %s: %v", e.jtext, err)
		}
		e.js = n
	}
	return
}

func cloneDefs(fs []*fdef) (out []*fdef) {
	for _, f := range fs {
		c := *f
		out = append(out, &c)
	}
	return
}

func c24(c *ctx) {
	c.run("options", c.n(8000), func(t *T) {
		u := newUniverse(t.rng)
		for i := 0; i < 4; i++ {
			g := newGen(t.rng, u)
			g.utf8, g.budget = true, 120
			g.noTags = t.rng.Intn(2) == 0
			n := t.rng.Intn(6)
			if t.rng.Intn(8) == 0 {
				n = 14 + t.rng.Intn(4)
			}
			fs := c24fields(g, n)
			for _, op := range c24ops {
				op.fn(t, u.cdc, g, cloneDefs(fs), op.name)
			}
		}
	})
	c.run("fixed", c.n(6000), c24fixed)
	c.run("many fields", c.n(10), c24many)
	c.run("floats in interfaces", c.n(1500), c24floatIfaces)
	c.run("tag syntax", c.n(40), c24syntax)
}

type c24op struct {
	name string
	fn   func(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string)
}

var c24ops = []c24op{
	{"a field more", c24skip},
	{"JSON name", c24rename},
	{"omitempty", c24omit},
	{"no effect", c24none},
	{"write_empty", c24writeEmpty},
	{"empty_elements", c24emptyElems},
	{"unsafe", c24unsafe},
}

func pick(r *rand.Rand, fs []*fdef) int {
	var is []int
	for i, f := range fs {
		if f.exported() && !f.o.skip {
			is = append(is, i)
		}
	}
	if len(is) == 0 {
		return -1
	}
	return is[r.Intn(len(is))]
}

// c24decode decodes both of e into fresh and into dirty targets and returns
// the fresh ones.
func c24decode(t *T, cdc *amino.Codec, g *gen, fs []*fdef, e c24enc) (bin, js reflect.Value) {
	rt := e.v.Type()
	one := func(isJS bool, in []byte) reflect.Value {
		dec := func(p reflect.Value) {
			if err, _ := try(func() error {
				if isJS {
					return cdc.UnmarshalJSON(in, p.Interface())
				}
				return cdc.UnmarshalBinaryBare(in, p.Interface())
			}); err != nil {
				t.failf("type %v value %s: decoding %s: %v", rt, show(e.v), enctext(isJS, in), err)
			}
		}
		p := reflect.New(rt)
		dec(p)
		// what is not encoded keeps its value
		q := reflect.New(rt)
		for i, f := range fs {
			if !f.exported() || f.o.skip {
				c24any(t.rng, access(q.Elem().Field(i)))
				if d := diff(reflect.Zero(f.t), access(p.Elem().Field(i))); d != "" {
					t.failf("type %v: decoding %s sets field %s, which is not encoded, to %s", rt, enctext(isJS, in), f.name, show(p.Elem().Field(i)))
				}
			}
		}
		was := clone(q.Elem())
		dec(q)
		for i, f := range fs {
			a, b := p.Elem().Field(i), q.Elem().Field(i)
			if !f.exported() || f.o.skip {
				a = was.Field(i)
				t.count("fields kept")
			}
			if f.t.Kind() == reflect.Chan || f.t.Kind() == reflect.Func {
				continue
			}
			if d := diff(access(a), access(b)); d != "" {
				t.failf("type %v: decoding %s into a target with fields that are not encoded set: field %s%s", rt, enctext(isJS, in), f.name, d)
			}
		}
		return p.Elem()
	}
	if e.be == nil {
		bin = one(false, e.bin)
	}
	if e.je == nil {
		js = one(true, e.jtext)
	}
	return
}

// c24refuse: both or neither are refused.
func c24verdicts(t *T, name string, a, b c24enc) (bin, js bool) {
	if (a.be == nil) != (b.be == nil) || (a.je == nil) != (b.je == nil) {
		t.failf("%s: type %v value %s is encoded with %v, %v, but type %v with %v, %v", name, a.v.Type(), show(a.v), a.be, a.je, b.v.Type(), b.be, b.je)
	}
	return a.be == nil, a.je == nil
}

func c24same(t *T, name string, a, b c24enc) {
	bin, js := c24verdicts(t, name, a, b)
	if bin && !bytes.Equal(a.bin, b.bin) {
		t.failf("%s: type %v value %s is %x, but type %v is %x", name, a.v.Type(), show(a.v), a.bin, b.v.Type(), b.bin)
	}
	if js && !bytes.Equal(a.jtext, b.jtext) {
		t.failf("%s: type %v value %s is %s, but type %v is %s", name, a.v.Type(), show(a.v), a.jtext, b.v.Type(), b.jtext)
	}
}

func c24fieldsSame(t *T, name string, fs []*fdef, a, b reflect.Value, skip int, tolerant bool) {
	if !a.IsValid() || !b.IsValid() {
		return
	}
	for i, f := range fs {
		if i == skip || f.t.Kind() == reflect.Chan {
			continue
		}
		x, y := access(a.Field(i)), access(b.Field(i))
		if tolerant {
			x, y = nilEmpty(x), nilEmpty(y)
		}
		if d := diff(x, y); d != "" {
			t.failf("%s: types %v and %v are decoded with different %s%s", name, a.Type(), b.Type(), f.name, d)
		}
	}
}

func c24count(t *T, name string, f *fdef, a c24enc, effect bool) {
	t.evaluated(fmt.Sprintf("%s %v %v %s", name, f.t, a.v.Type(), show(a.v)), effect)
	t.count(name)
	if effect {
		t.count(name + ": effect")
	}
}

// c24skip: a field that is not encoded may as well not be there.
func c24skip(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	r := t.rng
	f := &fdef{name: "S", extra: extraTags[r.Intn(len(extraTags))]}
	f.o = fopt{fixed32: r.Intn(2) == 0, unsafe: r.Intn(2) == 0, writeEmpty: r.Intn(2) == 0, emptyElems: r.Intn(2) == 0}
	f.t = []reflect.Type{typeOf[int](), typeOf[string](), typeOf[chan int](), typeOf[float64](), typeOf[[]Leaf](), typeOf[map[int]int](), typeOf[complex128](), tINever, typeOf[*Leaf](), typeOf[interface{}](), typeOf[[][]int](), typeOf[MStr](), typeOf[[]float32]()}[r.Intn(13)]
	if r.Intn(2) == 0 {
		f.name = "s"
		if r.Intn(2) == 0 {
			f.o.name = "S"
		}
	} else {
		f.o.skip = true
	}
	f.v = reflect.New(f.t).Elem()
	c24any(r, f.v)
	at := r.Intn(len(fs) + 1)
	more := append(append(append([]*fdef{}, fs[:at]...), f), fs[at:]...)
	a, b := c24encode(t, cdc, c24struct(fs, r)), c24encode(t, cdc, c24struct(more, r))
	c24same(t, name, a, b)
	ab, aj := c24decode(t, cdc, g, fs, a)
	bb, bj := c24decode(t, cdc, g, more, b)
	for _, p := range [][2]reflect.Value{{ab, bb}, {aj, bj}} {
		if !p[0].IsValid() {
			continue
		}
		for i := range fs {
			k := i
			if i >= at {
				k++
			}
			if fs[i].t.Kind() == reflect.Chan {
				continue
			}
			if d := diff(access(p[0].Field(i)), access(p[1].Field(k))); d != "" {
				t.failf("%s: types %v and %v are decoded with different %s%s", name, a.v.Type(), b.v.Type(), fs[i].name, d)
			}
		}
	}
	// nor does JSON for it matter
	if b.je == nil {
		n := *b.js
		for _, k := range []string{f.name, "-", "S", "s"} {
			if n.get(k) == nil && n.get(strings.ToUpper(k)) == nil {
				n.set(k, jstr("x"))
			}
		}
		p := reflect.New(b.v.Type())
		if err, _ := try(func() error { return cdc.UnmarshalJSON(n.bytes(), p.Interface()) }); err != nil {
			t.failf("%s: type %v: decoding %s: %v", name, b.v.Type(), n.bytes(), err)
		}
		c24fieldsSame(t, name, more, bj, p.Elem(), -1, false)
	}
	c24count(t, name, f, b, a.be == nil)
}

func c24rename(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	i := pick(t.rng, fs)
	if i < 0 {
		return
	}
	old := fs[i].jname()
	ren := cloneDefs(fs)
	nm := []string{"renamed", "Z z", "ñ", "f0", "-x", "<a>", "0", "a.b", `q"q`, "日本"}[t.rng.Intn(10)]
	for _, f := range fs {
		if f.jname() == nm {
			return
		}
	}
	if t.rng.Intn(4) == 0 {
		nm = "" // its own name
	}
	ren[i].o.name = nm
	nm = ren[i].jname()
	a, b := c24encode(t, cdc, c24struct(fs, t.rng)), c24encode(t, cdc, c24struct(ren, t.rng))
	bin, js := c24verdicts(t, name, a, b)
	if bin && !bytes.Equal(a.bin, b.bin) {
		t.failf("%s: types %v and %v with %s: %x and %x", name, a.v.Type(), b.v.Type(), show(a.v), a.bin, b.bin)
	}
	if js {
		want := &jnode{kind: jObj}
		had := false
		for k, key := range a.js.keys {
			if key == old {
				key, had = nm, true
			}
			want.set(key, a.js.arr[k])
		}
		if d := jdiff(want, b.js, ""); d != "" {
			t.failf("%s %q: %s, but %s (%s)", name, nm, a.jtext, b.jtext, d)
		}
		if had != !(fs[i].o.omitempty && jomit(fs[i].v)) {
			t.failf("%s: field %s in %s", name, old, a.jtext)
		}
		// the old name means nothing any more
		if nm != old {
			p := reflect.New(b.v.Type())
			if err, _ := try(func() error { return cdc.UnmarshalJSON(a.jtext, p.Interface()) }); err != nil {
				t.failf("%s: type %v: decoding %s: %v", name, b.v.Type(), a.jtext, err)
			}
			if d := diff(defaultForJSON(fs[i].t), p.Elem().Field(i)); d != "" && !strings.EqualFold(nm, old) {
				t.failf("%s: type %v: decoding %s sets %s to %s", name, b.v.Type(), a.jtext, fs[i].name, show(p.Elem().Field(i)))
			}
		}
	}
	ab, aj := c24decode(t, cdc, g, fs, a)
	bb, bj := c24decode(t, cdc, g, ren, b)
	c24fieldsSame(t, name, fs, ab, bb, -1, false)
	c24fieldsSame(t, name, fs, aj, bj, -1, false)
	c24count(t, name, fs[i], b, js && nm != old)
}

func defaultForJSON(t reflect.Type) reflect.Value { return reflect.Zero(t) }

func c24omit(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	i := pick(t.rng, fs)
	if i < 0 {
		return
	}
	fs[i].json = ""
	om := cloneDefs(fs)
	fs[i].o.omitempty, om[i].o.omitempty = false, true
	a, b := c24encode(t, cdc, c24struct(fs, t.rng)), c24encode(t, cdc, c24struct(om, t.rng))
	if (a.be == nil) != (b.be == nil) || a.be == nil && !bytes.Equal(a.bin, b.bin) {
		t.failf("%s: types %v and %v with %s: %x (%v) and %x (%v)", name, a.v.Type(), b.v.Type(), show(a.v), a.bin, a.be, b.bin, b.be)
	}
	left := jomit(fs[i].v)
	if a.je == nil {
		want := &jnode{kind: jObj}
		for k, key := range a.js.keys {
			if key != fs[i].jname() || !left {
				want.set(key, a.js.arr[k])
			}
		}
		if b.je != nil {
			t.failf("%s: %s, but %v", name, a.jtext, b.je)
		}
		if d := jdiff(want, b.js, ""); d != "" {
			t.failf("%s: %s: %s, but %s (%s)", name, fs[i].name, a.jtext, b.jtext, d)
		}
		_, aj := c24decode(t, cdc, g, fs, a)
		_, bj := c24decode(t, cdc, g, om, b)
		skip := -1
		if left {
			skip = i
			// which is zero, as the value was (but for empty lists and pointers)
			if d := diff(bj.Field(i), reflect.Zero(fs[i].t)); d != "" {
				t.failf("%s: %s is decoded from %s to %s", name, fs[i].name, b.jtext, show(bj.Field(i)))
			}
		}
		c24fieldsSame(t, name, fs, aj, bj, skip, false)
	}
	c24count(t, name, fs[i], b, left)
}

// c24none: options that have no effect on a type.
func c24none(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	i := pick(t.rng, fs)
	if i < 0 {
		return
	}
	f := fs[i]
	if hooksWithin(f.t, nil) {
		return
	}
	alt := cloneDefs(fs)
	b := alt[i]
	b.extra = extraTags[t.rng.Intn(len(extraTags))]
	what := ""
	base := deref(f.t)
	for isList(base) {
		base = deref(base.Elem())
	}
	switch t.rng.Intn(3) {
	case 0:
		switch base.Kind() {
		case reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Interface:
			return
		}
		f.o.fixed32, f.o.fixed64 = false, false
		b.o.fixed32 = t.rng.Intn(2) == 0
		b.o.fixed64 = !b.o.fixed32
		what = "fixed"
	case 1:
		switch base.Kind() {
		case reflect.Float32, reflect.Float64, reflect.Interface, reflect.Map:
			return
		}
		b.o.unsafe = !f.o.unsafe
		what = "unsafe"
	case 2:
		if isList(deref(f.t)) || base.Kind() == reflect.Interface || base.Kind() == reflect.Map {
			return
		}
		b.o.emptyElems = !f.o.emptyElems
		what = "empty_elements"
	}
	x, y := c24encode(t, cdc, c24struct(fs, t.rng)), c24encode(t, cdc, c24struct(alt, t.rng))
	c24same(t, "no effect of "+what, x, y)
	xb, xj := c24decode(t, cdc, g, fs, x)
	yb, yj := c24decode(t, cdc, g, alt, y)
	c24fieldsSame(t, what, fs, xb, yb, -1, false)
	c24fieldsSame(t, what, fs, xj, yj, -1, false)
	c24count(t, name, f, y, true)
}

// hooksWithin: the type marshals itself, or a part that gets its options.
func hooksWithin(t reflect.Type, _ map[reflect.Type]bool) bool {
	for {
		if t != tTime && (isMarshaler(t) || isMarshaler(reflect.PtrTo(t)) || isJSONMarshaler(t) || isJSONMarshaler(reflect.PtrTo(t))) {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			t = t.Elem()
		default:
			return false
		}
	}
}

func c24writeEmpty(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	i := pick(t.rng, fs)
	if i < 0 {
		return
	}
	f := fs[i]
	we := cloneDefs(fs)
	f.o.writeEmpty, we[i].o.writeEmpty = false, true
	if t.rng.Intn(2) == 0 {
		g.fixZero(f.v, f.o)
		if f.t.Kind() == reflect.Ptr && t.rng.Intn(2) == 0 {
			p := reflect.New(f.t).Elem()
			for x := p; x.Kind() == reflect.Ptr; x = x.Elem() {
				x.Set(reflect.New(x.Type().Elem()))
			}
			x := p
			for x.Kind() == reflect.Ptr {
				x = x.Elem()
			}
			g.fixZero(x, f.o)
			f.v = p
		}
		we[i].v = f.v
	}
	a, b := c24encode(t, cdc, c24struct(fs, t.rng)), c24encode(t, cdc, c24struct(we, t.rng))
	if (a.je == nil) != (b.je == nil) || !bytes.Equal(a.jtext, b.jtext) {
		t.failf("%s: %s (%v), but %s (%v)", name, a.jtext, a.je, b.jtext, b.je)
	}
	if a.be != nil {
		return
	}
	if b.be != nil {
		t.failf("%s: %x, but %v", name, a.bin, b.be)
	}
	num := fieldNum(fs, i)
	if x, y := entriesOf(a.es, num, false), entriesOf(b.es, num, false); !bytes.Equal(x, y) {
		t.failf("%s of field %d: %x, but %x: other fields changed", name, num, a.bin, b.bin)
	}
	with, without := entriesOf(b.es, num, true), entriesOf(a.es, num, true)
	effect := len(without) == 0
	switch {
	case !effect:
		if !bytes.Equal(with, without) {
			t.failf("%s of field %d: %x, but %x, though it is not empty", name, num, a.bin, b.bin)
		}
	case hooksWithin(f.t, nil):
	default:
		var want []byte
		d, ok := derefV(f.v)
		switch {
		case !ok || isUnpacked(f.t, f.o): // nothing to write
		case d.Kind() == reflect.Bool || class(f.t, f.o) == wVarint || class(f.t, f.o) == wBytes:
			want = append(key(num, class(f.t, f.o)), 0)
		case class(f.t, f.o) == w8:
			want = append(key(num, w8), make([]byte, 8)...)
		case class(f.t, f.o) == w4:
			want = append(key(num, w4), make([]byte, 4)...)
		}
		if !bytes.Equal(with, want) {
			t.failf("%s of field %d: %x, but %x; want the field to be %x", name, num, a.bin, b.bin, want)
		}
	}
	ab, aj := c24decode(t, cdc, g, fs, a)
	bb, bj := c24decode(t, cdc, g, we, b)
	skip := -1
	if f.t.Kind() == reflect.Ptr && effect {
		skip = i // nil, and pointer to empty
	}
	c24fieldsSame(t, name, fs, ab, bb, skip, true)
	c24fieldsSame(t, name, fs, aj, bj, -1, false)
	c24count(t, name, f, b, effect && len(with) > 0)
}

func c24emptyElems(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	r := t.rng
	// a list of pointers to structs
	et := []reflect.Type{typeOf[*Leaf](), typeOf[*Empty](), typeOf[*LeafP](), typeOf[*Node](), reflect.PtrTo(g.structType(1))}[r.Intn(5)]
	f := &fdef{name: "E", extra: extraTags[r.Intn(len(extraTags))]}
	n := 1 + r.Intn(4)
	f.t = reflect.SliceOf(et)
	if r.Intn(4) == 0 {
		f.t = reflect.ArrayOf(n, et)
	}
	f.o.unsafe, f.o.writeEmpty = r.Intn(2) == 0, r.Intn(4) == 0
	f.v = reflect.New(f.t).Elem()
	if f.t.Kind() == reflect.Slice {
		f.v.Set(reflect.MakeSlice(f.t, n, n))
	}
	hasNil := r.Intn(3) == 0
	empties := map[int]bool{}
	nils := map[int]bool{}
	for i := 0; i < n; i++ {
		e := f.v.Index(i)
		switch k := r.Intn(3); {
		case k == 0 && hasNil:
			nils[i] = true
		case k == 1:
			e.Set(reflect.New(et.Elem()))
			g.fixZero(e.Elem(), fopt{})
			if bz, err := marshalBare(cdc, e.Interface()); err == nil && len(bz) == 0 {
				empties[i] = true
			} else if err != nil {
				return
			}
		default:
			e.Set(reflect.New(et.Elem()))
			g.fill(e.Elem(), fopt{}, 2)
			if bz, err := marshalBare(cdc, e.Interface()); err == nil && len(bz) == 0 {
				empties[i] = true
			}
		}
	}
	at := r.Intn(len(fs) + 1)
	fs = append(append(append([]*fdef{}, fs[:at]...), f), fs[at:]...)
	ee := cloneDefs(fs)
	f.o.emptyElems, ee[at].o.emptyElems = false, true
	a, b := c24encode(t, cdc, c24struct(fs, r)), c24encode(t, cdc, c24struct(ee, r))
	if (a.je == nil) != (b.je == nil) || !bytes.Equal(a.jtext, b.jtext) {
		t.failf("%s: %s (%v), but %s (%v)", name, a.jtext, a.je, b.jtext, b.je)
	}
	if a.be != nil {
		return
	}
	if len(nils) > 0 {
		if b.be == nil {
			t.failf("%s: nil elements of %s are encoded: %x", name, show(f.v), b.bin)
		}
		c24count(t, name, f, a, true)
		return
	}
	if b.be != nil || !bytes.Equal(a.bin, b.bin) {
		t.failf("%s: %s: %x, but %x (%v)", name, show(f.v), a.bin, b.bin, b.be)
	}
	ab, aj := c24decode(t, cdc, g, fs, a)
	bb, bj := c24decode(t, cdc, g, ee, b)
	c24fieldsSame(t, name, fs, aj, bj, -1, false)
	c24fieldsSame(t, name, fs, ab, bb, at, false)
	x, y := ab.Field(at), bb.Field(at)
	if x.Len() != n || y.Len() != n {
		t.failf("%s: %s is decoded to %s, and with the option %s", name, show(f.v), show(x), show(y))
	}
	for i := 0; i < n; i++ {
		if empties[i] {
			if !x.Index(i).IsNil() || y.Index(i).IsNil() {
				t.failf("%s: element %d of %s is decoded to %s, and with the option to %s", name, i, show(f.v), show(x.Index(i)), show(y.Index(i)))
			}
			if z, err := unmarshalBare(cdc, nil, et.Elem()); err != nil || diff(z, y.Index(i).Elem()) != "" {
				t.failf("%s: element %d of %s is decoded to %s", name, i, show(f.v), show(y.Index(i)))
			}
			continue
		}
		if x.Index(i).IsNil() || y.Index(i).IsNil() {
			t.failf("%s: element %d of %s is decoded to nil", name, i, show(f.v))
		}
		if d := diff(x.Index(i), y.Index(i)); d != "" {
			t.failf("%s: element %d of %s: %s", name, i, show(f.v), d)
		}
	}
	c24count(t, name, f, b, len(empties) > 0)
}

func c24unsafe(t *T, cdc *amino.Codec, g *gen, fs []*fdef, name string) {
	t.desc = nil
	r := t.rng
	f := &fdef{name: "U", extra: extraTags[r.Intn(len(extraTags))], t: []reflect.Type{typeOf[float32](), typeOf[float64](), typeOf[NFloat](), typeOf[*float64](), typeOf[[]float32](), typeOf[[3]float64](), typeOf[[]*float64](), typeOf[**float32](), typeOf[[]NFloat]()}[r.Intn(9)]}
	f.o = fopt{fixed32: r.Intn(4) == 0, writeEmpty: r.Intn(3) == 0, omitempty: r.Intn(4) == 0}
	f.v = reflect.New(f.t).Elem()
	var floats []float64
	present := 0 // not nil
	g.fill(f.v, fopt{unsafe: true}, 1)
	var walk func(v reflect.Value)
	var bits func(x float64) []byte = func(x float64) []byte { return le(math.Float64bits(x), 8) }
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			} else {
				floats = append(floats, 0)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		default:
			if v.Kind() == reflect.Float32 {
				bits = func(x float64) []byte { return le(uint64(math.Float32bits(float32(x))), 4) }
			}
			floats = append(floats, v.Float())
			present++
		}
	}
	walk(f.v)
	at := r.Intn(len(fs) + 1)
	fs = append(append(append([]*fdef{}, fs[:at]...), f), fs[at:]...)
	un := cloneDefs(fs)
	un[at].o.unsafe = true
	a, b := c24encode(t, cdc, c24struct(fs, r)), c24encode(t, cdc, c24struct(un, r))
	rest := c24encode(t, cdc, c24struct(append(append([]*fdef{}, fs[:at]...), fs[at+1:]...), r))
	nilP := f.t.Kind() == reflect.Ptr && func() bool { _, ok := derefV(f.v); return !ok }()
	empty := nilP || isList(f.t) && len(floats) == 0
	k := f.t.Kind()
	direct := k == reflect.Float32 || k == reflect.Float64
	if a.be == nil && (direct || !empty) || a.je == nil && (direct || present > 0 && !(f.o.omitempty && jomit(f.v))) {
		t.failf("%s: without it %s is encoded to %x (%v) and %s (%v)", name, show(f.v), a.bin, a.be, a.jtext, a.je)
	}
	if rest.be != nil {
		return
	}
	if b.be != nil {
		t.failf("%s: %s: %v", name, show(b.v), b.be)
	}
	num := fieldNum(fs, at)
	var want, body []byte
	for _, x := range floats {
		body = append(body, bits(x)...)
	}
	switch {
	case nilP:
	case isList(f.t):
		if !empty || f.o.writeEmpty {
			want = append(key(num, wBytes), lp(body)...)
		}
	case len(body) == 8:
		want = append(key(num, w8), body...)
	default:
		want = append(key(num, w4), body...)
	}
	if got := entriesOf(b.es, num, true); !bytes.Equal(got, want) {
		t.failf("%s: field %d of %s: %x, want %x (all: %x)", name, num, show(b.v), got, want, b.bin)
	}
	c24decode(t, cdc, g, un, b)
	c24count(t, name, f, b, !empty)
	c24inside(t, cdc, r, a, b)
	c24inside(t, cdc, r, b, a)
}

// c24inside: options of a field do not hold in the structs in it. other has
// the same fields with other options.
func c24inside(t *T, cdc *amino.Codec, r *rand.Rand, a, other c24enc) {
	tag := []string{`amino:"unsafe"`, `amino:"unsafe,write_empty"`, `amino:"empty_elements,unsafe"`, `binary:"fixed64" amino:"unsafe"`, `binary:"fixed32" amino:"unsafe" json:"O"`, ``, `binary:"fixed64"`, `amino:"empty_elements"`}[r.Intn(8)]
	mk := func(a c24enc, form int) reflect.Value {
		v := a.v
		switch form {
		case 1:
			v = mkPtr(v)
		case 2:
			v = mkSlice(v.Type(), v)
		case 3:
			p := mkPtr(v)
			v = mkSlice(p.Type(), p)
		case 4:
			ar := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
			ar.Index(0).Set(v)
			v = ar
		}
		return mkStruct([]reflect.StructField{fld("O", v.Type(), tag), fld("E", typeOf[int8](), "")}, 0, v)
	}
	form := r.Intn(5)
	v := mk(a, form)
	bin, be := marshalBare(cdc, v.Interface())
	if (be == nil) != (a.be == nil) {
		t.failf("%s is encoded to %x (%v), but %s, which has it in a field with the tag %s, to %x (%v)", show(a.v), a.bin, a.be, v.Type(), tag, bin, be)
	}
	if be == nil && len(a.bin) > 0 && !bytes.Equal(bin, append(key(1, wBytes), lp(a.bin)...)) {
		t.failf("%s is encoded to %x, but %s, which has it in a field with the tag %s, to %x", show(a.v), a.bin, v.Type(), tag, bin)
	}
	js, je := marshalJSON(cdc, v.Interface())
	if (je == nil) != (a.je == nil) {
		t.failf("%s is encoded to %s (%v), but %s, which has it in a field with the tag %s, to %s (%v)", show(a.v), a.jtext, a.je, v.Type(), tag, js, je)
	}
	wrapJSON := func(in []byte) []byte {
		if form >= 2 {
			in = []byte("[" + string(in) + "]")
		}
		return []byte(`{"O":` + string(in) + `,"E":0}`)
	}
	if je == nil && !bytes.Equal(js, wrapJSON(a.jtext)) {
		t.failf("%s is encoded to %s, but %s, which has it in a field with the tag %s, to %s", show(a.v), a.jtext, v.Type(), tag, js)
	}
	// What the other is encoded to is decoded the same as well.
	if other.be == nil && len(other.bin) > 0 {
		_, e1 := unmarshalBare(cdc, other.bin, a.v.Type())
		_, e2 := unmarshalBare(cdc, append(key(1, wBytes), lp(other.bin)...), v.Type())
		if (e1 == nil) != (e2 == nil) {
			t.failf("decoding %x as %v: %v, but in a field of %v: %v", other.bin, a.v.Type(), e1, v.Type(), e2)
		}
	}
	if other.je == nil {
		_, e1 := unmarshalJSON(cdc, other.jtext, a.v.Type())
		_, e2 := unmarshalJSON(cdc, wrapJSON(other.jtext), v.Type())
		if (e1 == nil) != (e2 == nil) {
			t.failf("decoding %s as %v: %v, but in a field of %v: %v", other.jtext, a.v.Type(), e1, v.Type(), e2)
		}
	}
	t.count("structs in fields with options")
}

// c24fixed: integers of fixed width.
func c24fixed(t *T) {
	u := newUniverse(t.rng)
	r := t.rng
	for k := 0; k < 4; k++ {
		t.desc = nil
		g := newGen(r, u)
		g.utf8, g.budget = true, 60
		fs := c24fields(g, r.Intn(4))
		at := r.Intn(len(fs) + 1)
		is64 := r.Intn(2) == 0
		ts := []reflect.Type{typeOf[int32](), typeOf[uint32](), typeOf[NInt32](), typeOf[NUint32]()}
		n := 4
		if is64 {
			ts = []reflect.Type{typeOf[int64](), typeOf[uint64](), typeOf[NInt64](), typeOf[NUint64]()}
			n = 8
		}
		et := ts[r.Intn(4)]
		f := &fdef{name: "X", extra: extraTags[r.Intn(len(extraTags))]}
		switch r.Intn(8) {
		case 0, 1, 2:
			f.t = et
		case 3:
			f.t = reflect.PtrTo(et)
		case 4:
			f.t = reflect.SliceOf(et)
		case 5:
			f.t = reflect.ArrayOf(1+r.Intn(3), et)
		case 6:
			f.t = reflect.SliceOf(reflect.PtrTo(et))
		case 7:
			f.t = reflect.PtrTo(reflect.PtrTo(et))
		}
		f.o.writeEmpty, f.o.omitempty, f.o.unsafe = r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(4) == 0
		f.v = reflect.New(f.t).Elem()
		if r.Intn(6) != 0 {
			g.fill(f.v, fopt{}, 2)
		}
		var vals []uint64
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr:
				if v.IsNil() {
					vals = append(vals, 0)
				} else {
					walk(v.Elem())
				}
			case reflect.Slice, reflect.Array:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			case reflect.Int32, reflect.Int64:
				vals = append(vals, uint64(v.Int()))
			default:
				vals = append(vals, v.Uint())
			}
		}
		walk(f.v)
		fs = append(append(append([]*fdef{}, fs[:at]...), f), fs[at:]...)
		right, wrong := cloneDefs(fs), cloneDefs(fs)
		right[at].o.fixed32, right[at].o.fixed64 = !is64, is64
		wrong[at].o.fixed32, wrong[at].o.fixed64 = is64, !is64
		cdc := u.cdc
		a, b, w := c24encode(t, cdc, c24struct(fs, r)), c24encode(t, cdc, c24struct(right, r)), c24encode(t, cdc, c24struct(wrong, r))
		c24same(t, "fixed width of another size", a, w)
		if (a.je == nil) != (b.je == nil) || !bytes.Equal(a.jtext, b.jtext) {
			t.failf("fixed: %s (%v), but %s (%v)", a.jtext, a.je, b.jtext, b.je)
		}
		if a.be != nil {
			continue
		}
		if b.be != nil {
			t.failf("fixed: %x, but %v", a.bin, b.be)
		}
		num := fieldNum(fs, at)
		if x, y := entriesOf(a.es, num, false), entriesOf(b.es, num, false); !bytes.Equal(x, y) {
			t.failf("fixed of field %d: %x, but %x: other fields changed", num, a.bin, b.bin)
		}
		var body, vbody, want, vwant []byte
		for _, x := range vals {
			body = append(body, le(x, n)...)
			if !is64 && deref(et).Kind() == reflect.Uint32 {
				x = uint64(uint32(x))
			}
			vbody = append(vbody, uv(x)...)
		}
		_, ok := derefV(f.v)
		switch {
		case !ok && !isList(f.t):
		case isList(f.t):
			if len(vals) > 0 || f.o.writeEmpty {
				want, vwant = append(key(num, wBytes), lp(body)...), append(key(num, wBytes), lp(vbody)...)
			}
		case vals[0] != 0 || f.o.writeEmpty:
			cl := w4
			if is64 {
				cl = w8
			}
			want, vwant = append(key(num, cl), body...), append(key(num, wVarint), vbody...)
		}
		if got := entriesOf(b.es, num, true); !bytes.Equal(got, want) {
			t.failf("fixed: field %d of %s is %x, want %x (all: %x)", num, show(b.v), got, want, b.bin)
		}
		if got := entriesOf(a.es, num, true); !bytes.Equal(got, vwant) {
			t.failf("not fixed: field %d of %s is %x, want %x (all: %x)", num, show(a.v), got, vwant, a.bin)
		}
		ab, aj := c24decode(t, cdc, g, fs, a)
		bb, bj := c24decode(t, cdc, g, right, b)
		c24fieldsSame(t, "fixed", fs, ab, bb, -1, false)
		c24fieldsSame(t, "fixed", fs, aj, bj, -1, false)
		// one form is not accepted for the other
		if len(want) > 0 && !isList(f.t) {
			for _, p := range [][2]c24enc{{a, b}, {b, a}} {
				x := reflect.New(p[0].v.Type())
				if err, _ := try(func() error { return cdc.UnmarshalBinaryBare(p[1].bin, x.Interface()) }); err == nil {
					t.failf("fixed: %x is accepted for %v", p[1].bin, p[0].v.Type())
				}
			}
		}
		c24count(t, "fixed", f, b, len(want) > 0)
	}
}

// c24many: field numbers of two and three bytes.
func c24many(t *T) {
	n := 2100 + t.rng.Intn(10)
	var fs []*fdef
	for i := 0; i < n; i++ {
		f := &fdef{name: fmt.Sprintf("F%d", i), t: typeOf[uint16](), v: reflect.New(typeOf[uint16]()).Elem()}
		if t.rng.Intn(3) == 0 {
			f.v.SetUint(uint64(t.rng.Intn(300)))
		}
		switch t.rng.Intn(20) {
		case 0:
			f.o.skip = true
		case 1:
			f.name = fmt.Sprintf("f%d", i)
		case 2:
			f.o.writeEmpty = true
		}
		fs = append(fs, f)
	}
	var want []byte
	for i, f := range fs {
		if f.exported() && !f.o.skip && (f.v.Uint() != 0 || f.o.writeEmpty) {
			want = append(append(want, key(fieldNum(fs, i), wVarint)...), uv(f.v.Uint())...)
		}
	}
	cdc := amino.NewCodec()
	e := c24encode(t, cdc, c24struct(fs, t.rng))
	if !bytes.Equal(e.bin, want) {
		t.failf("struct with %d fields: %x (%v), want %x", n, e.bin, e.be, want)
	}
	v, _ := c24decode(t, cdc, nil, fs, e)
	for i, f := range fs {
		if f.exported() && !f.o.skip && v.Field(i).Uint() != f.v.Uint() {
			t.failf("field %d of %d is decoded to %d, not %d", i, n, v.Field(i).Uint(), f.v.Uint())
		}
	}
	c24count(t, "many fields", fs[0], e, true)
}

// c24syntax: what the tags may look like.
func c24syntax(t *T) {
	cdc := amino.NewCodec()
	type enc struct {
		tag string
		bin []byte
		js  string
	}
	check := func(et reflect.Type, x interface{}, es []enc) {
		for _, e := range es {
			t.desc = nil
			rt := reflect.StructOf([]reflect.StructField{fld("A", typeOf[uint8](), ""), fld("Fd", et, e.tag), fld("Z", typeOf[uint8](), "")})
			v := reflect.New(rt).Elem()
			v.Field(0).SetUint(1)
			v.Field(1).Set(reflect.ValueOf(x))
			v.Field(2).SetUint(2)
			z := byte(3)
			if strings.Contains(" "+e.tag, ` json:"-"`) {
				z = 2
			}
			want := append(append([]byte{8, 1}, e.bin...), z<<3, 2)
			bz, err := marshalBare(cdc, v.Interface())
			if err != nil || !bytes.Equal(bz, want) {
				t.failf("tag %q on %v: %x (%v), want %x", e.tag, et, bz, err, want)
			}
			wj := `{"A":1,` + e.js + `"Z":2}`
			js, err := marshalJSON(cdc, v.Interface())
			if err != nil || string(js) != wj {
				t.failf("tag %q on %v: %s (%v), want %s", e.tag, et, js, err, wj)
			}
			for _, isJS := range []bool{false, true} {
				p := reflect.New(rt)
				in := bz
				err, _ := try(func() error {
					if isJS {
						in = js
						return cdc.UnmarshalJSON(js, p.Interface())
					}
					return cdc.UnmarshalBinaryBare(bz, p.Interface())
				})
				back := v
				if !bytes.Contains(in, []byte("Fd")) && (isJS && e.js == "" || !isJS && len(e.bin) == 0) {
					back = clone(v)
					back.Field(1).Set(reflect.Zero(et))
				}
				if d := diff(back, p.Elem()); err != nil || d != "" {
					t.failf("tag %q on %v: decoding %s: %v, %s", e.tag, et, enctext(isJS, in), err, d)
				}
			}
			t.count("tag forms")
			t.evaluated(fmt.Sprintf("%v %s %v", et, e.tag, x), true)
		}
	}
	v32 := []byte{0x10, 5}
	f32 := []byte{0x15, 5, 0, 0, 0}
	check(typeOf[int32](), int32(5), []enc{
		{``, v32, `"Fd":5,`},
		{`json:""`, v32, `"Fd":5,`},
		{`json:","`, v32, `"Fd":5,`},
		{`json:"-"`, nil, ``},
		{`json:"x"`, v32, `"x":5,`},
		{`json:"-,"`, v32, `"-":5,`},
		{`json:"-,omitempty"`, v32, `"-":5,`},
		{`json:"-,string"`, v32, `"-":5,`},
		{`json:"--"`, v32, `"--":5,`},
		{`json:"-x"`, v32, `"-x":5,`},
		{`json:" -"`, v32, `" -":5,`},
		{`json:"x,"`, v32, `"x":5,`},
		{`json:",string"`, v32, `"Fd":5,`},
		{`json:"x,omitempty"`, v32, `"x":5,`},
		{`json:" x "`, v32, `" x ":5,`},
		{`json:"-" binary:"fixed32"`, nil, ``},
		{`binary:"fixed32"`, f32, `"Fd":5,`},
		{`binary:"fixed64"`, v32, `"Fd":5,`},
		{`binary:"varint"`, v32, `"Fd":5,`},
		{`binary:""`, v32, `"Fd":5,`},
		{`binary:"fixed32" json:"y"`, f32, `"y":5,`},
		{`json:"y" amino:"unsafe,write_empty,empty_elements" binary:"fixed32"`, f32, `"y":5,`},
		{`amino:"unsafe"`, v32, `"Fd":5,`},
		{`amino:"fixed32"`, v32, `"Fd":5,`},
		{`amino:"-"`, v32, `"Fd":5,`},
		{`binary:"-"`, v32, `"Fd":5,`},
		{`amino:"omitempty"`, v32, `"Fd":5,`},
		{`json:"fixed32"`, v32, `"fixed32":5,`},
		{`xjson:"-"`, v32, `"Fd":5,`},
	})
	check(typeOf[int32](), int32(0), []enc{
		{``, nil, `"Fd":0,`},
		{`json:",omitempty"`, nil, ``},
		{`json:"omitempty"`, nil, `"omitempty":0,`},
		{`amino:"write_empty"`, []byte{0x10, 0}, `"Fd":0,`},
		{`amino:"unsafe,write_empty"`, []byte{0x10, 0}, `"Fd":0,`},
		{`amino:"write_empty,unsafe"`, []byte{0x10, 0}, `"Fd":0,`},
		{`amino:"empty_elements,write_empty,other"`, []byte{0x10, 0}, `"Fd":0,`},
		{`amino:"write_emptyx"`, nil, `"Fd":0,`},
		{`amino:"xwrite_empty"`, nil, `"Fd":0,`},
		{`amino:"write_empty" json:",omitempty"`, []byte{0x10, 0}, ``},
		{`json:"write_empty"`, nil, `"write_empty":0,`},
		{`binary:"write_empty"`, nil, `"Fd":0,`},
		{`binary:"fixed32" amino:"write_empty"`, []byte{0x15, 0, 0, 0, 0}, `"Fd":0,`},
		{`binary:"fixed32"`, nil, `"Fd":0,`},
		{`json:"-" amino:"write_empty"`, nil, ``},
	})
	check(typeOf[uint64](), uint64(5), []enc{
		{`binary:"fixed64"`, []byte{0x11, 5, 0, 0, 0, 0, 0, 0, 0}, `"Fd":"5",`},
		{`binary:"fixed32"`, v32, `"Fd":"5",`},
	})
	for _, k := range []int8{1, 2} { // floats
		for _, tag := range []string{`amino:"unsafe"`, `amino:"write_empty,unsafe"`, `amino:"unsafe" json:"Fd"`} {
			check(typeOf[float64](), float64(k), []enc{{tag, append([]byte{0x11}, le(math.Float64bits(float64(k)), 8)...), fmt.Sprintf(`"Fd":%d,`, k)}})
			check(typeOf[float32](), float32(k), []enc{{tag, append([]byte{0x15}, le(uint64(math.Float32bits(float32(k))), 4)...), fmt.Sprintf(`"Fd":%d,`, k)}})
		}
		for _, tag := range []string{``, `amino:"Unsafe"`, `amino:"unsafe2"`, `json:"unsafe"`, `binary:"unsafe"`, `amino:"write_empty"`} {
			for _, ft := range []reflect.Type{typeOf[float64](), typeOf[float32](), typeOf[NFloat]()} {
				v := reflect.New(reflect.StructOf([]reflect.StructField{fld("F", ft, tag)})).Elem()
				v.Field(0).SetFloat(float64(k))
				if bz, err := marshalBare(cdc, v.Interface()); err == nil {
					t.failf("tag %q on %v: %x", tag, ft, bz)
				}
				if bz, err := marshalJSON(cdc, v.Interface()); err == nil {
					t.failf("tag %q on %v: %s", tag, ft, bz)
				}
				t.count("tag forms")
			}
		}
	}
}

// c24floatIfaces: the options of a field are in effect for what its
// interfaces hold.
func c24floatIfaces(t *T) {
	r := t.rng
	u := newUniverse(r)
	for _, x := range []interface{}{CFloat(0), CFloat32(0)} {
		name := fmt.Sprintf("c24/%T", x)
		u.add(reflect.TypeOf(x), name, false)
		u.cdc.RegisterConcrete(x, name, nil)
	}
	s := &spec{u: u}
	for k := 0; k < 8; k++ {
		t.desc = nil
		var x interface{} = CFloat(float64(r.Intn(9)) / 4)
		if r.Intn(2) == 0 {
			x = CFloat32(float32(r.Intn(9)) / 4)
		}
		ts := []reflect.Type{tI1, tAny, typeOf[[]I1](), typeOf[[2]interface{}](), typeOf[map[string]I1](), typeOf[**[1]I1]()}
		ft := ts[r.Intn(len(ts))]
		js := ft.Kind() == reflect.Map || r.Intn(2) == 0
		fv := reflect.New(ft).Elem()
		for _, set := range []reflect.Value{fv} {
			for set.Kind() == reflect.Ptr {
				set.Set(reflect.New(set.Type().Elem()))
				set = set.Elem()
			}
			if r.Intn(4) == 0 {
				p := reflect.New(reflect.TypeOf(x))
				p.Elem().Set(reflect.ValueOf(x))
				x = p.Interface()
			}
			xv := reflect.ValueOf(x)
			switch set.Kind() {
			case reflect.Slice:
				set.Set(reflect.MakeSlice(ft, 1+r.Intn(3), 4))
				set.Index(r.Intn(set.Len())).Set(xv)
			case reflect.Array:
				set.Index(r.Intn(set.Len())).Set(xv)
			case reflect.Map:
				set.Set(reflect.MakeMap(ft))
				set.SetMapIndex(reflect.ValueOf("k"), xv)
			default:
				set.Set(xv)
			}
		}
		// the same with and without the option
		mk := func(tag string) reflect.Value {
			outer := reflect.StructOf([]reflect.StructField{fld("A", typeOf[int8](), ""), fld("X", ft, tag), fld("Z", typeOf[string](), "")})
			v := reflect.New(outer).Elem()
			v.Field(0).SetInt(3)
			v.Field(1).Set(fv)
			v.Field(2).SetString("z")
			return v
		}
		yes := mk([]string{`amino:"unsafe"`, `amino:"write_empty,unsafe"`, `amino:"unsafe" binary:"fixed64"`}[r.Intn(3)])
		no := mk([]string{``, `amino:"write_empty"`, `binary:"fixed64"`, `json:"X,omitempty"`}[r.Intn(4)])
		t.note("%s", show(yes))
		enc, dec, want := marshalBare, unmarshalBare, s.top
		if js {
			enc, dec = marshalJSON, unmarshalJSON
		}
		bz, err := enc(u.cdc, yes.Interface())
		if err != nil {
			t.failf("%s is not encoded although it is marked unsafe: %v", show(yes), err)
		}
		if !js {
			if w, err := want(yes); err != nil || !bytes.Equal(w, bz) {
				t.failf("%s is encoded to %x, want %x (%v)", show(yes), bz, w, err)
			}
		}
		back, err := dec(u.cdc, bz, yes.Type())
		if err != nil {
			t.failf("%s, the encoding of %s, does not decode: %v", enctext(js, bz), show(yes), err)
		}
		b2, err := enc(u.cdc, back.Interface())
		if err != nil || !bytes.Equal(bz, b2) {
			t.failf("%s decodes to %s, that is encoded to %s %v", enctext(js, bz), show(back), enctext(js, b2), err)
		}
		if bz, err := enc(u.cdc, no.Interface()); err == nil {
			t.failf("%s is encoded to %s without being marked unsafe", show(no), enctext(js, bz))
		}
		if v, err := dec(u.cdc, bz, no.Type()); err == nil {
			t.failf("%s decodes to %s, floats not marked unsafe", enctext(js, bz), show(v))
		}
		t.evaluated(fmt.Sprintf("%v %v %T", js, ft, x), true)
		t.count("floats in interfaces")
	}
}
