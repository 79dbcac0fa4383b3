package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

// bcase is one value with what the model says about it.
type bcase struct {
	u   *universe
	s   *spec
	g   *gen
	cdc *amino.Codec
	t   reflect.Type
	v   reflect.Value // addressable
}

func (b *bcase) iface() bool { return b.t.Kind() == reflect.Interface }

// in is what is passed to the encoder: the value, or a pointer to it where it
// has to be one because it is an interface.
func (b *bcase) in() interface{} {
	if b.iface() {
		return b.v.Addr().Interface()
	}
	return b.v.Interface()
}

func (b *bcase) String() string { return fmt.Sprintf("type %v value %s", b.t, show(b.v)) }

func addr(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type()).Elem()
	p.Set(v)
	return p
}

// genOpts vary the generator.
type genOpts struct {
	json, noTimePtr, noMarshaler, noTags, richTags, utf8, bare bool
	depth                                                      int
}

func (o genOpts) apply(g *gen) {
	g.json, g.noTimePtr, g.noMarshaler, g.noTags, g.richTags, g.utf8, g.bare = o.json, o.noTimePtr, o.noMarshaler, o.noTags, o.richTags, o.utf8, o.bare
}

// randomCases: one universe, some types, some values of each.
func randomCases(t *T, o genOpts, types, values int, fn func(b *bcase)) {
	u := newUniverse(t.rng)
	cases(t, u, o, types, values, fn)
}

func cases(t *T, u *universe, o genOpts, types, values int, fn func(b *bcase)) {
	for i := 0; i < types; i++ {
		g := newGen(t.rng, u)
		o.apply(g)
		d := o.depth
		if d == 0 {
			d = 1 + t.rng.Intn(4)
		}
		rt := g.topType(d)
		for j := 0; j < values; j++ {
			g.budget = 300
			b := &bcase{u: u, s: &spec{u: u}, g: g, cdc: u.cdc, t: rt}
			if j == 0 && t.rng.Intn(2) == 0 {
				b.v = reflect.New(rt).Elem()
				g.fixZero(b.v, fopt{})
			} else {
				b.v = g.value(rt, fopt{})
			}
			fn(b)
		}
	}
}

// systematic types: every basic type in every kind of position, with every
// option. They are made by index.
type sysType struct {
	t   reflect.Type
	how string
}

var sysBin, sysJSON []sysType

func init() {
	sysBin = makeSys(false)
	sysJSON = makeSys(true)
}

func fld(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

func makeSys(json bool) (out []sysType) {
	var base []reflect.Type
	base = append(base, scalarTypes...)
	base = append(base, namedScalars...)
	base = append(base, tTime, reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(NFloat(0)))
	base = append(base, marshalers...)
	base = append(base, poolStructs...)
	base = append(base, poolIfaceStructs...)
	base = append(base, poolLists...)
	base = append(base, ifaceTypes...)
	for _, c := range concretes {
		if json || !c.jsonOnly {
			base = append(base, c.rt)
		}
	}
	if json {
		base = append(base, jsonMarshalers...)
	}
	seen := map[reflect.Type]bool{}
	add := func(t reflect.Type, how string) { out = append(out, sysType{t, how}) }
	i8, str := reflect.TypeOf(int8(0)), reflect.TypeOf("")
	for _, b := range base {
		if seen[b] {
			continue
		}
		seen[b] = true
		float := b.Kind() == reflect.Float32 || b.Kind() == reflect.Float64
		uns := ""
		if float {
			uns = `amino:"unsafe"`
		} else {
			add(b, "top")
			if b.Kind() != reflect.Interface {
				add(reflect.PtrTo(b), "*top")
				add(reflect.PtrTo(reflect.PtrTo(b)), "**top")
			}
			if json || listOK(b, posTop) {
				add(reflect.SliceOf(b), "[]top")
				add(reflect.ArrayOf(2, b), "[2]top")
				if b.Kind() != reflect.Interface {
					add(reflect.SliceOf(reflect.PtrTo(b)), "[]*top")
				}
			}
			if json {
				add(reflect.MapOf(str, b), "map top")
			}
		}
		st := func(how string, t reflect.Type, tag string) {
			if float {
				if tag == "" {
					tag = uns
				} else if i := bytes.Index([]byte(tag), []byte(`amino:"`)); i >= 0 {
					tag = tag[:i+7] + "unsafe," + tag[i+7:]
				} else {
					tag += " " + uns
				}
			}
			add(reflect.StructOf([]reflect.StructField{fld("F", t, tag)}), how+" alone")
			add(reflect.StructOf([]reflect.StructField{fld("A", i8, ""), fld("F", t, tag), fld("Z", str, "")}), how)
		}
		for _, tag := range []string{"", `amino:"write_empty"`, `json:",omitempty"`, `binary:"fixed64"`, `binary:"fixed32"`} {
			st("field "+tag, b, tag)
			if b.Kind() != reflect.Interface {
				st("*field "+tag, reflect.PtrTo(b), tag)
			}
			if json || listOK(b, posField) {
				st("[]field "+tag, reflect.SliceOf(b), tag)
			}
		}
		if b.Kind() == reflect.Interface {
			st("[2]field", reflect.ArrayOf(2, b), "")
			st("[][]field", reflect.SliceOf(reflect.SliceOf(b)), "")
			continue
		}
		st("**field", reflect.PtrTo(reflect.PtrTo(b)), "")
		if json || listOK(b, posField) {
			st("[2]field", reflect.ArrayOf(2, b), "")
			st("[2]*field", reflect.ArrayOf(2, reflect.PtrTo(b)), "")
			st("[]*field", reflect.SliceOf(reflect.PtrTo(b)), "")
			st("[]**field", reflect.SliceOf(reflect.PtrTo(reflect.PtrTo(b))), "")
			st("[]*field empty", reflect.SliceOf(reflect.PtrTo(b)), `amino:"empty_elements"`)
			st("[2]field empty", reflect.ArrayOf(2, b), `amino:"empty_elements,write_empty"`)
			st("*[]field", reflect.PtrTo(reflect.SliceOf(b)), "")
			if json || !isList(b) || multiBytes(b) {
				st("[][]field", reflect.SliceOf(reflect.SliceOf(b)), "")
				st("[][2]field", reflect.SliceOf(reflect.ArrayOf(2, b)), "")
			}
		}
		inner := reflect.StructOf([]reflect.StructField{fld("X", b, uns), fld("Y", reflect.PtrTo(b), uns)})
		add(reflect.SliceOf(inner), "[]struct")
		add(reflect.StructOf([]reflect.StructField{fld("A", inner, ""), fld("B", reflect.SliceOf(inner), ""), fld("C", reflect.SliceOf(reflect.PtrTo(inner)), `amino:"empty_elements"`), fld("D", reflect.PtrTo(inner), "")}), "in struct")
	}
	return
}

// sysCases runs values of the systematic type with index idx.
func sysCases(t *T, json bool, values int, fn func(b *bcase)) {
	l := sysBin
	if json {
		l = sysJSON
	}
	st := l[t.idx%len(l)]
	u := newUniverse(t.rng)
	g := newGen(t.rng, u)
	g.json = json
	g.utf8 = json
	t.note("%s of %v", st.how, st.t)
	for j := 0; j < values; j++ {
		g.budget = 150
		b := &bcase{u: u, s: &spec{u: u}, g: g, cdc: u.cdc, t: st.t}
		if j == 0 {
			b.v = reflect.New(st.t).Elem()
			g.fixZero(b.v, fopt{})
		} else {
			b.v = g.value(st.t, fopt{})
		}
		fn(b)
	}
}

type panicErr struct {
	pv interface{}
	st trace
}

func (e *panicErr) Error() string {
	return fmt.Sprintf("PANIC: %v\n%s", e.pv, clip(e.st.String(), 2500))
}

// try calls fn, and returns a panic as an error.
func try(fn func() error) (err error, panicked bool) {
	pv, st := guard(func() { err = fn() })
	if pv != nil {
		return &panicErr{pv, st}, true
	}
	return err, false
}

func marshalBare(cdc *amino.Codec, o interface{}) (bz []byte, err error) {
	err, _ = try(func() (err error) { bz, err = cdc.MarshalBinaryBare(o); return })
	return
}

func unmarshalBare(cdc *amino.Codec, bz []byte, t reflect.Type) (v reflect.Value, err error) {
	p := reflect.New(t)
	err, _ = try(func() error { return cdc.UnmarshalBinaryBare(bz, p.Interface()) })
	return p.Elem(), err
}

func marshalJSON(cdc *amino.Codec, o interface{}) (bz []byte, err error) {
	err, _ = try(func() (err error) { bz, err = cdc.MarshalJSON(o); return })
	return
}

func unmarshalJSON(cdc *amino.Codec, bz []byte, t reflect.Type) (v reflect.Value, err error) {
	p := reflect.New(t)
	err, _ = try(func() error { return cdc.UnmarshalJSON(bz, p.Interface()) })
	return p.Elem(), err
}

// chunkReader delivers data in pieces of random sizes.
type chunkReader struct {
	data   []byte
	rng    *rand.Rand
	max    int
	zeros  bool  // sometimes (0, nil)
	err    error // at the end
	eofNow bool  // return the error with the last bytes
	reads  int
	asked  int // most bytes ever asked for beyond what was delivered
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if len(r.data) == 0 {
		return 0, r.err
	}
	if r.zeros && r.rng.Intn(4) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > r.max {
		n = r.max
	}
	if n > 1 {
		n = 1 + r.rng.Intn(n)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eofNow {
		return n, r.err
	}
	return n, nil
}

func isPanic(err error) bool {
	_, ok := err.(*panicErr)
	return ok
}
