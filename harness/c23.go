package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"time"
	"unsafe"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C23", run: c23,
		rule:  "a value of every kind that has no encoding is put at every position of enclosing values (all combinations of three positions, random compositions with random neighbours), and every encoder is run: each has to fail, a writer must not be written to, and the same place with something encodable there is encoded; afterwards values recorded before encode and decode on the codec as they did; spoiled random values are refused exactly where the reference encoder refuses; distinct = distinct (kind, positions, format), non-trivial = those whose control was encoded",
		assum: []string{"values that are left out by documented rules (nil, empty maps and lists of such a type, json \"-\", omitempty) are not unencodable", "lists of lists are refused outside of struct fields only"}})
}

// types whose representation or registration has no encoding
type (
	BadReprChan  struct{ X int }
	BadReprFunc  struct{ X int }
	BadReprErr   struct{ X int }
	BadReprIface struct{ X int }
	BadReprTime  struct{ X int }
	BadReprFloat struct{ X int }
	BadJSONErr   struct{ X int }
	CBad         struct { // registered, without encoding unless empty
		A int
		F func()
		C *chan int
		M map[int]int
	}
	CBadRepr struct{ X int }
)

var errBadHook = errors.New("the hook's own error")

func (BadReprChan) MarshalAmino() (chan int, error) { return make(chan int), nil }
func (*BadReprChan) UnmarshalAmino(chan int) error  { return nil }
func (BadReprFunc) MarshalAmino() (struct{ F func() }, error) {
	return struct{ F func() }{func() {}}, nil
}
func (*BadReprFunc) UnmarshalAmino(struct{ F func() }) error { return nil }
func (BadReprErr) MarshalAmino() (string, error)             { return "partial", errBadHook }
func (*BadReprErr) UnmarshalAmino(string) error              { return nil }
func (BadReprIface) MarshalAmino() (struct{ I I1 }, error)   { return struct{ I I1 }{(*CSt)(nil)}, nil }
func (*BadReprIface) UnmarshalAmino(struct{ I I1 }) error    { return nil }
func (BadReprTime) MarshalAmino() (time.Time, error)         { return time.Unix(1<<50, 0), nil }
func (*BadReprTime) UnmarshalAmino(time.Time) error          { return nil }
func (BadReprFloat) MarshalAmino() (struct{ F []float64 }, error) {
	return struct{ F []float64 }{[]float64{1}}, nil
}
func (*BadReprFloat) UnmarshalAmino(struct{ F []float64 }) error { return nil }
func (BadJSONErr) MarshalJSON() ([]byte, error)                  { return []byte(`"partial"`), errBadHook }
func (*BadJSONErr) UnmarshalJSON([]byte) error                   { return nil }
func (CFloat) Is1()                                              {}
func (CFloat) Is2()                                              {}
func (CFloat32) Is1()                                            {}
func (CBad) Is1()                                                {}
func (CBadRepr) Is1()                                            {}
func (CBadRepr) MarshalAmino() (CBad, error)                     { return CBad{M: map[int]int{1: 1}}, nil }
func (*CBadRepr) UnmarshalAmino(CBad) error                      { return nil }

// badKind is something that has no encoding.
type badKind struct {
	name     string
	bin, js  bool
	notField bool                           // has an encoding directly as struct field
	zero     bool                           // a zero value
	tag      string                         // the field needs it
	v        func(r *rand.Rand) interface{} // wrapped in a pointer if it is an interface
	good     interface{}                    // something encodable of the same type
}

func ptrTo[T any](x T) *T { return &x }

// an interface value is given as pointer to it
type ifaceVal struct{ p interface{} }

func badKinds() []badKind {
	badT := func(r *rand.Rand) interface{} { return badTime(&gen{rng: r}) }
	negT := func(r *rand.Rand) interface{} { return time.Date(-1-r.Intn(9999), 1, 1, 0, 0, 0, 0, time.UTC) }
	c := func(x interface{}) func(r *rand.Rand) interface{} { return func(*rand.Rand) interface{} { return x } }
	i1 := func(x I1) func(r *rand.Rand) interface{} {
		return func(*rand.Rand) interface{} { return ifaceVal{&x} }
	}
	any := func(x interface{}) func(r *rand.Rand) interface{} {
		return func(*rand.Rand) interface{} { return ifaceVal{&x} }
	}
	var nilI1 I1 = CSt{A: 1}
	var nilAny interface{} = CSt{A: 1}
	ch := make(chan int, 2)
	ch <- 1
	n := 1
	fn := func() {}
	up := uintptr(3)
	return []badKind{
		{name: "channel", bin: true, js: true, v: c(make(chan int))},
		{name: "channel with elements", bin: true, js: true, v: c(ch)},
		{name: "receive channel", bin: true, js: true, v: c((<-chan string)(make(chan string)))},
		{name: "function", bin: true, js: true, v: c(fn)},
		{name: "method", bin: true, js: true, v: c(bytes.NewBuffer(nil).WriteByte)},
		{name: "complex64", bin: true, js: true, v: func(r *rand.Rand) interface{} { return complex(float32(1+r.Intn(2)), 0) }},
		{name: "complex128", bin: true, js: true, v: func(r *rand.Rand) interface{} { return complex(0, float64(1+r.Intn(2))) }},
		{name: "uintptr", bin: true, js: true, v: c(up)},
		{name: "unsafe pointer", bin: true, js: true, v: c(unsafe.Pointer(&n))},
		{name: "map", bin: true, v: c(map[string]int{"a": 1}), good: map[string]int{}},
		{name: "map of strings", bin: true, v: c(map[string]string{"": ""}), good: map[string]string(nil)},
		{name: "map with int keys", bin: true, js: true, v: c(map[int]int{1: 1})},
		{name: "map with byte list keys", bin: true, js: true, v: c(map[[2]byte]int{{}: 1})},
		{name: "float64", bin: true, js: true, v: func(r *rand.Rand) interface{} { return float64(1 + r.Intn(3)) }},
		{name: "float32", bin: true, js: true, v: func(r *rand.Rand) interface{} { return float32(1 + r.Intn(3)) }},
		{name: "zero float", bin: true, js: true, zero: true, v: c(0.0)},
		{name: "zero complex", bin: true, js: true, zero: true, v: c(complex(0, 0))},
		{name: "zero uintptr", bin: true, js: true, zero: true, v: c(uintptr(0))},
		{name: "named float", bin: true, js: true, v: c(NFloat(1))},
		{name: "NaN", js: true, tag: `amino:"unsafe"`, v: c(math.NaN()), good: 1.5},
		{name: "infinity", js: true, tag: `amino:"unsafe"`, v: c(math.Inf(-1)), good: 0.0},
		{name: "infinite float32", js: true, tag: `amino:"unsafe"`, v: c(float32(math.Inf(1))), good: float32(2)},
		{name: "list of lists of ints", bin: true, notField: true, v: c([][]int{{1}}), good: nil},
		{name: "list of lists of strings", bin: true, notField: true, v: c([][]string{{"a"}, {}})},
		{name: "array of arrays of ints", bin: true, notField: true, v: c([2][2]int{})},
		{name: "list of arrays of structs", bin: true, notField: true, v: c([][1]Leaf{{{A: 1}}})},
		{name: "list of lists of lists", bin: true, v: c([][][]int{{{1}}})},
		{name: "unregistered value", bin: true, js: true, v: i1(COtherI1{1}), good: ifaceVal{&nilI1}},
		{name: "unregistered pointer", bin: true, js: true, v: i1(&COtherI1{1}), good: ifaceVal{&nilI1}},
		{name: "unregistered int", bin: true, js: true, v: any(5), good: ifaceVal{&nilAny}},
		{name: "unregistered list", bin: true, js: true, v: any([]CSt{{A: 1}}), good: ifaceVal{&nilAny}},
		{name: "unregistered pointer to pointer", bin: true, js: true, v: any(ptrTo(&COtherI1{1})), good: ifaceVal{&nilAny}},
		{name: "nil pointer in interface", bin: true, js: true, v: i1((*CSt)(nil)), good: ifaceVal{&nilI1}},
		{name: "nil pointer to pointer in interface", bin: true, js: true, v: any((**CSt)(nil)), good: ifaceVal{&nilAny}},
		{name: "pointer to nil pointer in interface", bin: true, js: true, v: any(new(*CSt)), good: ifaceVal{&nilAny}},
		{name: "nil pointer to unregistered", bin: true, js: true, v: any((*int)(nil)), good: ifaceVal{&nilAny}},
		{name: "unregistered interface", bin: true, js: true, v: func(*rand.Rand) interface{} { var x INever = CSt{A: 1}; return ifaceVal{&x} }},
		{name: "registered type with function", bin: true, js: true, v: i1(CBad{F: fn, M: nil})},
		{name: "registered type with map", bin: true, js: true, v: i1(&CBad{M: map[int]int{1: 2}})},
		{name: "registered type with channel", bin: true, js: true, v: any(&CBad{C: ptrTo(make(chan int))})},
		{name: "registered type itself", bin: true, js: true, v: c(CBad{A: 1, F: fn})},
		{name: "registered float", bin: true, js: true, v: i1(CFloat(1.5)), good: ifaceVal{&nilI1}},
		{name: "registered zero float", bin: true, js: true, v: any(CFloat32(0)), good: ifaceVal{&nilAny}},
		{name: "registered infinity", js: true, tag: `amino:"unsafe"`, v: i1(CFloat(math.Inf(1))), good: ifaceVal{&nilI1}},
		{name: "pointer to registered float", bin: true, js: true, v: any(ptrTo(CFloat(2))), good: ifaceVal{&nilAny}},
		{name: "registered representation", bin: true, js: true, v: i1(CBadRepr{1})},
		{name: "registered map", bin: true, v: func(*rand.Rand) interface{} { var x I1 = CMap{"a": 1}; return ifaceVal{&x} }, good: ifaceVal{&nilI1}},
		{name: "time out of range", bin: true, v: badT, good: time.Unix(5, 0)},
		{name: "time before the years", bin: true, js: true, v: negT, good: time.Unix(5, 0)},
		{name: "time after the years", bin: true, js: true, v: c(time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)), good: time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)},
		{name: "time a second too early", bin: true, v: c(time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Add(-1)), good: time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)},
		{name: "time that zone puts out of range", bin: true, js: true, v: c(time.Date(9999, 12, 31, 23, 30, 0, 0, time.FixedZone("w", -3600))), good: time.Date(10000, 1, 1, 0, 30, 0, 0, time.FixedZone("e", 3600))},
		{name: "nil struct among kept elements", bin: true, tag: `amino:"empty_elements"`, v: c([]*Leaf{{A: 1}, nil}), good: []*Leaf{{A: 1}, {}}},
		{name: "nil struct in kept array", bin: true, tag: `amino:"empty_elements,write_empty"`, v: c([2]*Leaf{nil, {}}), good: [2]*Leaf{{}, {}}},
		{name: "representation: channel", bin: true, js: true, v: c(BadReprChan{1})},
		{name: "representation: function", bin: true, js: true, v: c(BadReprFunc{1})},
		{name: "representation: error", bin: true, js: true, v: c(BadReprErr{1})},
		{name: "representation: nil pointer", bin: true, js: true, v: c(BadReprIface{1})},
		{name: "representation: time", bin: true, js: true, v: c(BadReprTime{1})},
		{name: "representation: float", bin: true, js: true, v: c(BadReprFloat{1})},
		{name: "JSON method: error", js: true, v: c(BadJSONErr{1})},
		{name: "hook: error", bin: true, js: true, v: c(MStr{X: -666}), good: MStr{X: 3}},
	}
}

// COtherI1 implements I1 and is never registered.
type COtherI1 struct{ X int }

func (COtherI1) Is1() {}

func badVal(x interface{}) reflect.Value {
	if i, ok := x.(ifaceVal); ok {
		return reflect.ValueOf(i.p).Elem()
	}
	return addr(reflect.ValueOf(x))
}

// badPos puts a value inside of another.
type badPos struct {
	name  string
	js    bool // JSON only
	field bool
	wrap  func(r *rand.Rand, v reflect.Value, tag string) reflect.Value
}

func mkStruct(fs []reflect.StructField, i int, v reflect.Value) reflect.Value {
	s := reflect.New(reflect.StructOf(fs)).Elem()
	s.Field(i).Set(v)
	return s
}

func mkPtr(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return addr(p)
}

func mkSlice(et reflect.Type, vs ...reflect.Value) reflect.Value {
	s := reflect.New(reflect.SliceOf(et)).Elem()
	s.Set(reflect.Append(reflect.Zero(s.Type()), vs...))
	return s
}

func joinTags(a, b string) string {
	if a == "" || b == "" {
		return a + b
	}
	return a + " " + b
}

var outerTags = []string{`amino:"unsafe"`, `amino:"unsafe,write_empty"`, `amino:"unsafe,empty_elements" json:"o"`, `binary:"fixed64" amino:"unsafe"`, `amino:"write_empty,unsafe" binary:"fixed32"`}

var badPoss = []badPos{
	{name: "field", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		return mkStruct([]reflect.StructField{fld("X", v.Type(), tag)}, 0, v)
	}},
	{name: "field between", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		s := mkStruct([]reflect.StructField{fld("A", typeOf[int](), ""), fld("X", v.Type(), tag), fld("B", typeOf[string](), ""), fld("C", typeOf[[]Leaf](), "")}, 1, v)
		s.Field(0).SetInt(5)
		s.Field(2).SetString("b")
		s.Field(3).Set(reflect.ValueOf([]Leaf{{A: 1}}))
		return s
	}},
	{name: "renamed field", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		return mkStruct([]reflect.StructField{fld("X", v.Type(), joinTags(`json:"n,omitempty"`, tag)), fld("D", typeOf[bool](), "")}, 0, v)
	}},
	{name: "pointer field", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		return mkStruct([]reflect.StructField{fld("A", typeOf[int64](), `binary:"fixed64"`), fld("X", reflect.PtrTo(v.Type()), tag)}, 1, mkPtr(v))
	}},
	{name: "list field", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		return mkStruct([]reflect.StructField{fld("X", reflect.SliceOf(v.Type()), tag), fld("Z", typeOf[int8](), `amino:"write_empty"`)}, 0, mkSlice(v.Type(), v))
	}},
	// options hold up to the next struct
	{name: "struct in field with options", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		in := mkStruct([]reflect.StructField{fld("A", typeOf[bool](), ""), fld("X", v.Type(), tag)}, 1, v)
		return mkStruct([]reflect.StructField{fld("S", in.Type(), outerTags[r.Intn(len(outerTags))])}, 0, in)
	}},
	{name: "structs of lists in fields with options", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		in := mkStruct([]reflect.StructField{fld("X", reflect.SliceOf(v.Type()), tag)}, 0, mkSlice(v.Type(), v))
		l := mkSlice(in.Type(), in, in)
		if r.Intn(2) == 0 {
			in = mkPtr(in)
			l = mkSlice(in.Type(), in)
		}
		return mkStruct([]reflect.StructField{fld("L", l.Type(), outerTags[r.Intn(len(outerTags))]), fld("E", typeOf[string](), "")}, 0, l)
	}},
	{name: "struct in interface in field with options", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		if v.Kind() != reflect.Interface || v.Type() != tI1 {
			return reflect.Value{}
		}
		s := mkStruct([]reflect.StructField{fld("I", tI1, outerTags[r.Intn(len(outerTags))])}, 0, reflect.ValueOf(CHold{X: v.Interface().(I1)}))
		return s
	}},
	{name: "structs of a map in a field with options", js: true, field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		in := mkStruct([]reflect.StructField{fld("X", v.Type(), tag)}, 0, v)
		m := reflect.MakeMap(reflect.MapOf(typeOf[string](), in.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), in)
		return mkStruct([]reflect.StructField{fld("M", m.Type(), outerTags[r.Intn(len(outerTags))])}, 0, m)
	}},
	{name: "pointer", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value { return mkPtr(v) }},
	{name: "list element", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value { return mkSlice(v.Type(), v) }},
	{name: "second list element", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		return mkSlice(v.Type(), reflect.Zero(v.Type()), v, reflect.Zero(v.Type()))
	}},
	{name: "pointer list element", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		p := mkPtr(v)
		return mkSlice(p.Type(), reflect.Zero(p.Type()), p)
	}},
	{name: "array element", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		a := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
		a.Index(r.Intn(2)).Set(v)
		return a
	}},
	{name: "map value", js: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(typeOf[string](), v.Type()))
		m.SetMapIndex(reflect.ValueOf("a"), reflect.Zero(v.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return addr(m)
	}},
	{name: "interface value", wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		i := reflect.New(tI1).Elem()
		i.Set(reflect.ValueOf(&CHold{}))
		held := i.Elem().Interface().(*CHold)
		held.A, held.B = 1, CStr("b")
		// what cannot be put into it as it is goes into nothing
		if v.Type().Implements(tI1) && v.Kind() != reflect.Interface || v.Type() == tI1 {
			held.X = v.Interface().(I1)
			return i
		}
		return reflect.Value{}
	}},
}

// CHold is registered where c23 runs and holds an interface value.
type CHold struct {
	A int
	X I1
	B I1
}

func (CHold) Is1() {}

func c23codec(u *universe, r *rand.Rand) *amino.Codec {
	cdc := u.build(r)
	cdc.RegisterConcrete(CBad{}, "c23/bad", nil)
	cdc.RegisterConcrete(&CBadRepr{}, "c23/badrepr", nil)
	cdc.RegisterConcrete(&CHold{}, "c23/hold", nil)
	cdc.RegisterConcrete(CFloat(0), "c23/float", nil)
	cdc.RegisterConcrete(CFloat32(0), "c23/float32", nil)
	return cdc
}

// c23universe: one where the types used here are registered.
func c23universe(r *rand.Rand) *universe {
	for {
		u := newUniverse(r)
		if u.byType[typeOf[CSt]()] != nil && u.byType[typeOf[CStr]()] != nil && u.byType[typeOf[CMap]()] != nil && u.ifaces[tI1] != nil && u.ifaces[tAny] != nil {
			return u
		}
	}
}

func c23(c *ctx) {
	kinds := badKinds()
	c.run("systematic", len(kinds), func(t *T) {
		k := kinds[t.idx]
		u := c23universe(t.rng)
		cdc := c23codec(u, t.rng)
		pr := c23probes(t, u, cdc)
		none := badPos{}
		all := append([]badPos{none}, badPoss...)
		for _, p1 := range all {
			for _, p2 := range all {
				for _, p3 := range all {
					if p1.wrap == nil && p2.wrap != nil || p2.wrap == nil && p3.wrap != nil {
						continue
					}
					if p3.wrap != nil && c.tier == "quick" && t.rng.Intn(14) != 0 {
						continue
					}
					c23one(t, cdc, k, p1, p2, p3)
				}
			}
		}
		pr()
	})
	c.run("random", c.n(500), func(t *T) {
		u := c23universe(t.rng)
		cdc := c23codec(u, t.rng)
		pr := c23probes(t, u, cdc)
		for i := 0; i < 10; i++ {
			k := kinds[t.rng.Intn(len(kinds))]
			var ps []badPos
			for n := 1 + t.rng.Intn(6); n > 0; n-- {
				p := badPoss[t.rng.Intn(len(badPoss))]
				if t.rng.Intn(3) == 0 {
					p = c23among(newGen(t.rng, u))
				}
				ps = append(ps, p)
			}
			c23one(t, cdc, k, ps...)
		}
		pr()
	})
	c.run("spoiled", c.n(1500), func(t *T) {
		js := t.idx%2 == 1
		randomCases(t, genOpts{json: js, utf8: js, richTags: t.idx%3 == 0}, 4, 4, func(b *bcase) { c23spoiled(t, b, js) })
	})
	c.run("spoiled systematic", len(sysBin)+len(sysJSON), func(t *T) {
		js := t.idx >= len(sysBin)
		if js {
			t.idx -= len(sysBin)
			defer func() { t.idx += len(sysBin) }()
		}
		sysCases(t, js, 2, func(b *bcase) { c23spoiled(t, b, js) })
	})
	c.run("top level", c.n(20), c23top)
}

// c23among: a field of a random struct with random contents.
func c23among(g *gen) badPos {
	return badPos{name: "random struct", field: true, wrap: func(r *rand.Rand, v reflect.Value, tag string) reflect.Value {
		g.budget, g.utf8 = 60, true
		st := g.structType(2)
		var fs []reflect.StructField
		used := map[string]bool{"X": true}
		for i := 0; i < st.NumField(); i++ {
			f := st.Field(i)
			if o := parseTag(f); encoded(f) && !used[f.Name] && !used[o.name] && f.PkgPath == "" {
				used[f.Name], used[o.name] = true, true
				f.Offset, f.Index, f.Anonymous = 0, nil, false
				fs = append(fs, f)
			}
		}
		at := r.Intn(len(fs) + 1)
		fs = append(fs[:at:at], append([]reflect.StructField{fld("X", v.Type(), tag)}, fs[at:]...)...)
		s := mkStruct(fs, at, v)
		for i := range fs {
			if i != at {
				g.fill(s.Field(i), parseTag(fs[i]), 3)
			}
		}
		return s
	}}
}

// c23probes records what the codec does; the result checks that it still does.
func c23probes(t *T, u *universe, cdc *amino.Codec) func() {
	type probe struct {
		b        *bcase
		bin, js  []byte
		binE, jE error
	}
	var ps []probe
	cases(t, u, genOpts{utf8: true}, 3, 1, func(b *bcase) {
		if b.iface() && b.v.IsNil() {
			return
		}
		p := probe{b: b}
		p.bin, p.binE = marshalBare(cdc, b.in())
		p.js, p.jE = marshalJSON(cdc, b.in())
		ps = append(ps, p)
	})
	return func() {
		for _, p := range ps {
			bin, binE := marshalBare(cdc, p.b.in())
			js, jE := marshalJSON(cdc, p.b.in())
			if (binE == nil) != (p.binE == nil) || !bytes.Equal(bin, p.bin) || (jE == nil) != (p.jE == nil) || !bytes.Equal(js, p.js) {
				t.failf("%s encoded to %x, %s before (%v, %v), and to %x, %s (%v, %v) after values were refused", p.b, p.bin, p.js, p.binE, p.jE, bin, js, binE, jE)
			}
			if binE == nil {
				if _, err := unmarshalBare(cdc, bin, p.b.t); err != nil {
					t.failf("decoding %x as %v after values were refused: %v", bin, p.b.t, err)
				}
			}
			t.count("probes afterwards")
		}
		// and it can be registered on, and new types can be used
		type late struct{ A, B int }
		cdc.RegisterConcrete(late{}, "c23/late", nil)
		bz, err := marshalBare(cdc, late{1, 2})
		_, pre := specDisfix("c23/late")
		if err != nil || !bytes.Equal(bz, append(pre[:], 8, 1, 16, 2)) {
			t.failf("registered after values were refused: %x %v", bz, err)
		}
		bz, err = marshalBare(cdc, struct {
			A int
			Z []late
		}{1, nil})
		if err != nil || !bytes.Equal(bz, []byte{8, 1}) {
			t.failf("new type after values were refused: %x %v", bz, err)
		}
	}
}

func c23one(t *T, cdc *amino.Codec, k badKind, ps ...badPos) {
	seed := t.rng.Int63()
	// the same around two values
	build := func(x interface{}, js bool) (v reflect.Value, name string) {
		r := rand.New(rand.NewSource(seed))
		v, name = badVal(x), k.name
		first := true
		for _, p := range ps {
			if p.wrap == nil {
				continue
			}
			if p.js && !js {
				return reflect.Value{}, ""
			}
			if k.tag != "" && first && !p.field {
				return reflect.Value{}, "" // the kind is one of a field
			}
			if k.notField && first && p.field {
				return reflect.Value{}, ""
			}
			if k.zero && p.name == "renamed field" {
				return reflect.Value{}, "" // omitempty
			}
			if v.Kind() == reflect.Interface && (p.name == "pointer" || p.name == "pointer field" || p.name == "pointer list element") {
				return reflect.Value{}, "" // pointers to interfaces
			}
			tag := ""
			if first {
				tag = k.tag
			}
			if v = p.wrap(r, v, tag); !v.IsValid() {
				return v, ""
			}
			name += " in " + p.name
			first = false
		}
		if k.tag != "" && first {
			return reflect.Value{}, ""
		}
		return
	}
	bad := k.v(rand.New(rand.NewSource(seed)))
	for _, js := range []bool{false, true} {
		if js && !k.js || !js && !k.bin {
			continue
		}
		v, name := build(bad, js)
		if !v.IsValid() {
			continue
		}
		t.desc = nil
		t.note("%s", name)
		var ins []interface{}
		if v.Kind() != reflect.Interface {
			ins = append(ins, v.Interface())
		}
		ins = append(ins, v.Addr().Interface())
		ops := binEncOps
		if js {
			ops = jsonEncOps
		}
		for _, in := range ins {
			for _, op := range ops {
				var bz []byte
				err, _ := try(func() (err error) { bz, err = op.fn(cdc, in); return })
				if err == nil {
					t.failf("%s of a value with %s succeeds: %s %T", op.how, name, enctext(js, bz), in)
				}
				t.count("refused encodings")
			}
			if !js {
				w := &recWriter{accept: -1}
				var n int64
				err, pan := try(func() (err error) { n, err = cdc.MarshalBinaryLengthPrefixedWriter(w, in); return })
				if err == nil || !pan && n != 0 || w.calls != 0 {
					t.failf("MarshalBinaryLengthPrefixedWriter of a value with %s: %d, %v, and %d writes of %x", name, n, err, w.calls, w.got)
				}
			}
		}
		control := false
		if k.good != nil {
			if gv, _ := build(k.good, js); gv.IsValid() {
				var err error
				var in interface{} = gv.Addr().Interface()
				if js {
					_, err = marshalJSON(cdc, in)
				} else {
					_, err = marshalBare(cdc, in)
				}
				if control = err == nil; control {
					t.count("controls encoded")
				} else {
					t.count("controls refused as well")
				}
			}
		}
		t.evaluated(fmt.Sprintf("%s js=%v", name, js), control || k.good == nil)
		t.count("kind " + k.name)
	}
}

// c23spoiled: what the reference encoder refuses has to be refused, and
// nothing else.
func c23spoiled(t *T, b *bcase, js bool) {
	v := b.spoil()
	t.desc = nil
	t.note("type %v value %s", b.t, show(v))
	in := v.Addr().Interface()
	var ref error
	var want []byte
	ops := binEncOps
	if js {
		ops = jsonEncOps
		var n *jnode
		if n, ref = b.s.jtop(v); ref == nil {
			want = n.bytes()
		}
	} else {
		want, ref = b.s.top(v)
	}
	for _, op := range ops {
		var bz []byte
		err, _ := try(func() (err error) { bz, err = op.fn(b.cdc, in); return })
		if (err == nil) != (ref == nil) {
			t.failf("%s: %v, %s; the reference encoder: %v, %s", op.how, err, enctext(js, bz), ref, enctext(js, want))
		}
		if ref == nil {
			t.count("encoded")
		} else {
			t.count("refused encodings")
		}
	}
	t.evaluated(fmt.Sprintf("%v %s %v", b.t, show(v), js), ref != nil)
}

// c23top: nil pointers at top level.
func c23top(t *T) {
	u := newUniverse(t.rng)
	for _, o := range []interface{}{nil, (*int)(nil), (*Leaf)(nil), (**Leaf)(nil), new(*Leaf), ptrTo(new(*Leaf)), (*CSt)(nil), (*I1)(nil), (*[]byte)(nil), new(*time.Time), (*time.Time)(nil), (*MStr)(nil), new(*MInt), (*CPtr)(nil)} {
		for _, op := range binEncOps {
			bz, err := []byte(nil), error(nil)
			err, _ = try(func() (err error) { bz, err = op.fn(u.cdc, o); return })
			if err == nil {
				t.failf("%s of %T(nil) is not refused: %x", op.how, o, bz)
			}
			t.count("refused encodings")
		}
		t.evaluated(fmt.Sprintf("nil %T", o), true)
	}
	c23probes(t, u, u.cdc)()
}
