package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C15", run: c15,
		rule:  "values of random types of all supported kinds (nested pointers, lists, arrays, maps with all kinds of keys, interfaces, named kinds, times, types with their own DeepCopy of each signature, marshal and unmarshal pairs with either receiver, with spare capacity and shared parts) are copied: type and value of the copy are compared strictly with a reference copy that calls the custom methods as documented, the original with a snapshot; a walker compares the memory reachable from both, and then everything reachable from one is overwritten and the other is compared again, in both directions; failing hooks have to panic with the hook's error; distinct = distinct (type, value), non-trivial = values that refer to memory",
		assum: []string{"values without cycles", "unexported fields are not copied, and pointer-receiver DeepCopy methods are not called on values"}})
}

// types that copy themselves; the mark shows that they did
type (
	DCV struct { // on the value
		S    []int
		Mark int
	}
	DCP struct { // pointer to pointer
		S    []int
		Mark int
	}
	DCPV struct { // pointer to value
		S    []int
		Mark int
	}
	DCVP struct { // value to pointer; used as pointer
		S    []int
		Mark int
	}
	DCSlice []int
	DCMap   map[string]int
	DCStr   string
	DCBoth  struct{ V string } // also has a pair
	ICopy   interface{ DeepCopy() ICopy }
	DCImpl  struct {
		S    []int
		Mark int
	}
	// wrong signatures: copied as usual
	DCArg   struct{ S []int }
	DCTwo   struct{ S []int }
	DCOther struct{ S []int }
	// pairs
	DCPair  struct{ a []string } // both on the pointer
	DCPair2 struct{ a []string } // MarshalAmino on the value
	DCStrP  string               // both on the pointer, of basic kinds
	DCIntP  int16
	DCListP []byte
	DCOdd   struct{ S []int } // pair of different types: copied as usual
	// half pairs, and such with other arguments or results: copied as usual
	DCHalf1 struct{ S []int }
	DCHalf2 struct{ S []int }
	DCIn0   struct{ S []int }
	DCIn2   struct{ S []int }
	DCOut0  struct{ S []int }
	DCOut2  struct{ S []int }
	DCOutS  struct{ S []int }
	DCMIn1  struct{ S []int }
	DCMOut1 struct{ S []int }
	DCMOut3 struct{ S []int }
	DCMOutS struct{ S []int }
	DCMOutE struct{ S []int }
	NPtr    *Leaf
	DCEmb   struct {
		DCV
		*DCP
		X []string
	}
	DCNest struct {
		A interface{}
		B []interface{}
		C map[string]interface{}
		D map[int][]*Leaf
		E [2][]byte
		F ***int
		G *[]string
		H *map[string]*string
		I *interface{}
		J I1
		K []ICopy
		L ICopy
		M map[bool]ICopy
	}
)

func (d DCV) DeepCopy() DCV {
	return DCV{append([]int(nil), d.S...), d.Mark + 1}
}
func (d *DCP) DeepCopy() *DCP                  { return &DCP{append([]int(nil), d.S...), d.Mark + 1} }
func (d *DCPV) DeepCopy() DCPV                 { return DCPV{append([]int(nil), d.S...), d.Mark + 1} }
func (d DCVP) DeepCopy() *DCVP                 { return &DCVP{append([]int(nil), d.S...), d.Mark + 1} }
func (d DCSlice) DeepCopy() DCSlice            { return append(append(DCSlice{}, d...), -99) }
func (d DCStr) DeepCopy() DCStr                { return d + "!" }
func (d DCBoth) DeepCopy() DCBoth              { return DCBoth{d.V + "!"} }
func (d DCBoth) MarshalAmino() (string, error) { return "not this", nil }
func (d *DCBoth) UnmarshalAmino(s string) error {
	d.V = s
	return nil
}
func (d DCImpl) DeepCopy() ICopy { return DCImpl{append([]int(nil), d.S...), d.Mark + 1} }
func (d DCMap) DeepCopy() DCMap {
	m := DCMap{"copied": 1}
	for k, v := range d {
		m[k] = v
	}
	return m
}
func (d DCArg) DeepCopy(int) DCArg       { panic("called") }
func (d DCTwo) DeepCopy() (DCTwo, error) { panic("called") }
func (d DCOther) DeepCopy() string       { panic("called") }
func (d *DCPair) MarshalAmino() (string, error) {
	if len(d.a) > 0 && d.a[0] == poison {
		return "", errHook
	}
	return strings.Join(d.a, "\x00"), nil
}
func (d *DCPair) UnmarshalAmino(s string) error {
	d.a = append(strings.Split(s, "\x00"), "seen")
	return nil
}
func (d DCPair2) MarshalAmino() ([]string, error) {
	return append([]string(nil), d.a...), nil
}
func (d *DCPair2) UnmarshalAmino(s []string) error {
	if len(s) > 0 && s[0] == poison {
		return errHook
	}
	d.a = append(append([]string{}, s...), "seen")
	return nil
}
func (d *DCStrP) MarshalAmino() ([]byte, error) { return []byte(*d), nil }
func (d *DCStrP) UnmarshalAmino(s []byte) error {
	*d = DCStrP(s) + "+"
	return nil
}
func (d *DCIntP) MarshalAmino() (string, error) { return fmt.Sprint(*d), nil }
func (d *DCIntP) UnmarshalAmino(s string) error {
	var n int16
	_, err := fmt.Sscan(s, &n)
	*d = DCIntP(n + 1)
	return err
}
func (d *DCListP) MarshalAmino() (string, error) { return string(*d), nil }
func (d *DCListP) UnmarshalAmino(s string) error {
	*d = append(DCListP(s), '+')
	return nil
}
func (d DCOdd) MarshalAmino() (string, error) { panic("called") }
func (d *DCOdd) UnmarshalAmino(s int) error   { panic("called") }

func (d DCHalf1) MarshalAmino() (string, error)         { panic("called") }
func (d *DCHalf2) UnmarshalAmino(string) error          { panic("called") }
func (d DCIn0) MarshalAmino() (string, error)           { panic("called") }
func (d *DCIn0) UnmarshalAmino() error                  { panic("called") }
func (d DCIn2) MarshalAmino() (string, error)           { panic("called") }
func (d *DCIn2) UnmarshalAmino(_, _ string) error       { panic("called") }
func (d DCOut0) MarshalAmino() (string, error)          { panic("called") }
func (d *DCOut0) UnmarshalAmino(string)                 { panic("called") }
func (d DCOut2) MarshalAmino() (string, error)          { panic("called") }
func (d *DCOut2) UnmarshalAmino(string) (error, error)  { panic("called") }
func (d DCOutS) MarshalAmino() (string, error)          { panic("called") }
func (d *DCOutS) UnmarshalAmino(string) string          { panic("called") }
func (d *DCMIn1) MarshalAmino(string) (string, error)   { panic("called") }
func (d *DCMIn1) UnmarshalAmino(string) error           { panic("called") }
func (d *DCMOut1) MarshalAmino() string                 { panic("called") }
func (d *DCMOut1) UnmarshalAmino(string) error          { panic("called") }
func (d *DCMOut3) MarshalAmino() (string, error, error) { panic("called") }
func (d *DCMOut3) UnmarshalAmino(string) error          { panic("called") }
func (d *DCMOutS) MarshalAmino() (string, string)       { panic("called") }
func (d *DCMOutS) UnmarshalAmino(string) error          { panic("called") }
func (d *DCMOutE) MarshalAmino() (error, string)        { panic("called") }
func (d *DCMOutE) UnmarshalAmino(error) error           { panic("called") }

// dcOdd are the types with pairs that are none.
var dcOdd = map[reflect.Type]bool{}

func init() {
	for _, v := range []interface{}{DCOdd{}, DCHalf1{}, DCHalf2{}, DCIn0{}, DCIn2{}, DCOut0{}, DCOut2{}, DCOutS{}, DCMIn1{}, DCMOut1{}, DCMOut3{}, DCMOutS{}, DCMOutE{}} {
		dcOdd[reflect.TypeOf(v)] = true
		if _, ok := v.(DCOdd); !ok {
			dcCustom = append(dcCustom, reflect.TypeOf(v))
		}
	}
}

var dcCustom = []reflect.Type{reflect.TypeOf(DCV{}), reflect.TypeOf(&DCV{}), reflect.TypeOf(&DCP{}), reflect.TypeOf(&DCPV{}), reflect.TypeOf(&DCVP{}), reflect.TypeOf(DCSlice{}), reflect.TypeOf(DCMap{}),
	reflect.TypeOf(DCStr("")), reflect.TypeOf(DCBoth{}), reflect.TypeOf((*ICopy)(nil)).Elem(), reflect.TypeOf(DCImpl{}), reflect.TypeOf(DCArg{}), reflect.TypeOf(DCTwo{}), reflect.TypeOf(DCOther{}),
	reflect.TypeOf(DCStrP("")), reflect.TypeOf(DCIntP(0)), reflect.TypeOf(DCListP(nil)), reflect.TypeOf(DCPair{}), reflect.TypeOf(DCPair2{}), reflect.TypeOf(&DCPair{}), reflect.TypeOf(&DCPair2{}), reflect.TypeOf(DCOdd{}), reflect.TypeOf(DCEmb{}), reflect.TypeOf(DCNest{})}

var (
	tICopy   = reflect.TypeOf((*ICopy)(nil)).Elem()
	dcScalar = []reflect.Type{reflect.TypeOf(uintptr(0))}
	dcKeys   = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(NStr("")), reflect.TypeOf(false), reflect.TypeOf([2]int8{}), reflect.TypeOf(int64(0)), reflect.TypeOf(Leaf{}), reflect.TypeOf(1.5)}
)

type dcGen struct {
	*gen
	failing bool // put a failing hook somewhere
}

func (g *dcGen) dtyp(depth int) reflect.Type {
	r := g.rng
	k := r.Intn(100)
	if depth <= 0 && k >= 50 {
		k = r.Intn(50)
	}
	switch {
	case k < 14:
		return scalarTypes[r.Intn(len(scalarTypes))]
	case k < 22:
		return namedScalars[r.Intn(len(namedScalars))]
	case k < 26:
		return []reflect.Type{tTime, reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(NFloat(0))}[r.Intn(4)]
	case k < 31:
		return marshalers[r.Intn(len(marshalers))]
	case k < 42:
		return dcCustom[r.Intn(len(dcCustom))]
	case k < 50:
		return append(append(poolStructs[:len(poolStructs):len(poolStructs)], poolLists...), reflect.TypeOf(Ifaces{}), reflect.TypeOf(CIf{}), reflect.TypeOf(NPtr(nil)))[r.Intn(len(poolStructs)+len(poolLists)+3)]
	case k < 62:
		var fs []reflect.StructField
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			tag := ""
			switch r.Intn(6) {
			case 0:
				tag = `json:"-"`
			case 1:
				tag = `json:"x,omitempty" amino:"unsafe"`
			}
			fs = append(fs, fld(fmt.Sprintf("F%d", i), g.dtyp(depth-1), tag))
		}
		return reflect.StructOf(fs)
	case k < 72:
		return reflect.PtrTo(g.dtyp(depth - 1))
	case k < 82:
		return reflect.SliceOf(g.dtyp(depth - 1))
	case k < 87:
		e := g.dtyp(depth - 1)
		n := []int{0, 1, 2, 3}[r.Intn(4)]
		if e.Kind() < reflect.Array && r.Intn(4) == 0 {
			n = []int{20, 32, 64, 65, 130}[r.Intn(5)]
		}
		return reflect.ArrayOf(n, e)
	case k < 94:
		return reflect.MapOf(dcKeys[r.Intn(len(dcKeys))], g.dtyp(depth-1))
	default:
		return []reflect.Type{tAny, tAny, tI1, tICopy}[r.Intn(4)]
	}
}

// dfill fills with anything.
func (g *dcGen) dfill(v reflect.Value, depth int) {
	v = access(v)
	r := g.rng
	g.budget--
	switch p := v.Addr().Interface().(type) {
	case *time.Time:
		*p = genTime(r)
		if r.Intn(5) == 0 {
			*p = time.Time{}
		}
		return
	case *MSt:
		*p = MSt{int32(genInt(r, 32)), int32(genInt(r, 32)), g.str()}
		return
	case *MStr:
		*p = MStr{int32(r.Intn(100)), int32(r.Intn(100))}
		return
	case *MList:
		*p = MList{g.str(), g.str()}
		return
	case *MHex:
		*p = [][]byte{nil, {}, {1, 2, 3}, make([]byte, 2, 40)}[r.Intn(4)]
		return
	case *MInt:
		*p = MInt(r.Intn(1000))
		return
	case *MCsv:
		*p = []MCsv{nil, {}, {"a"}, {"b", "", "c"}}[r.Intn(4)]
		return
	case *MPair:
		*p = MPair(g.str())
		return
	case *DCPair:
		p.a = []string{"x", g.str()}
		return
	case *DCPair2:
		p.a = [][]string{nil, {}, {"y", g.str()}}[r.Intn(3)]
		return
	}
	empty := depth > 7 || g.budget < 0
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(r, uint(v.Type().Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUint(r, uint(v.Type().Bits())))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1.5, math.Inf(1), math.Copysign(0, -1), -3e-9, math.NaN(), math.MaxFloat32}[r.Intn(7)])
	case reflect.String:
		v.SetString(g.str())
	case reflect.Ptr:
		if empty || r.Intn(5) == 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		g.dfill(p.Elem(), depth+1)
		v.Set(p.Convert(v.Type()))
	case reflect.Interface:
		if empty || r.Intn(6) == 0 {
			return
		}
		var et reflect.Type
		switch v.Type() {
		case tAny:
			et = g.dtyp(2)
			for et.Kind() == reflect.Interface {
				et = g.dtyp(1)
			}
		case tICopy:
			et = reflect.TypeOf(DCImpl{})
			if r.Intn(3) == 0 {
				et = reflect.PtrTo(et)
			}
		default:
			for k := 0; k < 40; k++ {
				c := concretes[r.Intn(len(concretes))].rt
				if r.Intn(2) == 0 {
					c = reflect.PtrTo(c)
				}
				if c.Implements(v.Type()) {
					et = c
				}
			}
			if et == nil {
				return
			}
		}
		e := reflect.New(et).Elem()
		g.dfill(e, depth+1)
		if e.Kind() == reflect.Ptr && e.IsNil() && et.Implements(tICopy) {
			return // its method would be called on nil
		}
		v.Set(e)
	case reflect.Slice:
		if r.Intn(6) == 0 {
			return
		}
		n := []int{0, 1, 2, 3, 5, 17}[r.Intn(6)]
		if empty {
			n = 0
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && r.Intn(8) == 0 {
			n = 3000
		}
		s := reflect.MakeSlice(v.Type(), n, n+[]int{0, 0, 1, 8}[r.Intn(4)])
		for i := 0; i < n; i++ {
			g.dfill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.dfill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "_" && r.Intn(7) > 0 {
				g.dfill(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		if r.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		n := r.Intn(4)
		if empty {
			n = 0
		}
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.dfill(k, depth+1)
			g.dfill(e, depth+1)
			if k.Kind() == reflect.Float64 {
				k.SetFloat(float64(r.Intn(10)))
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	}
}

// share makes parts of v refer to the same memory.
func (g *dcGen) share(v reflect.Value) {
	byType := map[reflect.Type]reflect.Value{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if v.Kind() == reflect.Struct && v.Type() == tTime || depth > 10 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Slice:
			if v.IsNil() {
				return
			}
			if old, ok := byType[v.Type()]; ok && v.CanSet() && g.rng.Intn(2) == 0 && leafLike(v.Type()) {
				v.Set(old)
				return
			}
			byType[v.Type()] = v
			if v.Kind() == reflect.Ptr {
				walk(v.Elem(), depth+1)
			} else {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), depth+1)
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(v, 0)
}

// leafLike: cannot be part of a cycle.
func leafLike(t reflect.Type) bool {
	switch t.Elem() {
	case reflect.TypeOf(Leaf{}), tTime, reflect.TypeOf(""), reflect.TypeOf(DCP{}), reflect.TypeOf(DCV{}):
		return true
	}
	switch t.Elem().Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.String:
		return true
	}
	return false
}

// refCopy is what a deep copy of v has to be.
func refCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	v = addressable(v)
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		if v.IsNil() {
			return out
		}
	}
	set := func(x interface{}) reflect.Value { out.Set(reflect.ValueOf(x)); return out }
	ints := func(s []int) []int { return append([]int(nil), s...) }
	switch x := v.Interface().(type) {
	case DCV:
		if v.Kind() != reflect.Interface {
			return set(DCV{ints(x.S), x.Mark + 1})
		}
	case *DCV:
		if v.Kind() != reflect.Interface {
			return set(&DCV{ints(x.S), x.Mark + 1})
		}
	case *DCP:
		if v.Kind() != reflect.Interface {
			return set(&DCP{ints(x.S), x.Mark + 1})
		}
	case *DCPV:
		if v.Kind() != reflect.Interface {
			return set(&DCPV{ints(x.S), x.Mark + 1})
		}
	case *DCVP:
		if v.Kind() != reflect.Interface {
			return set(&DCVP{ints(x.S), x.Mark + 1})
		}
	case DCSlice:
		if v.Kind() != reflect.Interface {
			return set(append(append(DCSlice{}, x...), -99))
		}
	case DCMap:
		if v.Kind() != reflect.Interface {
			m := DCMap{"copied": 1}
			for k, e := range x {
				m[k] = e
			}
			return set(m)
		}
	case DCStr:
		if v.Kind() != reflect.Interface {
			return set(x + "!")
		}
	case DCBoth:
		if v.Kind() != reflect.Interface {
			return set(DCBoth{x.V + "!"})
		}
	case *DCBoth:
		if v.Kind() != reflect.Interface {
			return set(&DCBoth{x.V + "!"})
		}
	case DCPair:
		if v.Kind() != reflect.Interface {
			return set(DCPair{append(append([]string{}, splitOr(x.a)...), "seen")})
		}
	case DCStrP:
		if v.Kind() != reflect.Interface {
			return set(x + "+")
		}
	case DCIntP:
		if v.Kind() != reflect.Interface {
			return set(x + 1)
		}
	case DCListP:
		if v.Kind() != reflect.Interface {
			return set(append(append(DCListP{}, x...), '+'))
		}
	case DCPair2:
		if v.Kind() != reflect.Interface {
			return set(DCPair2{append(append([]string{}, x.a...), "seen")})
		}
	}
	if v.Type() == tICopy {
		var d DCImpl
		if e := v.Elem(); e.Kind() == reflect.Ptr {
			d = e.Elem().Interface().(DCImpl)
		} else {
			d = e.Interface().(DCImpl)
		}
		return set(DCImpl{ints(d.S), d.Mark + 1})
	}
	if isMarshaler(v.Type()) && v.Kind() != reflect.Interface && v.Kind() != reflect.Ptr && !dcOdd[v.Type()] {
		rs := callMarshal(v)
		out.Addr().MethodByName("UnmarshalAmino").Call(rs[:1])
		return out
	}
	if v.Type() == tTime {
		out.Set(v)
		return out
	}
	switch v.Kind() {
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		switch v.Type().Elem() {
		case reflect.TypeOf(DCMap{}), reflect.TypeOf(DCSlice{}):
			// the pointer has the method, too, which is called for nil
			p.Elem().Set(v.Elem().MethodByName("DeepCopy").Call(nil)[0])
		case reflect.TypeOf(DCListP{}):
			p.Elem().SetBytes(append(append([]byte{}, v.Elem().Bytes()...), '+'))
		default:
			p.Elem().Set(refCopy(v.Elem()))
		}
		out.Set(p.Convert(v.Type()))
	case reflect.Interface:
		out.Set(refCopy(v.Elem()))
	case reflect.Slice:
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(refCopy(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(refCopy(v.Index(i)))
		}
	case reflect.Map:
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, refCopy(v.MapIndex(k)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(refCopy(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

func splitOr(a []string) []string { return strings.Split(strings.Join(a, "\x00"), "\x00") }

func c15(c *ctx) {
	c.run("random", c.n(6000), c15random)
	c.run("systematic", len(sysJSON), c15sys)
	c.run("errors", c.n(600), c15errors)
	c.run("big", c.n(60), c15big)
}

func (t *T) judgeCopy(v reflect.Value) {
	t.note("%v: %s", v.Type(), show(v))
	in := v.Interface()
	snap := clone(v)
	want := refCopy(v)
	var r interface{}
	pv, st := guard(func() { r = amino.DeepCopy(in) })
	if pv != nil {
		t.failf("DeepCopy panics: %v\n%s", pv, clip(st.String(), 2000))
	}
	if d := diffX(snap, v, "", true); d != "" {
		t.failf("the original is changed: %s", d)
	}
	if reflect.TypeOf(r) != reflect.TypeOf(in) {
		t.failf("the copy of a %T is a %T", in, r)
	}
	c := addr(reflect.ValueOf(r))
	if d := diffX(want, c, "", true); d != "" {
		t.failf("the copy is %s: %s", show(c), d)
	}
	ra, rb := regions(v, false), regions(c, false)
	if d := overlap(ra, rb); d != "" {
		t.failf("original and copy: %s", d)
	}
	t.countN("memory regions compared", int64(len(ra)+len(rb)))
	t.evaluated(show(v)+v.Type().String(), len(ra) > 0)
	// a copy of the copy, for later
	scribble(c)
	if d := diffX(snap, v, "", true); d != "" {
		t.failf("changing the copy changes the original: %s", d)
	}
	pv, _ = guard(func() { r = amino.DeepCopy(in) })
	if pv != nil {
		t.failf("DeepCopy panics the second time: %v", pv)
	}
	c = addr(reflect.ValueOf(r))
	scribble(v)
	if d := diffX(want, c, "", true); d != "" {
		t.failf("changing the original changes the copy: %s", d)
	}
	t.count("overwritten in both directions")
}

func c15random(t *T) {
	g := &dcGen{gen: newGen(t.rng, newUniverseModel())}
	for k := 0; k < 6; k++ {
		g.budget = 150
		rt := g.dtyp(1 + t.rng.Intn(4))
		if rt.Kind() == reflect.Interface {
			rt = reflect.PtrTo(rt)
		}
		if t.rng.Intn(10) == 0 {
			rt = reflect.TypeOf(DCNest{})
		}
		v := reflect.New(rt).Elem()
		if k > 0 {
			g.dfill(v, 0)
		}
		if t.rng.Intn(3) == 0 {
			g.share(v)
		}
		t.desc = nil
		if t.idx%500 == 0 && k == 3 {
			t.sample("%v: %s", rt, show(v))
		}
		t.judgeCopy(v)
	}
	if r := amino.DeepCopy(nil); r != nil {
		t.failf("DeepCopy(nil) = %v", r)
	}
}

func c15sys(t *T) {
	rt := sysJSON[t.idx].t
	if rt.Kind() == reflect.Interface {
		rt = reflect.PtrTo(rt)
	}
	g := &dcGen{gen: newGen(t.rng, newUniverseModel())}
	for k := 0; k < 3; k++ {
		g.budget = 100
		v := reflect.New(rt).Elem()
		if k > 0 {
			g.dfill(v, 0)
		}
		t.desc = nil
		t.judgeCopy(v)
	}
}

// c15errors: errors of the hooks, and kinds that cannot be copied.
func c15errors(t *T) {
	g := &dcGen{gen: newGen(t.rng, newUniverseModel())}
	bads := []interface{}{MStr{X: -666}, &MStr{X: -666}, MSt{note: poison}, MInt(666666), MHex(poison), MCsv{poison}, MPair(poison), MList{names: poison}, DCPair{[]string{poison}}, &DCPair{[]string{poison}}, DCPair2{[]string{poison}}, &DCPair2{[]string{poison}}}
	bad := reflect.ValueOf(bads[t.rng.Intn(len(bads))])
	var o interface{}
	how := t.rng.Intn(8)
	switch how {
	case 0:
		o = bad.Interface()
	case 1:
		s := reflect.MakeSlice(reflect.SliceOf(bad.Type()), 1, 1)
		s.Index(0).Set(bad)
		o = s.Interface()
	case 2:
		s := reflect.New(reflect.StructOf([]reflect.StructField{fld("A", g.dtyp(1), ""), fld("F", bad.Type(), "")})).Elem()
		s.Field(1).Set(bad)
		o = s.Interface()
	case 3:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), bad.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), bad)
		o = m.Interface()
	case 4:
		o = []interface{}{1, bad.Interface()}
	case 5:
		p := reflect.New(bad.Type())
		p.Elem().Set(bad)
		o = p.Interface()
	case 6:
		s := reflect.New(reflect.ArrayOf(2, reflect.PtrTo(bad.Type()))).Elem()
		p := reflect.New(bad.Type())
		p.Elem().Set(bad)
		s.Index(1).Set(p)
		o = s.Interface()
	case 7:
		o = DCNest{A: 1, C: map[string]interface{}{"x": bad.Interface()}}
	}
	var r interface{}
	pv, _ := guard(func() { r = amino.DeepCopy(o) })
	if pv == nil {
		t.failf("copying %s: the error of the hook is lost, the copy is %s", show(reflect.ValueOf(o)), show(reflect.ValueOf(r)))
	}
	if err, ok := pv.(error); !ok || err != error(errHook) {
		t.failf("copying %s panics with %v, not with the error of the hook", show(reflect.ValueOf(o)), pv)
	}
	t.evaluated(fmt.Sprint(how, bad.Type(), t.idx), true)
	t.count("errors of hooks")
}

func c15big(t *T) {
	n := 1000 + t.rng.Intn(20000)
	bz := bytes.Repeat([]byte{7}, n)
	var l []*Leaf
	for i := 0; i < n; i++ {
		l = append(l, &Leaf{int32(i), "x"})
	}
	node := &Node{}
	for i := 0; i < 500; i++ {
		node = &Node{V: uint16(i), Next: node, Kids: []*Node{{Name: "k"}, nil}}
	}
	m := map[string][]byte{}
	for i := 0; i < 500; i++ {
		m[fmt.Sprint(i)] = bz[:i]
	}
	for _, o := range []interface{}{bz, l, node, m, [][]byte{bz, bz[:5], bz[5:]}, DCNest{A: l, B: []interface{}{node, m, bz}}} {
		t.desc = nil
		c := clone(reflect.ValueOf(o))
		t.judgeCopy(c)
	}
}
