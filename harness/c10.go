package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C10", run: c10,
		rule:  "for random registrations every pair of registered interface and implementing type is encoded, by value and by pointer, at top level, in fields, lists, arrays and nested in other interface values, in binary and JSON, and the dynamic type that comes back is compared with the registration; mutated and recombined inputs (prefixes, disambiguation bytes and names of other types; every prefix and disambiguation byte and name altered, and disambiguation left out) are decoded and compared with a reference decoder, and a walker checks every interface value in the target, also after errors, to hold a registered type that implements it in its registered form; encodings and decodings of unregistered types and interfaces have to be refused; distinct = distinct (interface, type, position, input), non-trivial = longer than 2 bytes",
		assum: []string{"values in interfaces are of supported types"}})
	register(&check{id: "C11", run: c11,
		rule:  "names (random, mined for leading zero bytes of the hash in both places, and for equal prefixes) are compared with an independent derivation; universes with two or three types of equal prefix and all kinds of interface options are registered, and every implementation is encoded alone, and in each interface and position: the bytes at the place of the interface value are parsed by the monitor and compared with the rule (disambiguation exactly if needed), and the value decoded has to be itself, also between registrations, after earlier use; with altered prefix and disambiguation bytes the decoder has to agree with a reference decoder; distinct = distinct name or (universe, interface, type), all non-trivial",
		assum: []string{"collisions of all seven bytes cannot be produced"}})
}

// walkIfaces calls fn for every interface value inside v.
func walkIfaces(v reflect.Value, depth int, fn func(it reflect.Type, e reflect.Value)) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			fn(v.Type(), v.Elem())
			walkIfaces(v.Elem(), depth+1, fn)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			walkIfaces(v.Elem(), depth+1, fn)
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				walkIfaces(v.Field(i), depth+1, fn)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walkIfaces(v.Index(i), depth+1, fn)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			walkIfaces(v.MapIndex(k), depth+1, fn)
		}
	}
}

// c10form is the registered form of a type in an interface.
func c10form(ri *regInfo, it reflect.Type) reflect.Type {
	if ri.ptr || !ri.rt.Implements(it) {
		return reflect.PtrTo(ri.rt)
	}
	return ri.rt
}

func (t *T) judgeIfaces(u *universe, v reflect.Value, how string, in interface{}) {
	walkIfaces(v, 0, func(it reflect.Type, e reflect.Value) {
		ri := u.byType[deref(e.Type())]
		switch {
		case u.ifaces[it] == nil:
			t.failf("%s: a value of %v in the unregistered interface %v\ninput %s", how, e.Type(), it, in)
		case ri == nil:
			t.failf("%s: a value of the unregistered type %v in the interface %v\ninput %s", how, e.Type(), it, in)
		case e.Type() != c10form(ri, it):
			t.failf("%s: a %v in the interface %v, registered as %s\ninput %s", how, e.Type(), it, regStep{reg: ri}, in)
		}
		t.count("interface values judged")
	})
}

func c10(c *ctx) {
	c.run("pairs", c.n(900), c10pairs)
	c.run("hostile", c.n(900), c10hostile)
	c.run("refused", c.n(900), c10refused)
}

// positions that hold an interface value
type ipos struct {
	name string
	mk   func(it reflect.Type) reflect.Type
	set  func(v, x reflect.Value)
	get  func(v reflect.Value) reflect.Value
}

var iposs = []ipos{
	{"top", func(it reflect.Type) reflect.Type { return it }, func(v, x reflect.Value) { v.Set(x) }, func(v reflect.Value) reflect.Value { return v }},
	{"field", func(it reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), ""), fld("F", it, ""), fld("Z", reflect.TypeOf(""), "")})
	}, func(v, x reflect.Value) { v.Field(1).Set(x) }, func(v reflect.Value) reflect.Value { return v.Field(1) }},
	{"list in field", func(it reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{fld("F", reflect.SliceOf(it), ""), fld("Z", reflect.TypeOf(""), "")})
	}, func(v, x reflect.Value) {
		s := reflect.MakeSlice(v.Field(0).Type(), 3, 3)
		s.Index(1).Set(x)
		v.Field(0).Set(s)
	}, func(v reflect.Value) reflect.Value { return v.Field(0).Index(1) }},
	{"array in field", func(it reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{fld("F", reflect.ArrayOf(2, it), "")})
	}, func(v, x reflect.Value) { v.Field(0).Index(0).Set(x) }, func(v reflect.Value) reflect.Value { return v.Field(0).Index(0) }},
	{"list", func(it reflect.Type) reflect.Type { return reflect.SliceOf(it) }, func(v, x reflect.Value) {
		s := reflect.MakeSlice(v.Type(), 2, 2)
		s.Index(1).Set(x)
		v.Set(s)
	}, func(v reflect.Value) reflect.Value { return v.Index(1) }},
	{"nested", func(it reflect.Type) reflect.Type {
		in := reflect.StructOf([]reflect.StructField{fld("I", it, "")})
		return reflect.StructOf([]reflect.StructField{fld("L", reflect.SliceOf(in), ""), fld("Z", reflect.TypeOf(""), "")})
	}, func(v, x reflect.Value) {
		s := reflect.MakeSlice(v.Field(0).Type(), 2, 2)
		s.Index(0).Field(0).Set(x)
		v.Field(0).Set(s)
	}, func(v reflect.Value) reflect.Value { return v.Field(0).Index(0).Field(0) }},
}

func c10pairs(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	for k := 0; k < 8; k++ {
		it := u.iorder[t.rng.Intn(len(u.iorder))]
		impl := u.implementers(it, false)
		if len(impl) == 0 {
			continue
		}
		ri := impl[t.rng.Intn(len(impl))]
		for i := 0; i < 6 && k%2 == 0 && u.conflicts(it, ri) == 0; i++ {
			ri = impl[t.rng.Intn(len(impl))]
		}
		g.json, g.utf8, g.budget = false, true, 60
		x := g.value(ri.rt, fopt{})
		byPtr := !ri.rt.Implements(it) || t.rng.Intn(2) == 0
		p := iposs[t.rng.Intn(len(iposs))]
		v := reflect.New(p.mk(it)).Elem()
		if byPtr {
			p.set(v, addr(x).Addr())
		} else {
			p.set(v, x)
		}
		b := &bcase{u: u, s: s, cdc: u.cdc, t: v.Type(), v: v}
		what := fmt.Sprintf("%v (by pointer: %v) in %v at %s, %s", ri.rt, byPtr, it, p.name, regStep{reg: ri})
		judge := func(how string, in []byte, got reflect.Value, err error, norm reflect.Value) {
			if err != nil {
				t.failf("%s: decoding %s: %v\ninput %q", how, what, err, in)
			}
			e := p.get(got)
			if e.IsNil() || e.Elem().Type() != c10form(ri, it) {
				t.failf("%s: %s comes back as %s\ninput %q", how, what, show(e), in)
			}
			if d := diff(norm, got); d != "" {
				t.failf("%s: %s comes back as %s\n%s\ninput %q", how, what, show(e), d, in)
			}
			t.judgeIfaces(u, got, how, in)
			t.evaluated(how+what+string(in), len(in) > 2)
			t.count("came back as registered: " + how)
		}
		if _, err := s.top(v); err == nil {
			bz, err := marshalBare(u.cdc, b.in())
			if err != nil {
				t.failf("encoding %s: %v", what, err)
			}
			norm, err := s.normTop(v)
			if err != nil {
				t.failf("model: %v", err)
			}
			got, err := unmarshalBare(u.cdc, bz, b.t)
			judge("binary", bz, got, err, norm)
			alteredPrefixes(t, u, s, bz, ri, b.t, what)
			if t.idx%100 == 0 {
				t.sample("%s -> %x -> %s", what, bz, show(p.get(got)))
			}
		}
		c10short(t, u, s, v, ri, what)
		if _, err := s.jtop(v); err == nil {
			bz, err := marshalJSON(u.cdc, b.in())
			if err != nil {
				t.failf("encoding %s: %v", what, err)
			}
			norm, err := s.jnormTop(v)
			if err != nil {
				t.failf("model: %v", err)
			}
			got, err := unmarshalJSON(u.cdc, bz, b.t)
			judge("JSON", bz, got, err, norm)
			if n, err := s.jtop(v); err == nil {
				alteredNames(t, u, s, n, ri, b.t, what)
			}
		}
		// nil in the same place
		v = reflect.New(p.mk(it)).Elem()
		p.set(v, reflect.Zero(it))
		if p.name != "top" {
			b = &bcase{u: u, s: s, cdc: u.cdc, t: v.Type(), v: v}
			bz, err := marshalBare(u.cdc, b.in())
			if err != nil {
				t.failf("encoding nil in %v at %s: %v", it, p.name, err)
			}
			got, err := unmarshalBare(u.cdc, bz, b.t)
			if err != nil {
				t.failf("decoding nil in %v at %s: %v", it, p.name, err)
			}
			bad := false
			walkIfaces(got, 0, func(reflect.Type, reflect.Value) { bad = true })
			if bad {
				t.failf("nil in %v at %s comes back as %s", it, p.name, show(got))
			}
			t.count("nil in binary")
		}
		bz, err := marshalJSON(u.cdc, (&bcase{t: v.Type(), v: v}).in())
		if err != nil {
			t.failf("encoding nil in %v at %s: %v", it, p.name, err)
		}
		got, err := unmarshalJSON(u.cdc, bz, v.Type())
		if err != nil {
			t.failf("decoding nil in %v at %s from %s: %v", it, p.name, bz, err)
		}
		bad := false
		walkIfaces(got, 0, func(reflect.Type, reflect.Value) { bad = true })
		if bad {
			t.failf("nil in %v at %s comes back as %s", it, p.name, show(got))
		}
		t.count("nil in JSON")
	}
}

// alteredPrefixes changes the prefix or disambiguation bytes of ri in bz, and
// compares what the decoder makes of it with what the reference decoder does.
func alteredPrefixes(t *T, u *universe, s *spec, bz []byte, ri *regInfo, rt reflect.Type, what string) {
	at := bytes.Index(bz, ri.prefix[:])
	if at < 0 {
		return
	}
	one := func(m []byte) {
		for _, r := range u.regs {
			if !u.usable(r.rt) && bytes.Contains(m, r.prefix[:]) {
				return // its fields have to be registered, too
			}
		}
		want, werr := s.decTop(m, rt)
		if werr == errLenient {
			return
		}
		got, err := unmarshalBare(u.cdc, m, rt)
		if (err == nil) != (werr == nil) {
			t.failf("decoding %x, %x altered, of %s: %s, %v, want %v", m, bz, what, show(got), err, werr)
		}
		if err == nil {
			if d := diff(want, got); d != "" {
				t.failf("decoding %x, %x altered, of %s: %s", m, bz, what, d)
			}
			t.judgeIfaces(u, got, "altered", fmt.Sprintf("%x", m))
			t.count("altered prefixes accepted")
		} else {
			t.count("altered prefixes rejected")
		}
		t.evaluated("altered"+rt.String()+string(m), true)
	}
	from := at
	if at >= 4 && bz[at-4] == 0 && bytes.Equal(bz[at-3:at], ri.disamb[:]) {
		from = at - 4
	}
	for i := from; i < at+4; i++ {
		m := append([]byte{}, bz...)
		m[i] ^= 1 << uint(t.rng.Intn(8))
		one(m)
		if t.rng.Intn(3) == 0 {
			m = append([]byte{}, bz...)
			m[i] = byte(t.rng.Intn(256))
			one(m)
			m = append([]byte{}, bz...)
			m[i] = 0
			one(m)
		}
	}
	for k := 0; k < 3; k++ { // those of another type, in whole or in part
		o := u.regs[t.rng.Intn(len(u.regs))]
		m := append([]byte{}, bz...)
		if k != 1 {
			copy(m[at:], o.prefix[:])
		}
		if k != 0 && from < at {
			copy(m[at-3:], o.disamb[:])
		}
		one(m)
	}
	m := append([]byte{}, bz...)
	t.rng.Read(m[from:at])
	if from < at {
		m[from] = 0
	}
	one(m)
}

// alteredNames does the same to the name of ri in JSON.
func alteredNames(t *T, u *universe, s *spec, n *jnode, ri *regInfo, rt reflect.Type, what string) {
	for k := 0; k < 6; k++ {
		m := n.clone()
		var ws []*jnode
		for _, x := range jall(m, nil) {
			if x.kind == jObj {
				if y := x.get("type"); y != nil && y.kind == jStr && y.s == ri.name && x.get("value") != nil {
					ws = append(ws, y)
				}
			}
		}
		if len(ws) == 0 {
			return
		}
		y := ws[t.rng.Intn(len(ws))]
		switch k {
		case 0:
			y.s += " "
		case 1:
			y.s = " " + y.s
		case 2:
			y.s = y.s[:len(y.s)-1]
		case 3:
			if y.s = strings.ToUpper(y.s); y.s == ri.name {
				y.s = strings.ToLower(y.s)
			}
		case 4:
			y.s = u.regs[t.rng.Intn(len(u.regs))].name
		default:
			i := t.rng.Intn(len(y.s))
			y.s = y.s[:i] + "x" + y.s[i+1:]
			if !utf8.ValidString(y.s) {
				continue
			}
		}
		bz := m.bytes()
		want, werr := s.jdecTop(bz, rt)
		if werr == errLenient {
			continue
		}
		got, err := unmarshalJSON(u.cdc, bz, rt)
		if (err == nil) != (werr == nil) {
			t.failf("decoding %s, %s altered, of %s: %s, %v, want %v", bz, n.bytes(), what, show(got), err, werr)
		}
		if err == nil {
			if d := diff(want, got); d != "" {
				t.failf("decoding %s, %s altered, of %s: %s", bz, n.bytes(), what, d)
			}
			t.judgeIfaces(u, got, "altered", string(bz))
			t.count("altered names accepted")
		} else {
			t.count("altered names rejected")
		}
		t.evaluated("altered"+rt.String()+string(bz), true)
	}
}

// c10short decodes what a codec writes that does not know the others of this
// prefix, so without disambiguation bytes.
func c10short(t *T, u *universe, s *spec, v reflect.Value, ri *regInfo, what string) {
	u2 := newUniverseModel()
	for _, r := range u.regs {
		if r == ri || r.prefix != ri.prefix {
			u2.regs = append(u2.regs, r)
			u2.byType[r.rt], u2.byName[r.name] = r, r
		}
	}
	for _, it := range u.iorder {
		u2.addIface(it, false, nil)
	}
	bz, err := (&spec{u: u2}).top(v)
	if err != nil || len(bz) == 0 {
		return
	}
	want, werr := s.decTop(bz, v.Type())
	if werr == errLenient {
		return
	}
	got, err := unmarshalBare(u.cdc, bz, v.Type())
	if (err == nil) != (werr == nil) {
		t.failf("decoding %x, %s without disambiguation bytes: %s, %v, want %v", bz, what, show(got), err, werr)
	}
	if err == nil {
		if d := diff(want, got); d != "" {
			t.failf("decoding %x, %s without disambiguation bytes: %s\n%s", bz, what, show(got), d)
		}
		t.count("without disambiguation bytes: decoded")
	} else {
		t.count("without disambiguation bytes: refused")
	}
	t.evaluated("short"+what+string(bz), true)
}

func c10hostile(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	g.utf8 = true
	types := []reflect.Type{tI1, tI2, tIA, tAny, reflect.TypeOf(Ifaces{}), reflect.TypeOf(CIf{}), reflect.SliceOf(tI1),
		reflect.StructOf([]reflect.StructField{fld("F", tI2, ""), fld("G", reflect.SliceOf(tIA), ""), fld("H", tAny, ""), fld("I", reflect.ArrayOf(2, tI1), "")}),
		reflect.StructOf([]reflect.StructField{fld("N", tINone, ""), fld("H", tI1, "")})}
	var encs [][]byte
	var trees []*jnode
	for _, rt := range types[:8] {
		for i := 0; i < 3; i++ {
			g.budget = 100
			v := g.value(rt, fopt{})
			if bz, err := s.top(v); err == nil {
				encs = append(encs, bz)
			}
			if n, err := s.jtop(v); err == nil {
				trees = append(trees, n)
			}
		}
	}
	names := append(jsonNamesOf(u), "nobody")
	for i := 0; i < 60; i++ {
		rt := types[t.rng.Intn(len(types))]
		in := hostile(t.rng, encs)
		if t.rng.Intn(2) == 0 {
			in = c10graft(t, u, in)
		}
		p := reflect.New(rt)
		err, pan := try(func() error { return u.cdc.UnmarshalBinaryBare(in, p.Interface()) })
		if pan {
			t.failf("decoding %x into %v: %v", in, rt, err)
		}
		t.judgeIfaces(u, p.Elem(), "binary", fmt.Sprintf("%x into %v: %v", in, rt, err))
		if err == nil {
			t.count("hostile binary accepted")
		} else {
			t.count("hostile binary rejected")
		}
		t.evaluated(rt.String()+string(in), len(in) > 2)
		jn := t.hostileJSON(trees, names)
		p = reflect.New(rt)
		err, pan = try(func() error { return u.cdc.UnmarshalJSON(jn, p.Interface()) })
		if pan {
			t.failf("decoding %s into %v: %v", jn, rt, err)
		}
		t.judgeIfaces(u, p.Elem(), "JSON", fmt.Sprintf("%s into %v: %v", jn, rt, err))
		if err == nil {
			t.count("hostile JSON accepted")
		} else {
			t.count("hostile JSON rejected")
		}
		t.evaluated(rt.String()+string(jn), len(jn) > 2)
	}
}

// c10graft replaces prefix bytes of one type by those of another.
func c10graft(t *T, u *universe, in []byte) []byte {
	in = append([]byte{}, in...)
	for k := 0; k < 3; k++ {
		a, b := u.regs[t.rng.Intn(len(u.regs))], u.regs[t.rng.Intn(len(u.regs))]
		for _, r := range u.regs {
			if bytes.Contains(in, r.prefix[:]) && t.rng.Intn(2) == 0 {
				a = r
			}
		}
		if i := bytes.Index(in, a.prefix[:]); i >= 0 {
			copy(in[i:], b.prefix[:])
			if i >= 3 && t.rng.Intn(2) == 0 && bytes.Equal(in[i-3:i], a.disamb[:]) {
				copy(in[i-3:], b.disamb[:])
			}
		}
	}
	return in
}

func refusedEnc(t *T, what string, cdc *amino.Codec, o interface{}) {
	for how, f := range map[string]func() ([]byte, error){
		"MarshalBinaryBare":           func() ([]byte, error) { return cdc.MarshalBinaryBare(o) },
		"MarshalBinaryLengthPrefixed": func() ([]byte, error) { return cdc.MarshalBinaryLengthPrefixed(o) },
		"MarshalJSON":                 func() ([]byte, error) { return cdc.MarshalJSON(o) },
	} {
		var bz []byte
		err, _ := try(func() (err error) { bz, err = f(); return })
		if err == nil {
			t.failf("%s of %s is not refused: %q", how, what, bz)
		}
		t.evaluated(how+what, true)
		t.count("encodings refused")
	}
}

func c10refused(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	// leave one type out, on a codec of its own
	k := t.rng.Intn(len(u.regs))
	out := u.regs[k]
	cdc := amino.NewCodec()
	for _, st := range u.steps(t.rng) {
		if st.reg != out {
			st.apply(cdc)
		}
	}
	g := newGen(t.rng, u)
	g.utf8, g.budget = true, 40
	x := g.value(out.rt, fopt{})
	for _, it := range u.iorder {
		if !implements(out.rt, it) {
			continue
		}
		p := iposs[t.rng.Intn(len(iposs))]
		v := reflect.New(p.mk(it)).Elem()
		p.set(v, addr(x).Addr())
		what := fmt.Sprintf("the unregistered %v in %v at %s", out.rt, it, p.name)
		b := &bcase{t: v.Type(), v: v}
		refusedEnc(t, what, cdc, b.in())
		// what a codec that knows it makes of it
		if bz, err := s.top(v); err == nil && len(bz) > 0 {
			got := reflect.New(v.Type())
			if err, pan := try(func() error { return cdc.UnmarshalBinaryBare(bz, got.Interface()) }); err == nil || pan {
				// the same prefix may belong to another type
				if pan || !c10samePrefix(u, out, it) {
					t.failf("decoding %s from %x: %v, %s", what, bz, err, show(got.Elem()))
				}
			}
			t.count("decodings refused")
		}
		if n, err := s.jtop(v); err == nil {
			got := reflect.New(v.Type())
			if err, pan := try(func() error { return cdc.UnmarshalJSON(n.bytes(), got.Interface()) }); err == nil || pan {
				t.failf("decoding %s from %s: %v, %s", what, n.bytes(), err, show(got.Elem()))
			}
			t.count("decodings refused")
		}
	}
	// interfaces that are not registered
	for _, st := range []interface{}{
		struct{ X INever }{CSt{A: 1}}, struct{ X INever }{&CSt{A: 1}}, []INever{CEmpty{}},
		struct{ X []INever }{[]INever{CSt{A: 1}}}, struct{ X [1]INever }{[1]INever{CSt{A: 1}}}, struct{ Y struct{ X INever } }{struct{ X INever }{CSt{}}},
	} {
		refusedEnc(t, fmt.Sprintf("%T", st), u.cdc, st)
	}
	var nv INever = CSt{A: 1}
	refusedEnc(t, "*INever", u.cdc, &nv)
	for _, rt := range []reflect.Type{tINever, tINone, reflect.TypeOf(struct{ X INever }{}), reflect.TypeOf(struct{ X []INone }{}), reflect.TypeOf([]INever{}), reflect.TypeOf(struct{ X fmt.Stringer }{}), reflect.TypeOf((*error)(nil)).Elem()} {
		ri := u.regs[t.rng.Intn(len(u.regs))]
		full := append([]byte{0}, append(append([]byte{}, ri.disamb[:]...), ri.prefix[:]...)...)
		for _, in := range [][]byte{ri.prefix[:], full, append(key(1, wBytes), lp(ri.prefix[:])...), append(key(1, wBytes), lp(full)...), append(append(key(1, wBytes), lp(full)...), append(key(1, wBytes), lp(full)...)...)} {
			p := reflect.New(rt)
			err, pan := try(func() error { return u.cdc.UnmarshalBinaryBare(in, p.Interface()) })
			if err == nil || pan {
				t.failf("decoding %x into %v: %v, %s", in, rt, err, show(p.Elem()))
			}
			t.judgeIfaces(u, p.Elem(), "binary", fmt.Sprintf("%x into %v: %v", in, rt, err))
			t.evaluated(rt.String()+string(in), true)
			t.count("decodings refused")
		}
		w := string(wrapper(ri.name, jnum("1")).bytes())
		wn := string(wrapper(ri.name, &jnode{kind: jNull}).bytes())
		for _, in := range []string{w, wn, `{"X":` + w + `}`, `{"X":` + wn + `}`, `{"X":[` + wn + `]}`, `[` + wn + `]`, "null", `{"X":null}`} {
			p := reflect.New(rt)
			err, pan := try(func() error { return u.cdc.UnmarshalJSON([]byte(in), p.Interface()) })
			if pan {
				t.failf("decoding %s into %v: %v", in, rt, err)
			}
			if err == nil && (strings.Contains(in, ri.name)) && walkHas(p.Elem()) {
				t.failf("decoding %s into %v: %s", in, rt, show(p.Elem()))
			}
			t.judgeIfaces(u, p.Elem(), "JSON", fmt.Sprintf("%s into %v: %v", in, rt, err))
			t.count("JSON for unregistered interfaces")
		}
	}
}

func walkHas(v reflect.Value) (has bool) {
	walkIfaces(v, 0, func(reflect.Type, reflect.Value) { has = true })
	return
}

func c10samePrefix(u *universe, out *regInfo, it reflect.Type) bool {
	for _, r := range u.regs {
		if r != out && r.prefix == out.prefix && implements(r.rt, it) {
			return true
		}
	}
	return false
}

//----------------------------------------

func c11(c *ctx) {
	c.run("names", c.n(400), c11names)
	c.run("search", 8, c11search)
	c.run("conflicts", c.n(1200), c11conflicts)
	c.run("groups", len(minedGroups), c11group)
	c.run("history", c.n(300), c11history)
}

func c11judgeName(t *T, name string) {
	wd, wp := specDisfix(name)
	d, p := amino.NameToDisfix(name)
	if [3]byte(d) != wd || [4]byte(p) != wp {
		t.failf("NameToDisfix(%q) is %x %x, want %x %x", name, d, p, wd, wp)
	}
	if d[0] == 0 || p[0] == 0 {
		t.failf("NameToDisfix(%q) is %x %x", name, d, p)
	}
	t.count("names derived")
}

type c11T struct{ A int8 }

func c11names(t *T) {
	for i := 0; i < 200; i++ {
		name := genName(t.rng)
		switch t.rng.Intn(4) {
		case 0:
			name = fmt.Sprintf("t/%d", t.rng.Intn(1<<24))
		case 1:
			name = minedZeros[t.rng.Intn(len(minedZeros))]
		case 2:
			gr := minedGroups[t.rng.Intn(len(minedGroups))]
			name = gr[t.rng.Intn(len(gr))]
		}
		c11judgeName(t, name)
		t.evaluated(name, true)
		wd, wp := specDisfix(name)
		if i%10 > 0 || name == "" {
			continue
		}
		cdc := amino.NewCodec()
		cdc.RegisterInterface((*interface{})(nil), &amino.InterfaceOptions{AlwaysDisambiguate: i%20 == 0})
		cdc.RegisterConcrete(c11T{}, name, nil)
		for _, o := range []interface{}{c11T{3}, &c11T{3}} {
			bz, err := marshalBare(cdc, o)
			if err != nil || !bytes.Equal(bz, append(append([]byte{}, wp[:]...), 8, 6)) {
				t.failf("a value registered as %q is encoded as %x, %v", name, bz, err)
			}
		}
		var x interface{} = c11T{3}
		bz, err := marshalBare(cdc, &x)
		want := append(append([]byte{}, wp[:]...), 8, 6)
		if i%20 == 0 {
			want = append(append([]byte{0}, wd[:]...), want...)
		}
		if err != nil || !bytes.Equal(bz, want) {
			t.failf("a value registered as %q in an interface is encoded as %x, want %x (%v)", name, bz, want, err)
		}
		d, hasD, p, hasP, n, err := amino.DecodeDisambPrefixBytes(bz)
		if err != nil || !hasP || hasD != (i%20 == 0) || [4]byte(p) != wp || hasD && [3]byte(d) != wd || n != len(want)-2 {
			t.failf("DecodeDisambPrefixBytes(%x): %x %v %x %v %d %v", bz, d, hasD, p, hasP, n, err)
		}
		t.count("names registered")
	}
	if t.idx%50 == 0 {
		n := genName(t.rng)
		d, p := amino.NameToDisfix(n)
		t.sample("%q -> %x %x", n, d, p)
	}
}

// c11search goes through many names, so that all cases of skipped zeros occur.
func c11search(t *T) {
	n := t.c.n(150000)
	if n > 20000000 {
		n = 20000000
	}
	for i := 0; i < n; i++ {
		c11judgeName(t, fmt.Sprintf("s%d/%d/%d", t.c.seed, t.idx, i))
	}
	t.evaluated(fmt.Sprint("search", t.idx), true)
}

// parseIfaceBytes looks at what stands for an interface value.
func parseIfaceBytes(b []byte) (disamb, prefix []byte, rest []byte) {
	if len(b) >= 8 && b[0] == 0 {
		return b[1:4], b[4:8], b[8:]
	}
	if len(b) >= 4 {
		return nil, b[:4], b[4:]
	}
	return nil, nil, b
}

// c11conflicts: universes with many conflicts and options.
func c11conflicts(t *T) {
	u := c11universe(t, nil)
	c11judge(t, u)
}

// c11group: every mined group.
func c11group(t *T) {
	for i := 0; i < 4; i++ {
		c11judge(t, c11universe(t, minedGroups[t.idx]))
	}
}

// c11history: the rule is about what is registered now, also when types have
// been used before others were registered.
func c11history(t *T) {
	all := c11universe(t, minedGroups[t.idx%len(minedGroups)])
	u := newUniverseModel()
	u.cdc = amino.NewCodec()
	steps := all.steps(t.rng)
	if t.rng.Intn(2) == 0 { // interfaces first
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].iface != nil && steps[j].iface == nil })
	}
	for _, st := range steps {
		st.apply(u.cdc)
		if st.iface != nil {
			u.addIface(st.iface.rt, st.iface.always, st.iface.prio)
		} else {
			u.regs = append(u.regs, st.reg)
			u.byType[st.reg.rt], u.byName[st.reg.name] = st.reg, st.reg
		}
		if t.rng.Intn(3) == 0 {
			c11judge(t, u)
			t.count("judged between registrations")
		}
	}
	c11judge(t, u)
}

func c11universe(t *T, group []string) *universe {
	u := newUniverseModel()
	var names []string
	names = append(names, group...)
	for len(names) < 12 {
		switch t.rng.Intn(4) {
		case 3:
			names = append(names, minedDisamb[t.rng.Intn(len(minedDisamb))]...)
		case 0:
			names = append(names, minedGroups[t.rng.Intn(len(minedGroups))]...)
		case 1:
			names = append(names, minedZeros[t.rng.Intn(len(minedZeros))])
		default:
			names = append(names, fmt.Sprintf("c11/%d", t.rng.Intn(100000)))
		}
	}
	perm := t.rng.Perm(len(concretes))
	for i, n := range names {
		if u.byName[n] == nil {
			u.add(concretes[perm[i%len(perm)]].rt, n, t.rng.Intn(2) == 0)
		}
		if len(u.regs) == len(perm) || i+1 == len(perm) {
			break
		}
	}
	for _, it := range []reflect.Type{tI1, tI2, tIA, tAny} {
		if t.rng.Intn(5) > 0 {
			u.addIface(it, t.rng.Intn(4) == 0, nil)
		}
	}
	u.fixPrio(t.rng)
	u.cdc = u.build(t.rng)
	return u
}

func c11judge(t *T, u *universe) {
	s := &spec{u: u}
	g := newGen(t.rng, u)
	for _, ri := range u.regs {
		if !binOK(ri.rt) || !u.usable(ri.rt) {
			continue // its fields have to be registered, too
		}
		g.budget = 30
		x := g.value(ri.rt, fopt{})
		if _, err := s.top(x); err != nil {
			continue
		}
		// by itself
		bz, err := marshalBare(u.cdc, x.Interface())
		if err != nil || len(bz) < 4 || !bytes.Equal(bz[:4], ri.prefix[:]) {
			t.failf("%s by itself is encoded as %x, %v", regStep{reg: ri}, bz, err)
		}
		if _, err := unmarshalBare(u.cdc, bz, ri.rt); err != nil {
			t.failf("%s by itself, %x: %v", regStep{reg: ri}, bz, err)
		}
		alteredPrefixes(t, u, s, bz, ri, ri.rt, regStep{reg: ri}.String()+" by itself")
		for _, it := range u.iorder {
			if !implements(ri.rt, it) {
				continue
			}
			for _, p := range iposs[:2] {
				v := reflect.New(p.mk(it)).Elem()
				p.set(v, addr(x).Addr())
				b := &bcase{u: u, s: s, cdc: u.cdc, t: v.Type(), v: v}
				bz, err := marshalBare(u.cdc, b.in())
				if err != nil {
					t.failf("encoding %s in %v: %v", regStep{reg: ri}, it, err)
				}
				at := bz
				if p.name == "field" {
					k, cl, n, err := getKey(bz)
					if err != nil || k != 2 || cl != wBytes {
						t.failf("encoding %s in a field of %v: %x", regStep{reg: ri}, it, bz)
					}
					at, _, err = getLp(bz[n:])
					if err != nil {
						t.failf("encoding %s in a field of %v: %x", regStep{reg: ri}, it, bz)
					}
				}
				d, pb, _ := parseIfaceBytes(at)
				need := u.needDisamb(it, ri)
				if !bytes.Equal(pb, ri.prefix[:]) || (d != nil) != need || need && !bytes.Equal(d, ri.disamb[:]) {
					t.failf("%s (%x %x) in %s at %s is encoded as %x; disambiguation needed: %v", regStep{reg: ri}, ri.disamb, ri.prefix, regStep{iface: u.ifaces[it]}, p.name, bz, need)
				}
				if need {
					t.count("with disambiguation")
				} else {
					t.count("without disambiguation")
				}
				if u.conflicts(it, ri) > 0 {
					t.count("conflicting")
				}
				got, err := unmarshalBare(u.cdc, bz, b.t)
				if err != nil {
					t.failf("decoding %x, %s in %v: %v", bz, regStep{reg: ri}, it, err)
				}
				if e := p.get(got); e.IsNil() || e.Elem().Type() != c10form(ri, it) {
					t.failf("decoding %x, %s in %v: %s", bz, regStep{reg: ri}, it, show(e))
				}
				norm, err := s.normTop(v)
				if err != nil {
					t.failf("model: %v", err)
				}
				if df := diff(norm, got); df != "" {
					t.failf("decoding %x, %s in %v: %s", bz, regStep{reg: ri}, it, df)
				}
				t.evaluated(fmt.Sprint(ri.name, ri.rt, it, need, p.name), true)
				alteredPrefixes(t, u, s, bz, ri, b.t, fmt.Sprint(regStep{reg: ri}, " in ", it))
				// the other form is accepted or refused as the rule says
				var other []byte
				if need {
					other = at[4:]
				} else {
					other = append(append([]byte{0}, ri.disamb[:]...), at...)
				}
				if p.name == "top" {
					want, werr := s.decTop(other, it)
					got, err := unmarshalBare(u.cdc, other, it)
					if (err == nil) != (werr == nil) {
						t.failf("decoding the other form %x, %s in %v: %v, want %v", other, regStep{reg: ri}, it, err, werr)
					}
					if err == nil {
						if df := diff(want, got); df != "" {
							t.failf("decoding the other form %x, %s in %v: %s", other, regStep{reg: ri}, it, df)
						}
					}
					t.count("the other form")
				}
			}
		}
	}
}
