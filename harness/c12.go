package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C12", run: c12,
		rule:  "random histories of valid and refused registrations (taken types, names, prefixes that conflict with and without priority lists, used types, non-interfaces, pointer-pointers, interface pointers, types that cannot be encoded), first uses of types, failing calls and printing run on a codec, next to a model of what is registered: the verdict of every registration, the printed table, and the encodings and decodings of values of all registered types, in all interfaces, are compared with the model before and after each refusal; the final state is compared with a codec that has the same registrations in another order; registrations race for types, names and prefixes, and exactly one may win; codecs with hundreds of registrations; distinct = distinct (operation, state), non-trivial = histories with a refusal",
		assum: []string{"types that were only touched inside of other types may or may not count as used"}})
}

// extra types for registrations
type (
	XA      struct{ A int32 }
	XB      struct{ B string }
	XC      struct{ C []byte }
	XD      int16
	XE      struct{ E XIn }
	XIn     struct{ V uint8 }
	XF      []string
	XFloat  struct{ F float64 }
	XFloat2 struct{ G []float32 }
	XChan   struct{ C []chan int }
	XBadM   struct{}
	XBadU   struct{}
	XBadP   struct{}
)

func (XA) Is1()                            {}
func (XB) Is1()                            {}
func (XB) Is2()                            {}
func (*XC) Is1()                           {}
func (*XC) IsA()                           {}
func (XD) Is2()                            {}
func (XE) Is1()                            {}
func (XF) IsA()                            {}
func (XBadM) MarshalAmino() string         { return "" }
func (*XBadU) UnmarshalAmino(string) bool  { return true }
func (XBadP) MarshalAmino() (*Leaf, error) { return nil, nil }

var xTypes = []reflect.Type{reflect.TypeOf(XA{}), reflect.TypeOf(XB{}), reflect.TypeOf(XC{}), reflect.TypeOf(XD(0)), reflect.TypeOf(XE{}), reflect.TypeOf(XF(nil))}

// regModel is what has to be registered.
type regModel struct {
	u     *universe
	rows  []string // of the printed table
	used  map[reflect.Type]bool
	maybe map[reflect.Type]bool // may count as used
}

func newRegModel() *regModel {
	return &regModel{u: newUniverseModel(), used: map[reflect.Type]bool{}, maybe: map[reflect.Type]bool{}}
}

// prioOK: whether all types that conflict are listed for the interface.
func prioOK(ii *ifaceInfo, impl []*regInfo) bool {
	for _, a := range impl {
		for _, b := range impl {
			if a == b || a.prefix != b.prefix {
				continue
			}
			found := false
			for _, p := range ii.prio {
				if p == a.name {
					found = true
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// verdict: "" if it has to be accepted, "?" if it may be, or why it is to be refused.
func (m *regModel) verdict(s regStep) string {
	if s.iface != nil {
		if m.u.ifaces[s.iface.rt] != nil {
			return "interface already registered"
		}
		if !prioOK(s.iface, m.u.implementers(s.iface.rt, false)) {
			return "conflict without priority"
		}
		return ""
	}
	if m.u.byType[s.reg.rt] != nil {
		return "type already registered"
	}
	if m.u.byName[s.reg.name] != nil {
		return "name taken"
	}
	for _, it := range m.u.iorder {
		if implements(s.reg.rt, it) && !prioOK(m.u.ifaces[it], append(m.u.implementers(it, false), s.reg)) {
			return "conflict without priority"
		}
	}
	if m.used[s.reg.rt] {
		return "type already used"
	}
	if m.maybe[s.reg.rt] {
		return "?"
	}
	return ""
}

func (m *regModel) do(s regStep) {
	if s.iface != nil {
		m.u.addIface(s.iface.rt, s.iface.always, s.iface.prio)
		return
	}
	m.u.add(s.reg.rt, s.reg.name, s.reg.ptr)
	m.rows = append(m.rows, tableRow(s.reg))
}

const tableHead = "| Type | Name | Prefix | Length | Notes |\n| ---- | ---- | ------ | ----- | ------ |\n"

func tableRow(ri *regInfo) string {
	l := "variable"
	switch ri.rt.Kind() {
	case reflect.Array, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		l = fmt.Sprintf("0x%X", ri.rt.Size())
	}
	return fmt.Sprintf("| %s | %s | 0x%X | %s |  |\n", ri.rt.Name(), ri.name, ri.prefix[:], l)
}

func (m *regModel) table() string { return tableHead + strings.Join(m.rows, "") }

func printTypes(cdc *amino.Codec) (string, error) {
	var buf bytes.Buffer
	err, _ := try(func() error { return cdc.PrintTypes(&buf) })
	return buf.String(), err
}

// probe compares the codec with the model.
func (m *regModel) probe(t *T, cdc *amino.Codec, n int) {
	if got, err := printTypes(cdc); err != nil || got != m.table() {
		t.failf("PrintTypes: %v\n%s\nwant\n%s", err, got, m.table())
	}
	t.count("tables compared")
	s := &spec{u: m.u}
	g := newGen(t.rng, m.u)
	g.utf8 = true
	regs := m.u.regs
	for k := 0; k < n && len(regs) > 0; k++ {
		ri := regs[t.rng.Intn(len(regs))]
		if !m.u.usable(ri.rt) {
			continue // not all of its fields are registered
		}
		g.budget = 25
		x := g.value(ri.rt, fopt{})
		m.probeValue(t, cdc, s, x)
		var its []reflect.Type
		for _, it := range m.u.iorder {
			if implements(ri.rt, it) {
				its = append(its, it)
			}
		}
		if len(its) > 0 {
			it := its[t.rng.Intn(len(its))]
			p := iposs[t.rng.Intn(2)]
			v := reflect.New(p.mk(it)).Elem()
			p.set(v, addr(x).Addr())
			m.probeValue(t, cdc, s, v)
		}
	}
	// what is not registered is refused
	for _, it := range []reflect.Type{tI1, tI2, tIA, tAny} {
		if m.u.ifaces[it] == nil && len(regs) > 0 {
			ri := regs[t.rng.Intn(len(regs))]
			if implements(ri.rt, it) {
				v := reflect.New(it)
				v.Elem().Set(reflect.New(ri.rt))
				if bz, err := marshalBare(cdc, v.Interface()); err == nil {
					t.failf("a value in the unregistered %v is encoded as %x", it, bz)
				}
				t.count("unregistered interfaces refused")
			}
		}
	}
}

func (m *regModel) probeValue(t *T, cdc *amino.Codec, s *spec, v reflect.Value) {
	b := &bcase{t: v.Type(), v: addr(v)}
	if want, err := s.top(v); err == nil {
		bz, err := marshalBare(cdc, b.in())
		if err != nil || !bytes.Equal(bz, want) {
			t.failf("encoding of %s\nis   %x (%v)\nwant %x", show(v), bz, err, want)
		}
		if len(want) > 0 {
			norm, err := s.normTop(v)
			if err != nil {
				t.failf("model: %v", err)
			}
			got, err := unmarshalBare(cdc, bz, v.Type())
			if err != nil {
				t.failf("decoding %x of %s: %v", bz, show(v), err)
			}
			if d := diff(norm, got); d != "" {
				t.failf("decoding %x of %s: %s", bz, show(v), d)
			}
		}
		t.count("values probed, binary")
	}
	if want, err := s.jtop(v); err == nil {
		bz, err := marshalJSON(cdc, b.in())
		if err != nil {
			t.failf("JSON encoding of %s: %v", show(v), err)
		}
		n, err := jparse(bz)
		w, werr := jparse(want.bytes())
		if err != nil || werr != nil || jdiff(w, n, "") != "" {
			t.failf("JSON encoding of %s is %s, want %s", show(v), bz, want.bytes())
		}
		t.count("values probed, JSON")
	}
}

func c12(c *ctx) {
	c.run("history", c.n(1500), c12history)
	c.run("orders", c.n(300), c12orders)
	c.run("contention", c.n(300), c12contention)
	c.run("afterpanics", c.n(300), c12afterPanics)
	c.run("many", c.n(16), c12many)
}

// c12many: hundreds of registrations, some with long names.
func c12many(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	n := 60 + t.rng.Intn(250)
	if t.idx%4 == 0 {
		n = 500 + t.rng.Intn(700)
	}
	prefixes := map[[4]byte]bool{}
	at := t.rng.Intn(n)
	for i := 0; i < n; i++ {
		if i == at {
			st := regStep{iface: &ifaceInfo{rt: tAny, always: t.rng.Intn(4) == 0}}
			st.apply(cdc)
			m.do(st)
		}
		var rt reflect.Type
		switch t.rng.Intn(4) {
		case 0:
			rt = reflect.ArrayOf(1000+i, reflect.TypeOf(uint8(0)))
		case 1:
			rt = reflect.SliceOf(reflect.ArrayOf(1+i, reflect.TypeOf(uint8(0))))
		case 2:
			rt = reflect.StructOf([]reflect.StructField{fld(fmt.Sprint("M", i), reflect.TypeOf(""), ""), fld("Z", reflect.TypeOf(0), `binary:"fixed32"`)})
		default:
			rt = reflect.SliceOf(reflect.StructOf([]reflect.StructField{fld(fmt.Sprint("L", i), reflect.TypeOf(int8(0)), "")}))
		}
		name := fmt.Sprint("many/", i)
		if t.rng.Intn(10) == 0 {
			name = strings.Repeat("long/", 1+t.rng.Intn(200)) + name
		}
		ri := &regInfo{rt: rt, name: name, ptr: t.rng.Intn(2) == 0}
		ri.disamb, ri.prefix = specDisfix(name)
		if prefixes[ri.prefix] {
			continue
		}
		prefixes[ri.prefix] = true
		st := regStep{reg: ri}
		if pv, _ := guard(func() { st.apply(cdc) }); pv != nil {
			t.failf("after %d registrations, %s is refused: %v", i, st, pv)
		}
		m.do(st)
		if t.rng.Intn(n) < 3 {
			m.probe(t, cdc, 6)
		}
	}
	m.probe(t, cdc, 60)
	if st := (regStep{reg: m.u.regs[t.rng.Intn(len(m.u.regs))]}); true {
		if pv, _ := guard(func() { st.apply(cdc) }); pv == nil {
			t.failf("after %d registrations, %s is accepted again", n, st)
		}
	}
	m.probe(t, cdc, 6)
	t.countN("registrations in large codecs", int64(n))
	t.evaluated(m.table(), true)
}

func (t *T) c12step(m *regModel) regStep {
	r := t.rng
	if r.Intn(4) == 0 {
		it := []reflect.Type{tI1, tI2, tIA, tAny, tINone}[r.Intn(5)]
		ii := &ifaceInfo{rt: it, always: r.Intn(4) == 0}
		// a list that names what conflicts now or may later, or some of it
		var all []string
		for _, g := range minedGroups[:6] {
			all = append(all, g...)
		}
		for _, g := range minedNear[:8] {
			all = append(all, g...)
		}
		for _, n := range all {
			if r.Intn(8) > 0 {
				ii.prio = append(ii.prio, n)
			}
		}
		if r.Intn(5) == 0 {
			ii.prio = nil
		}
		r.Shuffle(len(ii.prio), func(i, j int) { ii.prio[i], ii.prio[j] = ii.prio[j], ii.prio[i] })
		return regStep{iface: ii}
	}
	var rt reflect.Type
	if r.Intn(3) == 0 {
		rt = xTypes[r.Intn(len(xTypes))]
	} else {
		rt = concretes[r.Intn(len(concretes))].rt
	}
	var name string
	switch r.Intn(5) {
	case 0, 1:
		g := minedGroups[r.Intn(6)]
		switch r.Intn(4) {
		case 0:
			g = minedNear[r.Intn(8)]
		case 1:
			g = minedDisamb[r.Intn(3)]
		}
		name = g[r.Intn(len(g))]
	case 2:
		if len(m.u.regs) > 0 && r.Intn(3) > 0 {
			name = m.u.regs[r.Intn(len(m.u.regs))].name
			if r.Intn(2) == 0 { // another name, however similar
				name = nearName(r, name)
			}
			break
		}
		fallthrough
	default:
		name = fmt.Sprintf("h/%d", r.Intn(100000))
	}
	ri := &regInfo{rt: rt, name: name, ptr: r.Intn(2) == 0}
	ri.disamb, ri.prefix = specDisfix(name)
	return regStep{reg: ri}
}

// malformed registrations: all have to be refused
func c12malformed(t *T, cdc *amino.Codec) (string, func()) {
	name := fmt.Sprintf("bad/%d", t.rng.Intn(100000))
	iopts := []*amino.InterfaceOptions{nil, {AlwaysDisambiguate: true}}[t.rng.Intn(2)]
	var pp = new(*XA)
	var i1p *I1 = new(I1)
	fs := []struct {
		what string
		f    func()
	}{
		{"RegisterInterface(nil)", func() { cdc.RegisterInterface(nil, iopts) }},
		{"RegisterInterface(XA{})", func() { cdc.RegisterInterface(XA{}, iopts) }},
		{"RegisterInterface(&XA{})", func() { cdc.RegisterInterface(&XA{}, iopts) }},
		{"RegisterInterface((**I1)(nil))", func() { cdc.RegisterInterface((**I1)(nil), iopts) }},
		{"RegisterInterface(3)", func() { cdc.RegisterInterface(3, iopts) }},
		{"RegisterInterface(&[]I1{})", func() { cdc.RegisterInterface(&[]I1{}, iopts) }},
		{"RegisterConcrete(nil)", func() { cdc.RegisterConcrete(nil, name, nil) }},
		{"RegisterConcrete(**XA)", func() { cdc.RegisterConcrete(pp, name, nil) }},
		{"RegisterConcrete((**XA)(nil))", func() { cdc.RegisterConcrete((**XA)(nil), name, nil) }},
		{"RegisterConcrete(*I1)", func() { cdc.RegisterConcrete(i1p, name, nil) }},
		{"RegisterConcrete((*I1)(nil))", func() { cdc.RegisterConcrete((*I1)(nil), name, nil) }},
		{"RegisterConcrete(XFloat{})", func() { cdc.RegisterConcrete(XFloat{}, name, nil) }},
		{"RegisterConcrete(&XFloat{})", func() { cdc.RegisterConcrete(&XFloat{}, name, nil) }},
		{"RegisterConcrete(XChan{})", func() { cdc.RegisterConcrete(XChan{}, name, nil) }},
		{"RegisterConcrete(XBadM{})", func() { cdc.RegisterConcrete(XBadM{}, name, nil) }},
		{"RegisterConcrete(XBadU{})", func() { cdc.RegisterConcrete(XBadU{}, name, nil) }},
		{"RegisterConcrete(XBadP{})", func() { cdc.RegisterConcrete(XBadP{}, name, nil) }},
	}
	k := t.rng.Intn(len(fs))
	return fs[k].what, fs[k].f
}

func c12history(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	refusals := 0
	var log []string
	for step := 0; step < 40; step++ {
		t.desc = append(t.desc[:0], strings.Join(log, "\n"))
		switch t.rng.Intn(10) {
		case 0:
			what, f := c12malformed(t, cdc)
			log = append(log, what)
			pv, _ := guard(f)
			if pv == nil {
				t.failf("%s is not refused", what)
			}
			refusals++
			t.count("malformed registrations refused")
			t.desc = append(t.desc[:0], strings.Join(log, "\n"))
			m.probe(t, cdc, 2)
		case 1: // use a type
			all := append(append([]reflect.Type{}, xTypes...), reflect.TypeOf(CSt{}), reflect.TypeOf(CStr("")), reflect.TypeOf(CEmpty{}), reflect.TypeOf(CLeaves(nil)))
			rt := all[t.rng.Intn(len(all))]
			log = append(log, fmt.Sprintf("use %v", rt))
			if t.rng.Intn(3) == 0 {
				// within another type
				v := reflect.New(reflect.StructOf([]reflect.StructField{fld("F", rt, ""), fld("G", reflect.SliceOf(rt), "")}))
				_, _ = marshalBare(cdc, v.Interface())
				if m.u.byType[rt] == nil {
					m.maybe[rt] = true
				}
			} else {
				var err error
				if t.rng.Intn(2) == 0 {
					_, err = marshalBare(cdc, reflect.New(rt).Interface())
				} else {
					_, err = marshalJSON(cdc, reflect.New(rt).Interface())
				}
				if err != nil {
					t.failf("encoding a zero %v: %v", rt, err)
				}
				if m.u.byType[rt] == nil {
					m.used[rt] = true
				}
			}
			if rt == reflect.TypeOf(XE{}) {
				m.maybe[reflect.TypeOf(XIn{})] = true
			}
		case 2: // calls that fail
			o := []interface{}{make(chan int), struct{ F float64 }{1}, map[string]int{"a": 1}, struct{ M map[string]int }{map[string]int{"a": 1}}, struct{ X INever }{CSt{}}, (*XIn)(nil), struct{ C complex128 }{1}, [][]int{{1}}, func() {}}[t.rng.Intn(9)]
			log = append(log, fmt.Sprintf("failing encoding of a %T", o))
			_, _ = marshalBare(cdc, o)
			_, _ = unmarshalBare(cdc, []byte{0xff, 1}, reflect.TypeOf(o))
			t.count("failing calls")
		default:
			s := t.c12step(m)
			v := m.verdict(s)
			before, _ := printTypes(cdc)
			pv, _ := guard(func() { s.apply(cdc) })
			log = append(log, fmt.Sprintf("%s: model says %q, panic %v", s, v, pv))
			t.desc = append(t.desc[:0], strings.Join(log, "\n"))
			switch {
			case v == "" && pv != nil:
				t.failf("%s is refused: %v", s, pv)
			case v != "" && v != "?" && pv == nil:
				t.failf("%s is not refused (%s)", s, v)
			}
			if pv == nil {
				m.do(s)
				t.count("registrations accepted")
			} else {
				refusals++
				t.count("registrations refused: " + v)
				if after, _ := printTypes(cdc); after != before {
					t.failf("%s is refused, but the table changes from\n%s\nto\n%s", s, before, after)
				}
			}
			m.probe(t, cdc, 3)
			t.evaluated(fmt.Sprint(s, len(m.u.regs), len(m.u.iorder), v), refusals > 0)
		}
	}
	m.probe(t, cdc, 10)
	// the same registrations in another order
	c12other(t, m, cdc)
	if t.idx%100 == 0 {
		t.sample("%s", strings.Join(log, "; "))
	}
}

// c12other compares cdc with a codec that has the registrations in another order.
func c12other(t *T, m *regModel, cdc *amino.Codec) {
	var other *amino.Codec
	pv, _ := guard(func() { other = m.u.build(t.rng) })
	if pv != nil {
		t.failf("the registrations in another order are refused: %v", pv)
	}
	s := &spec{u: m.u}
	g := newGen(t.rng, m.u)
	for _, ri := range m.u.regs {
		if !m.u.usable(ri.rt) {
			continue
		}
		g.budget = 20
		x := g.value(ri.rt, fopt{})
		for _, it := range m.u.iorder {
			if !implements(ri.rt, it) {
				continue
			}
			v := reflect.New(it)
			v.Elem().Set(addr(x).Addr())
			if _, err := s.top(v.Elem()); err != nil {
				continue
			}
			a, err1 := marshalBare(cdc, v.Interface())
			b, err2 := marshalBare(other, v.Interface())
			if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
				t.failf("encoding of %s in %v: %x (%v), with the registrations in another order %x (%v)", show(x), it, a, err1, b, err2)
			}
			t.count("compared with another order")
		}
	}
}

func c12orders(t *T) {
	u := newUniverse(t.rng)
	m := newRegModel()
	m.u = u
	for _, ri := range u.regs {
		m.rows = append(m.rows, tableRow(ri))
	}
	sort.Strings(m.rows)
	for i := 0; i < 3; i++ {
		cdc := amino.NewCodec()
		mm := newRegModel()
		for _, s := range u.steps(t.rng) {
			if v := mm.verdict(s); v != "" {
				t.failf("model refuses %s: %s", s, v)
			}
			pv, _ := guard(func() { s.apply(cdc) })
			if pv != nil {
				t.failf("%s is refused: %v", s, pv)
			}
			mm.do(s)
			if t.rng.Intn(6) == 0 { // in use while it grows
				mm.probe(t, cdc, 1)
			}
		}
		mm.probe(t, cdc, 8)
		c12other(t, mm, cdc)
		t.evaluated(fmt.Sprint(t.idx, i), true)
	}
}

// c12contention: many goroutines want the same; exactly one may get it.
func c12contention(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	i1 := regStep{iface: &ifaceInfo{rt: tI1}}
	any := regStep{iface: &ifaceInfo{rt: tAny, prio: append(append([]string{}, minedGroups[0]...), "x")}}
	for _, s := range []regStep{i1, any} {
		s.apply(cdc)
		m.do(s)
	}
	var steps []regStep
	kind := t.rng.Intn(4)
	add := func(rt reflect.Type, name string, ptr bool) {
		ri := &regInfo{rt: rt, name: name, ptr: ptr}
		ri.disamb, ri.prefix = specDisfix(name)
		steps = append(steps, regStep{reg: ri})
	}
	n := 2 + t.rng.Intn(7)
	switch kind {
	case 0: // one type, different names
		for i := 0; i < n; i++ {
			add(reflect.TypeOf(CSt{}), fmt.Sprintf("c%d", i), i%2 == 0)
		}
	case 1: // one name, different types
		for i := 0; i < n; i++ {
			add(concretes[i].rt, "same", false)
		}
	case 2: // equal prefixes, no priority
		g := minedGroups[4]
		for i, n := range g {
			add([]reflect.Type{reflect.TypeOf(CSt{}), reflect.TypeOf(CPtr{}), reflect.TypeOf(CInt64(0))}[i], n, false)
		}
	case 3: // one interface
		for i := 0; i < n; i++ {
			steps = append(steps, regStep{iface: &ifaceInfo{rt: tI2, always: i%2 == 0}})
		}
	}
	var mtx sync.Mutex
	var won []regStep
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, s := range steps {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			pv, _ := guard(func() { s.apply(cdc) })
			if pv == nil {
				mtx.Lock()
				won = append(won, s)
				mtx.Unlock()
			}
		}()
	}
	// others use the codec meanwhile
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 20; k++ {
				_, _ = marshalBare(cdc, Leaf{1, "x"})
				_, _ = printTypes(cdc)
				_, _ = unmarshalBare(cdc, []byte{8, 2}, reflect.TypeOf(LeafP{}))
			}
		}()
	}
	close(start)
	wg.Wait()
	if len(won) != 1 {
		t.failf("%d of the racing registrations succeed: %v", len(won), won)
	}
	m.do(won[0])
	m.probe(t, cdc, 5)
	t.count("contentions won by one")
	t.evaluated(fmt.Sprint(kind, won[0], t.idx), true)
}

// c12afterPanics: calls that panic, in the middle of all others; nothing may block or change.
func c12afterPanics(t *T) {
	u := newUniverse(t.rng)
	m := newRegModel()
	m.u = u
	cdc := amino.NewCodec()
	for _, s := range u.steps(nil) {
		s.apply(cdc)
	}
	for _, ri := range u.regs {
		m.rows = append(m.rows, tableRow(ri))
	}
	for i := 0; i < 12; i++ {
		what, f := c12malformed(t, cdc)
		if pv, _ := guard(f); pv == nil {
			t.failf("%s is not refused", what)
		}
		s := t.c12step(m)
		if s.reg != nil && m.u.byType[s.reg.rt] == nil {
			s.reg.name = u.regs[0].name // taken
		} else if s.iface != nil {
			s.iface.rt = tI1
		}
		if pv, _ := guard(func() { s.apply(cdc) }); pv == nil {
			t.failf("%s is not refused", s)
		}
		for _, o := range []interface{}{&XFloat{}, &XFloat2{}, &XChan{}, struct{ M map[int]int }{}, &XBadM{}, struct{ B *XBadU }{&XBadU{}}} {
			_, _ = marshalBare(cdc, o)
			_, _ = marshalJSON(cdc, o)
			_, _ = unmarshalJSON(cdc, []byte("{}"), reflect.TypeOf(o))
		}
		m.probe(t, cdc, 3)
		t.evaluated(fmt.Sprint(what, s, t.idx), true)
	}
	// and new registrations still work
	s := regStep{reg: &regInfo{rt: reflect.TypeOf(XA{}), name: fmt.Sprintf("late/%d", t.idx)}}
	s.reg.disamb, s.reg.prefix = specDisfix(s.reg.name)
	pv, _ := guard(func() { s.apply(cdc) })
	if v := m.verdict(s); v == "" {
		if pv != nil {
			t.failf("%s is refused: %v", s, pv)
		}
		m.do(s)
		m.probe(t, cdc, 6)
		t.count("late registrations")
	}
}
