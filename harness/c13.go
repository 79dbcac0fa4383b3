package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C13", run: c13,
		rule:  "codecs with random registrations are sealed at random points; afterwards registrations of all kinds (new, known, malformed; by value, by pointer, interfaces with and without options) have to panic, and the printed table, the encodings and decodings of all registered types, of types used the first time and of the types whose registration was refused are compared with a model and with those before sealing; in the racing phases goroutines register types with many fields (so that a registration takes long) while others seal and use the codec: with the time stamps of an atomic clock no registration that began after a sealing ended may succeed, and the table seen after a sealing is the final one; distinct = distinct (state, attempt), all non-trivial",
		assum: []string{"which interleavings occur is up to the scheduler"}})
}

func c13(c *ctx) {
	c.run("sequential", c.n(800), c13sequential)
	c.run("race", c.n(1500), c13race)
}

func c13sequential(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	other := amino.NewCodec() // never sealed
	om := newRegModel()
	u := newUniverse(t.rng)
	steps := u.steps(t.rng)
	k := t.rng.Intn(len(steps) + 1)
	if t.rng.Intn(3) == 0 {
		k = len(steps)
	}
	for _, s := range steps[:k] {
		if m.verdict(s) != "" {
			continue
		}
		s.apply(cdc)
		m.do(s)
		s.apply(other)
		om.do(s)
		if t.rng.Intn(8) == 0 {
			m.probe(t, cdc, 1)
		}
	}
	s := &spec{u: m.u}
	g := newGen(t.rng, m.u)
	g.utf8 = true
	// values and what they are before
	type kept struct {
		v        reflect.Value
		bin, jsn []byte
	}
	var keep []kept
	for _, ri := range m.u.regs {
		if !m.u.usable(ri.rt) || t.rng.Intn(2) == 0 {
			continue
		}
		g.budget = 20
		v := addr(g.value(ri.rt, fopt{}))
		b, _ := marshalBare(cdc, v.Interface())
		j, _ := marshalJSON(cdc, v.Interface())
		keep = append(keep, kept{v, b, j})
	}
	if t.rng.Intn(2) == 0 {
		m.probe(t, cdc, 5)
	}
	var ret *amino.Codec
	if pv, _ := guard(func() { ret = cdc.Seal() }); pv != nil {
		t.failf("Seal panics: %v", pv)
	}
	if ret != cdc {
		t.failf("Seal returns another codec: %p, not %p", ret, cdc)
	}
	for round := 0; round < 12; round++ {
		switch t.rng.Intn(8) {
		case 0:
			if ret := cdc.Seal(); ret != cdc {
				t.failf("a second Seal returns another codec: %p, not %p", ret, cdc)
			}
			t.count("sealed again")
		case 1:
			what, f := c12malformed(t, cdc)
			if pv, _ := guard(f); pv == nil {
				t.failf("%s is not refused by a sealed codec", what)
			}
			t.count("malformed registrations refused")
		default:
			st := t.c12step(m)
			pv, _ := guard(func() { st.apply(cdc) })
			if pv == nil {
				t.failf("%s is not refused by a sealed codec", st)
			}
			t.count("registrations refused")
			t.evaluated(fmt.Sprint(st, k), true)
			if st.reg != nil && m.u.byType[st.reg.rt] == nil && m.u.usable(st.reg.rt) && binOK(st.reg.rt) {
				// still not registered
				g.budget = 20
				v := addr(g.value(st.reg.rt, fopt{}))
				m.probeValue(t, cdc, s, v)
				for _, it := range m.u.iorder {
					if implements(st.reg.rt, it) {
						x := reflect.New(it)
						x.Elem().Set(v.Addr())
						if bz, err := marshalBare(cdc, x.Interface()); err == nil {
							t.failf("after %s was refused, the type is encoded in the interface %v as %x", st, it, bz)
						}
						t.count("types of refused registrations in interfaces")
					}
				}
			}
			// another codec is not affected
			if v := om.verdict(st); v == "" && t.rng.Intn(3) == 0 {
				if pv, _ := guard(func() { st.apply(other) }); pv != nil {
					t.failf("%s is refused by a codec that was not sealed: %v", st, pv)
				}
				om.do(st)
				om.probe(t, other, 2)
				t.count("registrations on another codec")
			}
		}
		m.probe(t, cdc, 3)
	}
	for _, kv := range keep {
		b, _ := marshalBare(cdc, kv.v.Interface())
		j, _ := marshalJSON(cdc, kv.v.Interface())
		if !bytes.Equal(b, kv.bin) || !bytes.Equal(j, kv.jsn) {
			t.failf("encodings of %s: before sealing %x %s, after it %x %s", show(kv.v), kv.bin, kv.jsn, b, j)
		}
		t.count("values compared with before")
	}
	// types that are new to the codec
	if k == len(steps) {
		cases(t, &universe{cdc: cdc, regs: m.u.regs, byType: m.u.byType, byName: m.u.byName, ifaces: m.u.ifaces, iorder: m.u.iorder}, genOpts{utf8: true, richTags: true}, 4, 3, func(b *bcase) {
			m.probeValue(t, cdc, s, b.v)
			t.count("values of new types")
		})
	}
	if t.idx%100 == 0 {
		t.sample("%d registrations, sealed, 12 attempts refused; table:\n%s", k, m.table())
	}
}

var c13wideTypes []reflect.Type
var c13once sync.Once

// types whose registration takes a while
func c13wide() []reflect.Type {
	c13once.Do(func() {
		for i := 0; i < 24; i++ {
			var fs []reflect.StructField
			for k := 0; k < 40+(i%4)*150; k++ {
				fs = append(fs, fld(fmt.Sprintf("F%d_%d", i, k), scalarTypes[k%12], ""))
			}
			c13wideTypes = append(c13wideTypes, reflect.StructOf(fs))
		}
	})
	return c13wideTypes
}

func c13race(t *T) {
	wide := c13wide()
	cdc := amino.NewCodec()
	cdc.RegisterInterface((*interface{})(nil), &amino.InterfaceOptions{AlwaysDisambiguate: t.rng.Intn(2) == 0})
	ifs := []reflect.Type{tI1, tI2, tIA, tINone}
	var clock, sealedAt int64 // stamps; sealedAt: when the first sealing had ended
	type ev struct {
		what       string
		start, end int64
		ok         bool
		pv         interface{}
		row        string
		it         reflect.Type
		rt         reflect.Type
	}
	nreg := 2 + t.rng.Intn(5)
	logs := make([][]ev, nreg)
	var wg sync.WaitGroup
	start := make(chan struct{})
	perm := t.rng.Perm(len(wide))
	delay := make([]int, nreg+4)
	for i := range delay {
		delay[i] = t.rng.Intn(4000)
	}
	spin := func(n int) {
		var x int64
		for i := 0; i < n; i++ {
			atomic.AddInt64(&x, 1)
		}
	}
	for w := 0; w < nreg; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			spin(delay[w])
			for i := w; i < len(perm); i += nreg {
				rt := wide[perm[i]]
				ri := &regInfo{rt: rt, name: fmt.Sprintf("w/%d/%d", t.idx, perm[i]), ptr: perm[i]%2 == 0}
				ri.disamb, ri.prefix = specDisfix(ri.name)
				e := ev{what: "RegisterConcrete " + ri.name, row: tableRow(ri), rt: rt}
				e.start = atomic.AddInt64(&clock, 1)
				e.pv, _ = guard(func() { regStep{reg: ri}.apply(cdc) })
				e.end = atomic.AddInt64(&clock, 1)
				e.ok = e.pv == nil
				logs[w] = append(logs[w], e)
				if k := i / nreg; w == 0 && k < len(ifs) {
					e := ev{what: fmt.Sprint("RegisterInterface ", ifs[k]), it: ifs[k]}
					e.start = atomic.AddInt64(&clock, 1)
					e.pv, _ = guard(func() {
						cdc.RegisterInterface(reflect.New(ifs[k]).Interface(), &amino.InterfaceOptions{Priority: make([]string, 200)})
					})
					e.end = atomic.AddInt64(&clock, 1)
					e.ok = e.pv == nil
					logs[w] = append(logs[w], e)
				}
			}
		}()
	}
	nseal := 1 + t.rng.Intn(3)
	tables := make([]string, nseal)
	ifseen := make([][]bool, nseal)
	rets := make([]*amino.Codec, nseal)
	ifaceIn := func(it reflect.Type) bool {
		_, err := marshalBare(cdc, reflect.New(it).Interface())
		return err == nil
	}
	for w := 0; w < nseal; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			spin(delay[nreg+w] * 6)
			rets[w] = cdc.Seal()
			at := atomic.AddInt64(&clock, 1)
			for {
				old := atomic.LoadInt64(&sealedAt)
				if old != 0 && old <= at || atomic.CompareAndSwapInt64(&sealedAt, old, at) {
					break
				}
			}
			tables[w], _ = printTypes(cdc)
			for _, it := range ifs {
				ifseen[w] = append(ifseen[w], ifaceIn(it))
			}
		}()
	}
	wg.Add(1)
	useErr := ""
	go func() {
		defer wg.Done()
		<-start
		for k := 0; k < 30; k++ {
			bz, err := marshalBare(cdc, Leaf{5, "x"})
			if err != nil || string(bz) != "\x08\x05\x12\x01x" {
				useErr = fmt.Sprintf("encoding a struct meanwhile: %x, %v", bz, err)
			}
		}
	}()
	close(start)
	wg.Wait()
	if useErr != "" {
		t.failf("%s", useErr)
	}
	final, err := printTypes(cdc)
	if err != nil {
		t.failf("PrintTypes: %v", err)
	}
	var sb strings.Builder
	rows := map[string]bool{}
	before, after, across := 0, 0, 0
	for _, l := range logs {
		for _, e := range l {
			fmt.Fprintf(&sb, "%s start %d end %d ok %v %v\n", e.what, e.start, e.end, e.ok, e.pv)
		}
	}
	t.note("sealed at %d\n%s", sealedAt, sb.String())
	for _, l := range logs {
		for _, e := range l {
			switch {
			case e.start > sealedAt:
				after++
				if e.ok {
					t.failf("%s began at %d, after the codec was sealed at %d, and succeeds", e.what, e.start, sealedAt)
				}
			case e.end > sealedAt:
				across++
			default:
				before++
			}
			if !e.ok && e.pv != nil && e.end < sealedAt && !strings.Contains(fmt.Sprint(e.pv), "seal") {
				t.failf("%s is refused: %v", e.what, e.pv)
			}
			if e.row != "" && e.ok {
				rows[e.row] = true
			}
			if e.row != "" {
				// it is in effect if and only if it succeeded
				var x interface{} = reflect.New(e.rt).Interface()
				if _, err := marshalBare(cdc, &x); (err == nil) != e.ok {
					t.failf("%s succeeded: %v, but encoding it in an interface: %v", e.what, e.ok, err)
				}
			}
			if e.it != nil {
				if in := ifaceIn(e.it); in != e.ok {
					t.failf("%s succeeded: %v, but is in effect: %v", e.what, e.ok, in)
				}
			}
			t.evaluated(fmt.Sprint(t.idx, e.what), true)
		}
	}
	if !strings.HasPrefix(final, tableHead) {
		t.failf("the table is %s", final)
	}
	got := strings.SplitAfter(final[len(tableHead):], "\n")
	got = got[:len(got)-1]
	seen := map[string]bool{}
	for _, r := range got {
		if !rows[r] || seen[r] {
			t.failf("the table has a row that was not registered, or has it twice: %s", r)
		}
		seen[r] = true
	}
	if len(got) != len(rows) {
		t.failf("the table has %d rows, and %d registrations succeeded\n%s", len(got), len(rows), final)
	}
	for w := 0; w < nseal; w++ {
		if rets[w] != cdc {
			t.failf("Seal returns another codec")
		}
		if tables[w] != final {
			t.failf("the table printed after sealing is\n%sand the final one\n%s", tables[w], final)
		}
		for i, it := range ifs {
			if ifseen[w][i] != ifaceIn(it) {
				t.failf("%v was registered after sealing", it)
			}
		}
	}
	t.countN("registrations before sealing", int64(before))
	t.countN("registrations during sealing", int64(across))
	t.countN("registrations after sealing", int64(after))
	if before > 0 && after > 0 {
		t.count("races with registrations on both sides")
	}
	if t.idx%300 == 0 {
		t.sample("%d registrations ended before, %d during, %d after sealing", before, across, after)
	}
}
