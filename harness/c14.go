package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C14", run: c14,
		rule:  "under the race detector: many goroutines use codecs whose types are used for the first time (encode, decode, length-prefixed, streams, JSON, deep copy, print, failing and panicking calls, shared values), and every result is compared with what a model says of the call alone; in the mixed phases goroutines register types and interfaces (also with equal prefixes) meanwhile, and with time stamps of an atomic clock every result has to be the one before or after each registration that it overlapped, and the one after (before) each that ended before it began (began after it ended); registrations are in effect at once for the goroutine that made them, every printed table contains those that ended before and is a beginning of the final one, and no registration is lost; where registration and first use of a type race, one is first, and all results are those of that order; hooks that encode, decode, print and register with the codec that calls them; a table is read from a pipe by somebody who uses the codec in between; while one call is held up in a reader, a writer or a hook, everything else goes on; distinct = distinct (operation, value, case), all non-trivial",
		assum: []string{"which interleavings occur is up to the scheduler; the race detector sees unordered accesses also when they do not collide"}})
}

func c14(c *ctx) {
	w := c.workers
	c.runW("firstuse", c.n(900), w/2+1, c14first)
	c.runW("mixed", c.n(900), w/2+1, c14mixed)
	c.runW("package", c.n(250), w/2+1, c14package)
	c.runW("stress", c.n(200), w/2+1, c14stress)
	c.runW("first use or registration", c.n(100), w/2+1, c14race)
	c.runW("lookup", c.n(160), w/2+1, c14lookup)
	c.runW("hooks that use the codec", c.n(150), 1, c14reenter)
	c.runW("held up", c.n(300), w/2+1, c14blocked)
	c.runW("table read while the codec is used", c.n(150), w/2+1, c14print)
}

// c14op is one call with what it has to return.
type c14op struct {
	what string
	do   func() string // "" if as expected
}

type c14api struct {
	bare, lp, jsn     func(o interface{}) ([]byte, error)
	unbare, unlp, unj func(bz []byte, p interface{}) error
	cdc               *amino.Codec
}

func codecAPI(cdc *amino.Codec) c14api {
	return c14api{bare: cdc.MarshalBinaryBare, lp: cdc.MarshalBinaryLengthPrefixed, jsn: cdc.MarshalJSON,
		unbare: cdc.UnmarshalBinaryBare, unlp: cdc.UnmarshalBinaryLengthPrefixed, unj: cdc.UnmarshalJSON, cdc: cdc}
}

// c14ops makes the operations on a value.
func c14ops(t *T, b *bcase, api c14api) (ops []c14op) {
	in := b.in()
	what := b.String()
	add := func(how string, f func() string) {
		ops = append(ops, c14op{how + " of " + what, func() string {
			var r string
			if pv, st := guard(func() { r = f() }); pv != nil {
				r = fmt.Sprintf("panic: %v\n%s", pv, st)
			}
			return r
		}})
	}
	eq := func(bz []byte, err error, want []byte) string {
		if err != nil || !bytes.Equal(bz, want) {
			return fmt.Sprintf("is   %x (%v)\nwant %x", bz, err, want)
		}
		return ""
	}
	if want, err := b.s.top(b.v); err == nil {
		norm, nerr := b.s.normTop(b.v)
		add("MarshalBinaryBare", func() string { bz, err := api.bare(in); return eq(bz, err, want) })
		lpw := lp(want)
		add("MarshalBinaryLengthPrefixed", func() string { bz, err := api.lp(in); return eq(bz, err, lpw) })
		dec := func(how string, f func(p interface{}) error) {
			add(how, func() string {
				p := reflect.New(b.t)
				if err := f(p.Interface()); err != nil {
					return err.Error()
				}
				return diff(norm, p.Elem())
			})
		}
		if nerr == nil && len(want) > 0 {
			dec("UnmarshalBinaryBare", func(p interface{}) error { return api.unbare(want, p) })
			dec("UnmarshalBinaryLengthPrefixed", func(p interface{}) error { return api.unlp(lpw, p) })
			if api.cdc != nil {
				dec("UnmarshalBinaryLengthPrefixedReader", func(p interface{}) error {
					_, err := api.cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lpw), p, 0)
					return err
				})
			}
		}
		if len(want) > 1 {
			bad := append([]byte{}, want[:len(want)-1]...)
			if _, err := b.s.decTop(bad, b.t); err != nil && err != errLenient {
				add("UnmarshalBinaryBare (truncated)", func() string {
					if api.unbare(bad, reflect.New(b.t).Interface()) == nil {
						return "not refused"
					}
					return ""
				})
			}
		}
	}
	if want, err := b.s.jtop(b.v); err == nil {
		wbz := want.bytes()
		wn, _ := jparse(wbz)
		add("MarshalJSON", func() string {
			bz, err := api.jsn(in)
			if err != nil {
				return err.Error()
			}
			n, err := jparse(bz)
			if err != nil || jdiff(wn, n, "") != "" {
				return fmt.Sprintf("is   %s (%v)\nwant %s", bz, err, wbz)
			}
			return ""
		})
		if norm, err := b.s.jnormTop(b.v); err == nil {
			add("UnmarshalJSON", func() string {
				p := reflect.New(b.t)
				if err := api.unj(wbz, p.Interface()); err != nil {
					return err.Error()
				}
				return diff(norm, p.Elem())
			})
		}
	}
	if !b.iface() && c14copies(b.t, nil) {
		add("DeepCopy", func() string {
			c := amino.DeepCopy(in)
			return diff(reflect.ValueOf(in), reflect.ValueOf(c))
		})
	}
	return
}

// c14copies says whether a deep copy is an equal one.
func c14copies(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return true
	}
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	seen[rt] = true
	if rt == tTime {
		return true
	}
	if isMarshaler(rt) {
		return false
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return c14copies(rt.Elem(), seen)
	case reflect.Interface, reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath != "" || !c14copies(rt.Field(i).Type, seen) {
				return false
			}
		}
	}
	return true
}

func jitter(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		n := r.Intn(300)
		var x int64
		for i := 0; i < n; i++ {
			atomic.AddInt64(&x, 1)
		}
	}
}

// c14run has g goroutines run the operations, each in another order.
func c14run(t *T, ops []c14op, g int, extra func(r *rand.Rand) string) {
	errs := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < g; w++ {
		w := w
		r := rand.New(rand.NewSource(t.rng.Int63()))
		same := t.rng.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			perm := r.Perm(len(ops))
			if same {
				for i := range perm {
					perm[i] = i
				}
			}
			<-start
			for _, i := range perm {
				jitter(r)
				if e := ops[i].do(); e != "" {
					errs[w] = ops[i].what + ": " + e
					return
				}
				if extra != nil && r.Intn(4) == 0 {
					if e := extra(r); e != "" {
						errs[w] = e
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			t.failf("with %d goroutines: %s", g, e)
		}
	}
	for _, o := range ops {
		t.evaluated(fmt.Sprint(t.phase, t.idx, o.what), true)
		t.countN("calls compared with the model", int64(g))
	}
}

func c14first(t *T) {
	u := newUniverse(t.rng)
	m := newRegModel()
	for _, ri := range u.regs {
		m.rows = append(m.rows, tableRow(ri))
	}
	cdc := u.build(nil) // in order
	table := m.table()
	var ops []c14op
	o := genOpts{utf8: true, richTags: t.rng.Intn(2) == 0, json: t.rng.Intn(3) == 0}
	cases(t, u, o, 4, 2, func(b *bcase) {
		b.cdc = cdc
		ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
	})
	st := sysBin[t.rng.Intn(len(sysBin))].t
	g := newGen(t.rng, u)
	g.utf8 = true
	b := &bcase{u: u, s: &spec{u: u}, g: g, cdc: cdc, t: st, v: addr(g.value(st, fopt{}))}
	ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
	c14run(t, ops, 2+t.rng.Intn(9), func(r *rand.Rand) string {
		switch r.Intn(5) {
		case 0:
			if got, err := printTypes(cdc); err != nil || got != table {
				return fmt.Sprintf("PrintTypes: %v\n%s\nwant\n%s", err, got, table)
			}
		case 1: // fails, and panics
			_, _ = guard(func() { _, _ = cdc.MarshalBinaryBare(struct{ C []chan int }{make([]chan int, 1)}) })
		case 2:
			_, _ = guard(func() { _, _ = cdc.MarshalBinaryBare(XFloat{1}) })
		case 3:
			_, _ = guard(func() { _ = cdc.UnmarshalJSON([]byte(`{"F":`), &XFloat{}) })
		}
		return ""
	})
	if t.idx%100 == 0 && len(ops) > 0 {
		t.sample("%d operations in several goroutines, such as %s", len(ops), clip(ops[0].what, 300))
	}
}

// c14mixed: registrations while the codec is in use.
func c14mixed(t *T) {
	u := newUniverse(t.rng)
	cdc := amino.NewCodec()
	steps := u.steps(t.rng)
	// interfaces first, with their complete priority lists, mostly
	var pre, live []regStep
	isPre := map[*regInfo]bool{}
	preIface := map[reflect.Type]bool{}
	for _, s := range steps {
		if s.iface != nil {
			if t.rng.Intn(6) > 0 {
				pre = append(pre, s)
				preIface[s.iface.rt] = true
			} else {
				live = append(live, s)
			}
		} else if t.rng.Intn(3) == 0 {
			pre = append(pre, s)
			isPre[s.reg] = true
		} else {
			live = append(live, s)
		}
	}
	rows := ""
	for _, s := range pre {
		s.apply(cdc)
		if s.reg != nil {
			rows += tableRow(s.reg)
		}
	}
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	type span struct{ start, end int64 }
	spans := make([]span, len(live)) // of the registrations
	var errMtx sync.Mutex
	var errs []string
	fail := func(f string, args ...interface{}) {
		errMtx.Lock()
		errs = append(errs, fmt.Sprintf(f, args...))
		errMtx.Unlock()
	}
	type obs struct { // of one encoding in an interface, or decoding
		start, end int64
		ri         *regInfo
		it         reflect.Type
		disamb     bool
		what       string
		err        error
		decode     bool
	}
	var obsMtx sync.Mutex
	var all []obs
	type pr struct {
		start, end int64
		table      string
	}
	var prints []pr
	g := newGen(t.rng, u)
	g.utf8 = true
	g.bare = true
	// encodings (without prefixes) of a value of each type
	val := map[*regInfo]reflect.Value{}
	enc := map[*regInfo][]byte{}
	norm := map[*regInfo]reflect.Value{}
	s := &spec{u: u}
	for _, ri := range u.regs {
		if ri.rt == reflect.TypeOf(CIf{}) || !binOK(ri.rt) {
			continue
		}
		g.budget = 20
		v := addr(g.value(ri.rt, fopt{}))
		bz, err := s.top(v)
		if err != nil || len(bz) < 4 {
			continue
		}
		n, err := s.normTop(v)
		if err != nil {
			continue
		}
		val[ri], enc[ri], norm[ri] = v, bz[4:], n
	}
	// useIn encodes and decodes it in an interface
	useIn := func(ri *regInfo, it reflect.Type, r *rand.Rand) {
		x := reflect.New(it)
		x.Elem().Set(val[ri].Addr())
		o := obs{ri: ri, it: it, start: now()}
		bz, err := marshalBare(cdc, x.Interface())
		o.end = now()
		short := append(append([]byte{}, ri.prefix[:]...), enc[ri]...)
		long := append(append([]byte{0}, ri.disamb[:]...), short...)
		switch {
		case err != nil:
			o.err = err
		case bytes.Equal(bz, long):
			o.disamb = true
		case !bytes.Equal(bz, short):
			fail("encoding %v in %v: %x, want %x or %x", ri.rt, it, bz, short, long)
			return
		}
		p := reflect.New(it)
		d := obs{ri: ri, it: it, decode: true, start: now()}
		if r.Intn(2) == 0 {
			bz, d.disamb = long, true
		} else {
			bz = short
		}
		d.err, _ = try(func() error { return cdc.UnmarshalBinaryBare(bz, p.Interface()) })
		d.end = now()
		if d.err == nil {
			e := p.Elem().Elem()
			if e.Type() != c10form(ri, it) {
				fail("decoding %x in %v: %s", bz, it, show(p.Elem()))
				return
			}
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			if df := diff(norm[ri], e); df != "" {
				fail("decoding %x in %v: %s", bz, it, df)
				return
			}
		}
		obsMtx.Lock()
		all = append(all, o, d)
		obsMtx.Unlock()
	}
	var preRegs []*regInfo
	for _, ri := range u.regs {
		if isPre[ri] && val[ri].IsValid() {
			preRegs = append(preRegs, ri)
		}
	}
	nreg, nuse := 1+t.rng.Intn(4), 1+t.rng.Intn(5)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < nreg; w++ {
		w := w
		r := rand.New(rand.NewSource(t.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := w; i < len(live); i += nreg {
				jitter(r)
				st := live[i]
				a := now()
				pv, _ := guard(func() { st.apply(cdc) })
				spans[i] = span{a, now()}
				if pv != nil {
					fail("%s is refused: %v", st, pv)
					return
				}
				if st.reg == nil || !val[st.reg].IsValid() {
					continue
				}
				// in effect
				ri := st.reg
				bz, err := marshalBare(cdc, val[ri].Interface())
				if want := append(append([]byte{}, ri.prefix[:]...), enc[ri]...); err != nil || !bytes.Equal(bz, want) {
					fail("right after %s, a value is encoded as %x (%v), want %x", st, bz, err, want)
					return
				}
				for _, it := range u.iorder {
					if preIface[it] && implements(ri.rt, it) {
						useIn(ri, it, r)
					}
				}
			}
		}()
	}
	free := make([]c14op, 0, 40)
	cases(t, u, genOpts{utf8: true, bare: true, noMarshaler: true}, 3, 2, func(b *bcase) {
		b.cdc = cdc
		if !c14anyReg(u, b.t, nil) {
			free = append(free, c14ops(t, b, codecAPI(cdc))...)
		}
	})
	for w := 0; w < nuse; w++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			last := ""
			for k := 0; k < 40; k++ {
				jitter(r)
				switch r.Intn(8) {
				case 0:
					p := pr{start: now()}
					var err error
					p.table, err = printTypes(cdc)
					p.end = now()
					if err != nil || !strings.HasPrefix(p.table, last) {
						fail("PrintTypes: %v\n%s\nafter\n%s", err, p.table, last)
						return
					}
					last = p.table
					obsMtx.Lock()
					prints = append(prints, p)
					obsMtx.Unlock()
				case 1, 2:
					if len(free) > 0 {
						o := free[r.Intn(len(free))]
						if e := o.do(); e != "" {
							fail("%s: %s", o.what, e)
							return
						}
					}
				default:
					if len(preRegs) > 0 {
						ri := preRegs[r.Intn(len(preRegs))]
						for _, it := range u.iorder {
							if preIface[it] && implements(ri.rt, it) && r.Intn(2) == 0 {
								useIn(ri, it, r)
							}
						}
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	var log strings.Builder
	for i, st := range live {
		fmt.Fprintf(&log, "%d-%d %s\n", spans[i].start, spans[i].end, st)
	}
	t.note("before: %v\nregistrations:\n%s", pre, log.String())
	if len(errs) > 0 {
		t.failf("%s", errs[0])
	}
	// judge
	spanOf := map[*regInfo]span{}
	for i, st := range live {
		if st.reg != nil {
			spanOf[st.reg] = spans[i]
		}
	}
	for _, o := range all {
		must, may := u.ifaces[o.it].always, u.ifaces[o.it].always // disambiguation
		conf, mayConf := false, false                             // another of this prefix
		for _, r := range u.regs {
			if r == o.ri || r.prefix != o.ri.prefix || !implements(r.rt, o.it) {
				continue
			}
			sp := spanOf[r]
			if isPre[r] || sp.end < o.start {
				must, conf = true, true
			}
			if isPre[r] || sp.start < o.end {
				may, mayConf = true, true
			}
		}
		if !o.decode {
			if o.err != nil || must && !o.disamb || !may && o.disamb {
				t.failf("encoding %v in %v during %d-%d: with disambiguation %v, %v", o.ri.rt, o.it, o.start, o.end, o.disamb, o.err)
			}
			if may != must {
				t.count("encodings that overlap a conflicting registration")
			}
		} else {
			// the short form is decoded unless there is a conflict
			switch {
			case o.disamb && o.err != nil, !o.disamb && !mayConf && o.err != nil:
				t.failf("decoding %v in %v (with disambiguation: %v) during %d-%d: %v", o.ri.rt, o.it, o.disamb, o.start, o.end, o.err)
			case !o.disamb && conf && o.err == nil:
				t.failf("decoding %v in %v without disambiguation during %d-%d is not refused", o.ri.rt, o.it, o.start, o.end)
			}
		}
		t.evaluated(fmt.Sprint(t.idx, o.ri.rt, o.it, o.decode, o.disamb), true)
		t.count("encodings and decodings in interfaces judged")
	}
	final, err := printTypes(cdc)
	if err != nil || !strings.HasPrefix(final, tableHead+rows) {
		t.failf("PrintTypes: %v\n%s", err, final)
	}
	lines, rest := splitRows(u, final)
	got := map[string]bool{}
	for _, l := range lines {
		if got[l] {
			t.failf("row twice: %s", l)
		}
		got[l] = true
	}
	if rest != "" {
		t.failf("the table has a row that was not registered: %s", rest)
	}
	if len(got) != len(u.regs) {
		t.failf("%d rows, %d registrations:\n%s", len(got), len(u.regs), final)
	}
	for _, ri := range u.regs {
		if !got[tableRow(ri)] {
			t.failf("lost: %s\n%s", regStep{reg: ri}, final)
		}
	}
	for _, p := range prints {
		if !strings.HasPrefix(final, p.table) {
			t.failf("printed was\n%s\nat the end it is\n%s", p.table, final)
		}
		for _, ri := range u.regs {
			in := strings.Contains(p.table, tableRow(ri))
			sp := spanOf[ri]
			if !in && (isPre[ri] || sp.end < p.start) || in && !isPre[ri] && sp.start > p.end {
				t.failf("printed during %d-%d: %s is in it: %v\n%s", p.start, p.end, regStep{reg: ri}, in, p.table)
			}
		}
		t.count("printed tables judged")
	}
	// all are in effect
	m := newRegModel()
	m.u = u
	m.rows = lines
	m.probe(t, cdc, 6)
	t.countN("registrations in effect", int64(len(u.regs)))
	if t.idx%100 == 0 {
		t.sample("%d registrations by %d goroutines, %d observations by %d others, %d tables", len(live), nreg, len(all), nuse, len(prints))
	}
}

// splitRows splits a table into rows of registered types, and what else there is.
func splitRows(u *universe, table string) (rows []string, rest string) {
	rest = strings.TrimPrefix(table, tableHead)
	for more := true; more && rest != ""; {
		more = false
		for _, ri := range u.regs {
			if r := tableRow(ri); strings.HasPrefix(rest, r) {
				rows = append(rows, r)
				rest = rest[len(r):]
				more = true
			}
		}
	}
	return
}

// c14anyReg says whether a type contains one that will be registered.
func c14anyReg(u *universe, rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return false
	}
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	seen[rt] = true
	if u.byType[rt] != nil {
		return true
	}
	for _, c := range concretes {
		if c.rt == rt {
			return true
		}
	}
	switch rt.Kind() {
	case reflect.Interface:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return c14anyReg(u, rt.Elem(), seen)
	case reflect.Struct:
		if rt == tTime {
			return false
		}
		for i := 0; i < rt.NumField(); i++ {
			if c14anyReg(u, rt.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// c14package: the functions of the package share one codec.
func c14package(t *T) {
	u := newUniverseModel()
	api := c14api{bare: amino.MarshalBinaryBare, lp: amino.MarshalBinaryLengthPrefixed, jsn: amino.MarshalJSON,
		unbare: amino.UnmarshalBinaryBare, unlp: amino.UnmarshalBinaryLengthPrefixed, unj: amino.UnmarshalJSON}
	var ops []c14op
	cases(t, u, genOpts{utf8: true, bare: true, richTags: true}, 5, 2, func(b *bcase) {
		ops = append(ops, c14ops(t, b, api)...)
	})
	c14run(t, ops, 2+t.rng.Intn(9), func(r *rand.Rand) string {
		switch r.Intn(4) {
		case 0:
			_, _ = guard(func() { _, _ = amino.MarshalBinaryBare(struct{ C []chan int }{make([]chan int, 1)}) })
		case 1:
			_, _ = guard(func() { amino.MustMarshalBinaryBare(XFloat{1}) })
		case 2:
			d, p := amino.NameToDisfix("x")
			wd, wp := specDisfix("x")
			if [3]byte(d) != wd || [4]byte(p) != wp {
				return "NameToDisfix"
			}
		}
		return ""
	})
}

// c14stress: everything at once, on few types that are new each time.
func c14stress(t *T) {
	for round := 0; round < 4; round++ {
		cdc := amino.NewCodec()
		cdc.RegisterInterface((*interface{})(nil), nil)
		// types nobody has seen, that contain each other
		n := fmt.Sprintf("S%d_%d", t.idx, round)
		inner := reflect.StructOf([]reflect.StructField{fld(n, reflect.TypeOf(int32(0)), ""), fld("B", reflect.TypeOf(""), "")})
		mid := reflect.StructOf([]reflect.StructField{fld("I", inner, ""), fld("L", reflect.SliceOf(inner), ""), fld("P", reflect.PtrTo(inner), "")})
		out := reflect.StructOf([]reflect.StructField{fld("M", mid, ""), fld("L", reflect.SliceOf(reflect.PtrTo(mid)), ""), fld("I", inner, "")})
		u := newUniverseModel()
		g := newGen(t.rng, u)
		g.utf8, g.bare = true, true
		var ops []c14op
		for _, rt := range []reflect.Type{out, mid, inner, reflect.SliceOf(mid), reflect.PtrTo(out)} {
			g.budget = 40
			b := &bcase{u: u, s: &spec{u: u}, g: g, cdc: cdc, t: rt, v: addr(g.value(rt, fopt{}))}
			ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
		}
		var k int64
		c14run(t, ops, 4+t.rng.Intn(12), func(r *rand.Rand) string {
			if r.Intn(3) == 0 {
				i := atomic.AddInt64(&k, 1) - 1
				if i < int64(len(xTypes)) {
					pv, _ := guard(func() { cdc.RegisterConcrete(reflect.New(xTypes[i]).Interface(), fmt.Sprint("x", i), nil) })
					if pv != nil {
						return fmt.Sprint("registering: ", pv)
					}
				} else {
					_, _ = printTypes(cdc)
				}
			}
			return ""
		})
	}
}

// c14lookup: each way to look something up in the codec, in tight loops, while
// hundreds of types are registered.
func c14lookup(t *T) {
	u := newUniverseModel()
	perm := t.rng.Perm(len(concretes))
	gr := minedGroups[t.rng.Intn(len(minedGroups))]
	late := minedGroups[t.rng.Intn(len(minedGroups))] // gets a conflict meanwhile
	for i := 0; i < 6; i++ {
		n := fmt.Sprintf("lookup/%d", i)
		if i < len(gr) && t.rng.Intn(2) == 0 {
			n = gr[i]
		}
		if u.byName[n] == nil && n != late[0] && n != late[1] {
			u.add(concretes[perm[i]].rt, n, t.rng.Intn(2) == 0)
		}
	}
	always := t.rng.Intn(3) == 0
	u.addIface(tAny, always, nil)
	for _, it := range []reflect.Type{tI1, tI2} {
		u.addIface(it, t.rng.Intn(2) == 0, nil)
	}
	u.fixPrio(t.rng)
	isLate := [4]byte{}
	_, isLate = specDisfix(late[0])
	for _, ri := range u.regs {
		if ri.prefix == isLate {
			return // conflicts with more than it says
		}
	}
	any := u.ifaces[tAny]
	any.prio = append(any.prio, late[:2]...)
	cdc := u.build(t.rng)
	s := &spec{u: u}
	g := newGen(t.rng, u)
	g.utf8, g.bare = true, true
	var errMtx sync.Mutex
	first := ""
	fail := func(f string, args ...interface{}) {
		errMtx.Lock()
		if first == "" {
			first = fmt.Sprintf(f, args...)
		}
		errMtx.Unlock()
	}
	var ops []c14op
	for _, it := range u.iorder {
		for _, ri := range u.implementers(it, true) {
			if !u.usable(ri.rt) {
				continue
			}
			g.budget = 8
			x := addr(g.value(ri.rt, fopt{}))
			v := reflect.New(it).Elem()
			v.Set(x.Addr())
			b := &bcase{u: u, s: s, g: g, cdc: cdc, t: it, v: v}
			ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
			if t.rng.Intn(2) == 0 {
				b := &bcase{u: u, s: s, g: g, cdc: cdc, t: ri.rt, v: x}
				ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
			}
		}
	}
	refuse := func(how string, f func() error) {
		ops = append(ops, c14op{how, func() string {
			if err, pan := try(f); err == nil || pan {
				return fmt.Sprintf("not refused: %v", err)
			}
			return ""
		}})
	}
	refuse("decoding an unknown name", func() error {
		var x interface{}
		return cdc.UnmarshalJSON([]byte(`{"type":"nobody/at/all","value":1}`), &x)
	})
	refuse("decoding an unknown prefix", func() error {
		var x interface{}
		return cdc.UnmarshalBinaryBare([]byte{1, 0xfe, 0xfe, 0xfe, 1}, &x)
	})
	refuse("decoding unknown disambiguation bytes", func() error {
		var x interface{}
		return cdc.UnmarshalBinaryBare([]byte{0, 1, 0xfe, 0xfe, 0xfe, 1, 2, 3, 4, 1}, &x)
	})
	refuse("encoding an unregistered type", func() error {
		var x interface{} = struct{ Q1 int8 }{1}
		_, err := cdc.MarshalBinaryBare(&x)
		return err
	})
	refuse("encoding an unregistered interface", func() error {
		_, err := cdc.MarshalBinaryBare(struct{ X INever }{CSt{A: 1}})
		return err
	})
	nreg := 1 + t.rng.Intn(2)
	per := 60 + t.rng.Intn(140)
	base := 1000 + t.rng.Intn(1000)
	var done int32
	var iters int64
	var rwg, wg sync.WaitGroup
	start := make(chan struct{})
	seal := t.rng.Intn(2) == 0
	sealMid := t.rng.Intn(3) == 0
	sealAfter := t.rng.Intn(1 + t.rng.Intn(3000))
	var sealed int32 // 1 while it is called, 2 afterwards
	inEffect := make([]bool, nreg*per)
	regRow := func(i int) string {
		rt := reflect.ArrayOf(base+i, reflect.TypeOf(uint8(0)))
		return tableRow(&regInfo{rt: rt, name: fmt.Sprintf("array/%d", i), prefix: func() [4]byte { _, p := specDisfix(fmt.Sprintf("array/%d", i)); return p }()})
	}
	for w := 0; w < nreg; w++ {
		w := w
		r := rand.New(rand.NewSource(t.rng.Int63()))
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			<-start
			for i := w; i < nreg*per; i += nreg {
				if i%16 == 0 {
					jitter(r)
				}
				rt := reflect.ArrayOf(base+i, reflect.TypeOf(uint8(0)))
				name := fmt.Sprintf("array/%d", i)
				was := atomic.LoadInt32(&sealed)
				pv, _ := guard(func() { cdc.RegisterConcrete(reflect.New(rt).Elem().Interface(), name, nil) })
				is := atomic.LoadInt32(&sealed)
				if pv != nil && is == 0 || pv == nil && was == 2 {
					fail("registering %v as %s: %v (sealed: %d-%d)", rt, name, pv, was, is)
					return
				}
				if pv != nil {
					continue
				}
				inEffect[i] = true
				if i%8 == 0 { // in effect
					var x interface{} = reflect.New(rt).Elem().Interface()
					bz, err := cdc.MarshalBinaryBare(&x)
					var y interface{}
					if err == nil {
						err = cdc.UnmarshalBinaryBare(bz, &y)
					}
					if err != nil || reflect.TypeOf(y) != rt {
						fail("right after registering %v as %s: %v, %T", rt, name, err, y)
						return
					}
				}
			}
		}()
	}
	// the two that get in conflict, or the seal
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		<-start
		if sealMid {
			for k := 0; k < sealAfter; k++ {
				runtime.Gosched()
			}
			atomic.StoreInt32(&sealed, 1)
			cdc.Seal()
			atomic.StoreInt32(&sealed, 2)
			return
		}
		for i := 0; i < 2; i++ {
			for k := 0; k < 200; k++ {
				runtime.Gosched()
			}
			rt := []reflect.Type{reflect.TypeOf([7]uint8{}), reflect.TypeOf([9]uint8{})}[i]
			pv, _ := guard(func() { cdc.RegisterConcrete(reflect.New(rt).Elem().Interface(), late[i], nil) })
			if pv != nil {
				fail("registering %v as %s: %v", rt, late[i], pv)
			}
		}
	}()
	if len(ops) == 0 {
		return
	}
	nuse := 2 + t.rng.Intn(4)
	for w := 0; w < nuse; w++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		wg.Add(1)
		kind := t.rng.Intn(6)
		w := w
		go func() {
			defer wg.Done()
			<-start
			n := int64(0)
			for ; atomic.LoadInt32(&done) == 0 || n < 60; n++ {
				switch {
				case kind == 0 && n%4 == 0:
					tb, err := printTypes(cdc)
					if err != nil || !strings.HasPrefix(tb, tableHead) {
						fail("PrintTypes: %v %s", err, tb)
						return
					}
				case kind == 1 && n%3 == 0: // types of first use
					rt := reflect.StructOf([]reflect.StructField{fld(fmt.Sprintf("L%d_%d_%d", t.idx, w, n%500), reflect.TypeOf(int32(0)), "")})
					v := reflect.New(rt).Elem()
					v.Field(0).SetInt(5)
					if bz, err := cdc.MarshalBinaryBare(v.Interface()); err != nil || !bytes.Equal(bz, []byte{8, 10}) && !bytes.Equal(bz, []byte{8, 5}) {
						fail("encoding %v: %x, %v", v, bz, err)
						return
					}
				default:
					i := r.Intn(len(ops))
					for k := 0; k < 4; k++ {
						if e := ops[i].do(); e != "" {
							fail("%s: %s", ops[i].what, e)
							return
						}
					}
				}
			}
			atomic.AddInt64(&iters, n)
		}()
	}
	close(start)
	rwg.Wait()
	if seal || sealMid {
		cdc.Seal()
		for _, f := range []func(){
			func() { cdc.RegisterConcrete([5]uint8{}, "after", nil) },
			func() { cdc.RegisterInterface((*error)(nil), nil) },
		} {
			if pv, _ := guard(f); pv == nil {
				fail("registering in a sealed codec does not panic")
			}
		}
	}
	atomic.StoreInt32(&done, 1)
	wg.Wait()
	if first != "" {
		t.failf("%d goroutines register %d types, %d others: %s", nreg, nreg*per, nuse, first)
	}
	tb, err := printTypes(cdc)
	if err != nil {
		t.failf("PrintTypes: %v", err)
	}
	n := 0
	for i := 0; i < nreg*per; i++ {
		want := 0
		if inEffect[i] {
			want = 1
			n++
		}
		if strings.Count(tb, regRow(i)) != want {
			t.failf("%d times in the table: %s\n%s", strings.Count(tb, regRow(i)), regRow(i), clip(tb, 2000))
		}
		if want == 0 {
			t.count("registrations refused: sealed meanwhile")
		}
	}
	if !sealMid {
		n += 2
	}
	if l := strings.Count(tb, "\n"); l != 2+n+len(u.regs) {
		t.failf("%d lines in the table, after %d registrations", l, n+len(u.regs))
	}
	// the two that conflict need disambiguation now
	for i, rt := range []reflect.Type{reflect.TypeOf([7]uint8{}), reflect.TypeOf([9]uint8{})} {
		if sealMid {
			break
		}
		d, p := specDisfix(late[i])
		x := reflect.New(tAny)
		x.Elem().Set(reflect.Zero(rt))
		bz, err := marshalBare(cdc, x.Interface())
		if want := append(append([]byte{0}, d[:]...), p[:]...); err != nil || !bytes.HasPrefix(bz, want) {
			t.failf("%v in interface {} is %x, %v, want %x...", rt, bz, err, want)
		}
	}
	t.countN("registrations while types are looked up", int64(n))
	t.countN("iterations of loops", iters)
	t.evaluated(fmt.Sprint("lookup", t.idx), true)
	for _, o := range ops {
		t.evaluated(fmt.Sprint(t.phase, t.idx, o.what), true)
	}
}

// c14race: several register a type while others use it for the first time.
// Either it was used first, and cannot be registered any more, or it was
// registered, and all uses were of the registered type.
func c14race(t *T) {
	for round := 0; round < 6; round++ {
		cdc := amino.NewCodec()
		cdc.RegisterInterface((*interface{})(nil), nil)
		// large, so that looking at it takes a while
		fs := []reflect.StructField{fld(fmt.Sprintf("R%d_%d", t.idx, round), reflect.TypeOf(int32(0)), "")}
		for i := t.rng.Intn(150); i > 0; i-- {
			fs = append(fs, fld(fmt.Sprintf("F%d", i), []reflect.Type{typeOf[int8](), typeOf[string](), typeOf[[]byte](), typeOf[[]int64]()}[i%4], ""))
		}
		rt := reflect.StructOf(fs)
		names := []string{fmt.Sprintf("race/%d/a", t.idx), fmt.Sprintf("race/%d/b", t.idx)}
		us := []*universe{newUniverseModel(), newUniverseModel(), newUniverseModel()} // with no name, and each
		for i, u := range us {
			u.addIface(tAny, false, nil)
			if i > 0 {
				u.add(rt, names[i-1], t.rng.Intn(2) == 0)
			}
		}
		ss := []*spec{{u: us[0]}, {u: us[1]}, {u: us[2]}}
		g := newGen(t.rng, us[0])
		g.utf8, g.bare, g.budget = true, true, 40
		x := addr(g.value(rt, fopt{}))
		type use struct {
			what string
			do   func() ([]byte, error)
			want [3][]byte
		}
		var uses []use
		for _, p := range []reflect.Type{rt, reflect.SliceOf(rt), reflect.StructOf([]reflect.StructField{fld("P", reflect.PtrTo(rt), ""), fld("V", rt, "")})} {
			v := reflect.New(p).Elem()
			switch {
			case p == rt:
				v.Set(x)
			case p.Kind() == reflect.Slice:
				v.Set(reflect.Append(v, x, x))
			default:
				v.Field(0).Set(x.Addr())
				v.Field(1).Set(x)
			}
			o := v.Addr().Interface()
			var w, js [3][]byte
			bad := false
			for i, s := range ss {
				var err error
				if w[i], err = s.top(v); err != nil {
					bad = true
				}
				n, err := s.jtop(v)
				if err != nil || len(w[i]) == 0 {
					bad = true // (empty ones tell nothing)
					break
				}
				js[i] = n.bytes()
			}
			if bad {
				continue
			}
			uses = append(uses, use{"MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) }, w},
				use{"MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) }, js})
			// decoding tells as well: the result is what it was made from
			for k := range ss {
				k := k
				ub := use{fmt.Sprintf("UnmarshalBinaryBare of registration %d", k), func() ([]byte, error) {
					return nil, cdc.UnmarshalBinaryBare(w[k], reflect.New(p).Interface())
				}, [3][]byte{}}
				for i := range ss {
					if _, err := ss[i].decTop(w[k], p); err == nil {
						ub.want[i] = []byte{}
					} else if err == errLenient {
						bad = true
					}
				}
				if !bad && p == rt {
					uses = append(uses, ub)
				}
			}
		}
		if len(uses) == 0 {
			return
		}
		type seen struct {
			u   use
			out []byte
			err error
		}
		var mtx sync.Mutex
		var all []seen
		var regd [2]bool
		var regp [2]interface{}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 1+t.rng.Intn(2); i++ {
			i := i
			r := rand.New(rand.NewSource(t.rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				jitter(r)
				st := regStep{reg: us[i+1].regs[0]}
				regp[i], _ = guard(func() { st.apply(cdc) })
				regd[i] = regp[i] == nil
			}()
		}
		for k := 1 + t.rng.Intn(4); k > 0; k-- {
			r := rand.New(rand.NewSource(t.rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				jitter(r)
				for n := 0; n < 2; n++ {
					u := uses[r.Intn(len(uses))]
					var out []byte
					var err error
					if pv, st := guard(func() { out, err = u.do() }); pv != nil {
						err = &panicErr{pv, st}
					}
					mtx.Lock()
					all = append(all, seen{u, out, err})
					mtx.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		state := 0
		if regd[0] && regd[1] {
			t.failf("%v is registered twice", rt.Field(0).Name)
		}
		for i, ok := range regd {
			if ok {
				state = i + 1
			}
			if _, isRt := regp[i].(runtime.Error); isRt {
				t.failf("registering panics: %v", regp[i])
			}
		}
		if state == 0 {
			t.count("first used, then registered: refused")
		} else {
			t.count("registered before it was used")
		}
		table := newRegModel()
		if state > 0 {
			table.rows = append(table.rows, tableRow(us[state].regs[0]))
		}
		if got, err := printTypes(cdc); err != nil || got != table.table() {
			t.failf("registered: %v (%v), but PrintTypes: %v\n%s", regd, regp, err, got)
		}
		for _, u := range uses { // and now
			out, err := u.do()
			all = append(all, seen{u, out, err})
		}
		for i, s := range all {
			when := "meanwhile"
			if i >= len(all)-len(uses) {
				when = "afterwards"
			}
			if isPanic(s.err) {
				t.failf("%s of %v, %s: %v", s.u.what, rt, when, s.err)
			}
			want := s.u.want[state]
			if (s.err == nil) != (want != nil) || want != nil && !bytes.Equal(want, s.out) && !(s.u.what == "MarshalJSON" && sameJSON(want, s.out)) {
				t.failf("registered: %v (%v); %s, %s: %x, %v, want %x", regd, regp, when, s.u.what, s.out, s.err, want)
			}
			t.evaluated(fmt.Sprint(t.idx, round, s.u.what, i), true)
			t.count("uses judged")
		}
	}
}

func sameJSON(a, b []byte) bool {
	x, err1 := jparse(a)
	y, err2 := jparse(b)
	return err1 == nil && err2 == nil && jdiff(x, y, "") == ""
}
