package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C27", run: c27,
		rule:  "random histories of registrations (types of every kind, local, generic and unnamed ones, through values and pointers, with names of all sorts), refused registrations, interfaces, uses, failing calls and sealing run on a codec, and after each step the printed table is compared with the one that the model of the registrations gives; the table is printed to writers that fail at every byte offset and at every call, once or for good, with all the bytes, some or none accepted, or that panic: the writer's own error has to come back, what was written has to be the beginning of the table, nothing is written afterwards, and the next table is right; the table is printed while registrations run and has to be that of one moment in between; distinct = distinct (table, fault), non-trivial = tables with a row, and faults",
		assum: []string{"the column of lengths has the size in memory, in hexadecimal, for arrays, sized signed integers, floats and complex numbers, and \"variable\" for everything else"}})
}

// named types of all kinds
type (
	PBool    bool
	PInt     int
	PInt8    int8
	PInt16   int16
	PInt32   int32
	PInt64   int64
	PUint    uint
	PUint8   uint8
	PUint16  uint16
	PUint32  uint32
	PUint64  uint64
	PString  string
	PBytes   []byte
	PHash    [32]byte
	PEmptyA  [0]int32
	PStrs    [3]string
	PStructs [2]struct {
		A int64
		B string
	}
	PSlice       []PStruct
	PStruct      struct{ A int64 }
	PEmpty       struct{}
	PMap         map[string]int32
	PGen[T any]  struct{ V T }
	PGenA[T any] [2]T
	PTimeT       time.Time
	PDur         time.Duration
	Ünï          struct{ A string }
	PFloat32     float32
	PFloat64     float64
	PComplex64   complex64
	PComplex128  complex128
	PHash10      [10]byte
	PHash20      [20]byte
	PKey         [43]byte
	PLists       [2][]byte
	PPtrs        [11]*string
	PArrays      [3][7]int16
	PBig         [4001]int64
)

func (PStruct) Is1() {}
func (PHash) Is2()   {}

func c27types(r *rand.Rand) []reflect.Type {
	type local struct{ L int32 }
	type PStruct struct{ Other string } // a type with the name of another one
	elems := []reflect.Type{typeOf[byte](), typeOf[int8](), typeOf[bool](), typeOf[int16](), typeOf[uint32](), typeOf[int64](), typeOf[string](), typeOf[[]byte](), typeOf[*int32](),
		typeOf[PStruct](), typeOf[PHash](), typeOf[[]string](), typeOf[I1](), tTime, typeOf[float64]()}
	var unnamed []reflect.Type
	for k, n := 0, r.Intn(12); k < n; k++ {
		e := elems[r.Intn(len(elems))]
		switch r.Intn(4) {
		case 0:
			e = reflect.ArrayOf(r.Intn(20), e)
		case 1:
			e = reflect.StructOf([]reflect.StructField{{Name: "A", Type: e}, {Name: "B", Type: elems[r.Intn(len(elems))]}})
		}
		rt := reflect.ArrayOf([]int{r.Intn(32), r.Intn(300), r.Intn(5000)}[r.Intn(3)], e)
		if r.Intn(8) == 0 {
			rt = reflect.SliceOf(e)
		}
		dup := e.Kind() == reflect.Uint8
		for _, o := range unnamed {
			dup = dup || o == rt
		}
		if !dup {
			unnamed = append(unnamed, rt)
		}
	}
	return append(unnamed, []reflect.Type{
		typeOf[PFloat32](), typeOf[PFloat64](), typeOf[PComplex64](), typeOf[PComplex128](), typeOf[PHash10](), typeOf[PHash20](), typeOf[PKey](), typeOf[PLists](), typeOf[PPtrs](),
		typeOf[PArrays](), typeOf[PBig](),
		typeOf[PBool](), typeOf[PInt](), typeOf[PInt8](), typeOf[PInt16](), typeOf[PInt32](), typeOf[PInt64](), typeOf[PUint](), typeOf[PUint8](), typeOf[PUint16](),
		typeOf[PUint32](), typeOf[PUint64](), typeOf[PString](), typeOf[PBytes](), typeOf[PHash](), typeOf[PEmptyA](), typeOf[PStrs](), typeOf[PStructs](), typeOf[PSlice](),
		typeOf[PEmpty](), typeOf[PMap](), typeOf[PGen[int32]](), typeOf[PGen[string]](), typeOf[PGenA[int16]](), typeOf[PDur](), typeOf[Ünï](),
		typeOf[local](), typeOf[PStruct](), c27pstruct,
		typeOf[int8](), typeOf[string](), typeOf[int64](), typeOf[[]byte](), typeOf[[4]byte](), typeOf[struct{ X, Y int8 }](), typeOf[[]string](), typeOf[map[string]string](), tTime, typeOf[time.Duration](),
	}...)
}

var c27pstruct = typeOf[PStruct]()

var c27names = []string{"a", "|", "a|b", "line\nbreak", "tab\t", "com.tendermint/x", "日本", "\xff\xfe", "%s%d%X", " lead", "`code`", "0x", strings.Repeat("n", 300)}

func c27name(t *T, m *regModel) string {
	for {
		n := c27names[t.rng.Intn(len(c27names))]
		switch t.rng.Intn(4) {
		case 0:
			n += fmt.Sprint(t.rng.Intn(50))
		case 1:
			g := minedGroups[t.rng.Intn(len(minedGroups))]
			n = g[t.rng.Intn(len(g))]
		case 2:
			n = minedZeros[t.rng.Intn(len(minedZeros))]
		}
		if m.u.byName[n] == nil {
			return n
		}
	}
}

// faultWriter fails on purpose.
type faultWriter struct {
	got    []byte
	call   int
	failAt int // number of the call, from 0
	accept int // bytes of that call: 0 none, 1 some, 2 all
	once   bool
	panics bool
	err    error
	failed bool
	after  int // bytes written after the failure
}

func (w *faultWriter) Write(p []byte) (int, error) {
	k := w.call
	w.call++
	if w.failed {
		w.after += len(p)
		if !w.once {
			return 0, w.err
		}
	}
	if k != w.failAt {
		if !w.failed {
			w.got = append(w.got, p...)
		}
		return len(p), nil
	}
	w.failed = true
	if w.panics {
		panic(w.err)
	}
	n := []int{0, len(p) / 2, len(p)}[w.accept]
	w.got = append(w.got, p[:n]...)
	return n, w.err
}

// stringFault also takes strings, as io.WriteString prefers.
type stringFault struct{ *faultWriter }

func (w stringFault) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type c27err struct{ n int }

func (e *c27err) Error() string { return fmt.Sprint("fault ", e.n) }

func (m *regModel) c27table(t *T, cdc *amino.Codec, when string) {
	want := m.table()
	w := &faultWriter{failAt: -1}
	var wr io.Writer = w
	if t.rng.Intn(2) == 0 {
		wr = stringFault{w}
	}
	err, pan := try(func() error { return cdc.PrintTypes(wr) })
	if pan || err != nil {
		t.failf("PrintTypes %s: %v", when, err)
	}
	if string(w.got) != want {
		t.failf("PrintTypes %s prints\n%s\nnot\n%s", when, w.got, want)
	}
	t.count("tables compared")
	t.evaluated(want+when, len(m.rows) > 0)
}

// c27faults prints to writers that fail.
func (m *regModel) c27faults(t *T, cdc *amino.Codec, all bool) {
	want := m.table()
	// how many calls there are
	w := &faultWriter{failAt: -1}
	if err := cdc.PrintTypes(w); err != nil {
		t.failf("PrintTypes: %v", err)
	}
	calls := w.call
	one := func(name string, wr io.Writer, got func() []byte, after func() int, e error) {
		err, pan := try(func() error { return cdc.PrintTypes(wr) })
		if pan {
			t.failf("%s: %v", name, err)
		}
		if err == nil {
			t.failf("%s: no error", name)
		}
		if !errors.Is(err, e) {
			t.failf("%s: the error is %v (%T)", name, err, err)
		}
		if !strings.HasPrefix(want, string(got())) {
			t.failf("%s: written %q, which is not how the table begins", name, got())
		}
		if n := after(); n > 0 {
			t.failf("%s: %d bytes were written after the error", name, n)
		}
		t.count("writer errors returned")
		t.evaluated(name+want, true)
	}
	step := 1
	if !all {
		step = 1 + calls/12
	}
	for k := t.rng.Intn(step); k < calls; k += step {
		for accept := 0; accept < 3; accept++ {
			e := &c27err{k}
			fw := &faultWriter{failAt: k, accept: accept, once: t.rng.Intn(2) == 0, err: e}
			var wr io.Writer = fw
			if t.rng.Intn(2) == 0 {
				wr = stringFault{fw}
			}
			one(fmt.Sprintf("call %d fails with %d of 2 halves written", k, accept), wr, func() []byte { return fw.got }, func() int { return fw.after }, e)
		}
	}
	step = 1
	if !all {
		step = 1 + len(want)/20
	}
	for k := t.rng.Intn(step); k < len(want); k += step {
		rw := &recWriter{accept: k, err: errWriter}
		one(fmt.Sprintf("room for %d bytes", k), rw, func() []byte { return rw.got }, func() int { return 0 }, errWriter)
	}
	// a writer that panics must not leave the codec locked
	if calls > 0 {
		fw := &faultWriter{failAt: t.rng.Intn(calls), panics: true, err: errWriter}
		pv, _ := guard(func() { _ = cdc.PrintTypes(fw) })
		if pv != errWriter {
			t.failf("the writer's panic came back as %v", pv)
		}
		t.count("panicking writers")
	}
	// a pipe whose reader has gone
	if t.rng.Intn(4) == 0 {
		pr, pw := io.Pipe()
		go func() {
			_, _ = io.CopyN(io.Discard, pr, int64(t.rng.Intn(len(want))))
			_ = pr.CloseWithError(errWriter)
		}()
		one("pipe", pw, func() []byte { return nil }, func() int { return 0 }, errWriter)
	}
	m.c27table(t, cdc, "after failing writers")
}

func c27history(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	m.c27table(t, cdc, "of a new codec")
	types := c27types(t.rng)
	perm := t.rng.Perm(len(types))
	sealed := false
	n := 5 + t.rng.Intn(len(types))
	for k := 0; k < n; k++ {
		t.desc = nil
		t.note("registered:\n%s", strings.Join(m.rows, ""))
		if sealed {
			break
		}
		rt := types[perm[k%len(perm)]]
		name := c27name(t, m)
		ri := &regInfo{rt: rt, name: name, ptr: t.rng.Intn(2) == 0}
		ri.disamb, ri.prefix = specDisfix(name)
		pv, _ := guard(func() { regStep{reg: ri}.apply(cdc) })
		known := m.u.byType[rt] != nil || m.used[rt]
		if pv == nil {
			if known {
				t.failf("%v registered twice", rt)
			}
			m.do(regStep{reg: ri})
			t.count("registered kind: " + rt.Kind().String())
		} else {
			t.note("RegisterConcrete(%v, %q) refused: %v", rt, name, pv)
			if !known {
				t.count("refused")
			}
		}
		m.c27table(t, cdc, "after RegisterConcrete")
		switch t.rng.Intn(12) {
		case 0: // an interface
			it := []reflect.Type{tI1, tI2, tIA, tAny}[t.rng.Intn(4)]
			guard(func() {
				var all []string
				for _, r := range m.u.regs {
					all = append(all, r.name)
				}
				cdc.RegisterInterface(reflect.New(it).Interface(), &amino.InterfaceOptions{Priority: all})
			})
			m.c27table(t, cdc, "after RegisterInterface")
		case 1:
			what, f := c12malformed(t, cdc)
			if pv, _ := guard(f); pv == nil {
				t.failf("%s is not refused", what)
			}
			m.c27table(t, cdc, "after "+what)
		case 2: // the name again
			if len(m.u.regs) > 0 {
				r := m.u.regs[t.rng.Intn(len(m.u.regs))]
				if pv, _ := guard(func() { cdc.RegisterConcrete(XA{}, r.name, nil) }); pv == nil {
					t.failf("the name %q is registered twice", r.name)
				}
				m.c27table(t, cdc, "after a name that is taken")
			}
		case 3, 4: // uses of registered and other types
			x := types[t.rng.Intn(len(types))]
			v := reflect.New(x)
			if m.u.byType[x] == nil {
				m.used[x] = true
			}
			bz, _ := marshalBare(cdc, v.Interface())
			_, _ = unmarshalBare(cdc, bz, x)
			_, _ = marshalJSON(cdc, v.Interface())
			m.c27table(t, cdc, "after a use")
		case 5:
			guard(func() { _, _ = cdc.MarshalBinaryBare(make(chan int)) })
			guard(func() { _ = cdc.UnmarshalBinaryBare([]byte{1, 2, 3, 4}, new(string)) })
			m.c27table(t, cdc, "after failing calls")
		case 6:
			m.c27faults(t, cdc, t.idx%40 == 0)
		case 7:
			if t.rng.Intn(3) == 0 {
				cdc.Seal()
				sealed = true
				m.c27table(t, cdc, "after Seal")
				if pv, _ := guard(func() { cdc.RegisterConcrete(XB{}, "sealed/x", nil) }); pv == nil {
					t.failf("registration on a sealed codec")
				}
				m.c27table(t, cdc, "after a registration that came too late")
			}
		}
	}
	m.c27faults(t, cdc, t.idx%40 == 0)
	if len(m.rows) > 0 {
		t.sample("%s", strings.Join(m.rows, ""))
	}
}

// c27concurrent prints while registrations run.
func c27concurrent(t *T) {
	cdc := amino.NewCodec()
	m := newRegModel()
	types := c27types(t.rng)
	var tables []string // after so many registrations
	tables = append(tables, m.table())
	var steps []regStep
	registered := map[reflect.Type]bool{}
	for _, i := range t.rng.Perm(len(types)) {
		if registered[types[i]] { // a random one may be there twice
			continue
		}
		registered[types[i]] = true
		name := c27name(t, m)
		ri := &regInfo{rt: types[i], name: name, ptr: t.rng.Intn(2) == 0}
		ri.disamb, ri.prefix = specDisfix(name)
		// some cannot be registered
		try := amino.NewCodec()
		if pv, _ := guard(func() { regStep{reg: ri}.apply(try) }); pv != nil {
			continue
		}
		m.do(regStep{reg: ri})
		steps = append(steps, regStep{reg: ri})
		tables = append(tables, m.table())
	}
	var mtx sync.Mutex
	begun, done := 0, 0
	var wg sync.WaitGroup
	var bad string
	seen := map[int]bool{}
	stop := make(chan struct{})
	for p := 0; p < 3; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mtx.Lock()
				lo := done
				mtx.Unlock()
				var w recWriter
				w.accept = -1
				err := cdc.PrintTypes(&w)
				mtx.Lock()
				hi := begun
				ok := false
				for k := lo; k <= hi; k++ {
					if tables[k] == string(w.got) {
						ok = true
						seen[k] = true
					}
				}
				if (!ok || err != nil) && bad == "" {
					bad = fmt.Sprintf("error %v, printed\n%s\nwhile between %d and %d of these were registered:\n%s", err, w.got, lo, hi, m.table())
				}
				mtx.Unlock()
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	for _, s := range steps {
		mtx.Lock()
		begun++
		mtx.Unlock()
		s.apply(cdc)
		mtx.Lock()
		done++
		mtx.Unlock()
		if t.rng.Intn(3) == 0 {
			time.Sleep(time.Duration(t.rng.Intn(60)) * time.Microsecond)
		}
	}
	close(stop)
	wg.Wait()
	if bad != "" {
		t.failf("%s", bad)
	}
	for k := range seen {
		t.count("moments seen in between")
		t.evaluated(tables[k]+"c", k > 0 && k < len(steps))
	}
}

func c27(c *ctx) {
	c.run("history", c.n(500), c27history)
	c.run("universe", c.n(400), func(t *T) {
		// the registrations of the other checks
		u := newUniverse(t.rng)
		m := newRegModel()
		cdc := amino.NewCodec()
		for _, s := range u.steps(t.rng) {
			s.apply(cdc)
			m.do(s)
			m.c27table(t, cdc, "after "+s.String())
		}
		cases(t, u, genOpts{}, 3, 1, func(b *bcase) {
			_, _ = marshalBare(cdc, b.in())
			_, _ = marshalJSON(cdc, b.in())
		})
		m.c27table(t, cdc, "after uses")
		m.c27faults(t, cdc, false)
	})
	c.run("concurrent", c.n(60), c27concurrent)
	c.run("files", 1, func(t *T) {
		// closed files and full devices
		u := newUniverse(t.rng)
		f, err := os.Open(os.DevNull)
		if err != nil {
			panic(inconclusive(err.Error()))
		}
		_ = f.Close()
		if err := u.cdc.PrintTypes(f); !errors.Is(err, os.ErrClosed) {
			t.failf("printing to a closed file: %v", err)
		}
		if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			if err := u.cdc.PrintTypes(f); err == nil {
				t.failf("printing to a full device: no error")
			}
			_ = f.Close()
		}
		t.evaluated("files", true)
	})
}
