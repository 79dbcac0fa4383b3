package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	amino "github.com/tendermint/go-amino"
)

// Types whose methods use the codec that is calling them: representations that
// contain encodings of something else are what applications write with
// MarshalAmino. While a model computes what is expected, the methods use the
// model; in the calls that are judged they use the codec itself.

type reEnv struct {
	model *spec        // expected values
	cdc   *amino.Codec // real ones
	lazy  func()       // registers ReLazy
	noise int32        // how often methods do something else with the codec
	calls int64
	deep  int64
	max   int64
}

var reNow atomic.Pointer[reEnv]

var errRe = errors.New("the codec called by the hook says no")

const rePoison = "re-poison"

type (
	ReIn struct {
		A int32 `binary:"fixed32"`
		B string
		L []*ReB
		I I1
		S ReS
		J *ReJ
		G *ReG
		Z []ReZ
		M ReV
	}
	// struct -> struct of bytes
	ReB    struct{ V *ReIn }
	ReRepr struct {
		D []byte
		N int64
	}
	// struct -> string
	ReS   struct{ V reSIn }
	reSIn struct {
		A int64
		I I1
		L []Leaf
	}
	// bytes -> bytes: framed
	ReZ []byte
	// JSON methods only
	ReJ struct {
		P *Leaf
		I I1
		L []ReJ
	}
	reJIn struct {
		P *Leaf
		I I1
		L []ReJ
	}
	// a type that is registered when the hook is called first
	ReG    struct{ V *ReLazy }
	ReLazy struct {
		X int32
		Y []string
		B *ReB
	}
	// value receivers and a pointer representation inside: list kind
	ReV  []ReE
	ReE  struct{ N int32 }
	reEs struct{ L []ReE }
)

func (ReLazy) Is1() {}

var tReLazy = typeOf[ReLazy]()

// ---- the codec, or the model

func (e *reEnv) enter() func() {
	atomic.AddInt64(&e.calls, 1)
	d := atomic.AddInt64(&e.deep, 1)
	for {
		m := atomic.LoadInt64(&e.max)
		if d <= m || atomic.CompareAndSwapInt64(&e.max, m, d) {
			break
		}
	}
	if e.model == nil && atomic.LoadInt32(&e.noise) > 0 {
		switch n := atomic.AddInt32(&e.noise, 1); n % 11 {
		case 3:
			var w bytes.Buffer
			if err := e.cdc.PrintTypes(&w); err != nil || !strings.HasPrefix(w.String(), "| Type | Name |") {
				panic(fmt.Sprintf("PrintTypes in a hook: %v %q", err, w.String()))
			}
		case 5:
			l := &Leaf{n, "deep"}
			if c, ok := amino.DeepCopy(l).(*Leaf); !ok || c == l || *c != *l {
				panic("DeepCopy in a hook")
			}
		case 7: // something that fails
			if err, _ := try(func() error { return e.cdc.UnmarshalBinaryBare([]byte{0x0a, 0x05, 1}, &Leaf{}) }); err == nil {
				panic("broken bytes decoded in a hook")
			}
		case 9: // something that panics or fails
			if err, _ := try(func() error { _, err := e.cdc.MarshalJSON(struct{ C chan int }{}); return err }); err == nil {
				panic("channel encoded in a hook")
			}
		}
	}
	return func() { atomic.AddInt64(&e.deep, -1) }
}

func (e *reEnv) bare(o interface{}) ([]byte, error) {
	if e.model != nil {
		return e.model.top(addr(reflect.ValueOf(o)))
	}
	return e.cdc.MarshalBinaryBare(o)
}

func (e *reEnv) unbare(bz []byte, p interface{}) error {
	if e.model != nil {
		v, err := e.model.decTop(bz, reflect.TypeOf(p).Elem())
		if err == nil {
			reflect.ValueOf(p).Elem().Set(v)
		}
		return err
	}
	return e.cdc.UnmarshalBinaryBare(bz, p)
}

func (e *reEnv) lp(o interface{}) ([]byte, error) {
	if e.model != nil {
		bz, err := e.bare(o)
		return lp(bz), err
	}
	var w bytes.Buffer
	n, err := e.cdc.MarshalBinaryLengthPrefixedWriter(&w, o)
	if err == nil && n != int64(w.Len()) {
		panic("a hook wrote less than was counted")
	}
	return w.Bytes(), err
}

func (e *reEnv) unlp(bz []byte, p interface{}) error {
	if e.model != nil {
		u, k, err := getUv(bz)
		if err != nil || u != uint64(len(bz)-k) {
			return errors.New("bad frame")
		}
		return e.unbare(bz[k:], p)
	}
	n, err := e.cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p, int64(len(bz)))
	if err == nil && n != int64(len(bz)) {
		return errors.New("bad frame")
	}
	return err
}

func (e *reEnv) json(o interface{}) ([]byte, error) {
	if e.model != nil {
		n, err := e.model.jtop(addr(reflect.ValueOf(o)))
		if err != nil {
			return nil, err
		}
		return n.bytes(), nil
	}
	return e.cdc.MarshalJSON(o)
}

func (e *reEnv) unjson(bz []byte, p interface{}) error {
	if e.model != nil {
		v, err := e.model.jdecTop(bz, reflect.TypeOf(p).Elem())
		if err == nil {
			reflect.ValueOf(p).Elem().Set(v)
		}
		return err
	}
	return e.cdc.UnmarshalJSON(bz, p)
}

// ---- the methods

func (r ReB) MarshalAmino() (out ReRepr, err error) {
	e := reNow.Load()
	defer e.enter()()
	if r.V == nil {
		return
	}
	if r.V.B == rePoison {
		// an error of the codec
		_, err = e.bare(ReUnreg{Unregistered{}})
		if err == nil {
			panic("an unregistered type is encoded")
		}
		return ReRepr{}, errRe
	}
	out.D, err = e.bare(*r.V)
	out.N = int64(len(out.D)) + 1
	return
}

func (r *ReB) UnmarshalAmino(p ReRepr) error {
	e := reNow.Load()
	defer e.enter()()
	if p.N == 0 {
		*r = ReB{}
		return nil
	}
	if p.N != int64(len(p.D))+1 {
		return errRe
	}
	in := &ReIn{}
	if len(p.D) > 0 {
		if err := e.unbare(p.D, in); err != nil {
			return err
		}
	}
	*r = ReB{in}
	return nil
}

func (r ReS) MarshalAmino() (string, error) {
	e := reNow.Load()
	defer e.enter()()
	bz, err := e.lp(r.V)
	if err != nil || len(bz) == 1 {
		return "", err
	}
	return hex.EncodeToString(bz), nil
}

func (r *ReS) UnmarshalAmino(s string) error {
	e := reNow.Load()
	defer e.enter()()
	bz, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	*r = ReS{}
	if len(bz) == 0 {
		return nil
	}
	return e.unlp(bz, &r.V)
}

func (r ReZ) MarshalAmino() ([]byte, error) {
	e := reNow.Load()
	defer e.enter()()
	if len(r) == 0 {
		return nil, nil
	}
	return e.lp([]byte(r))
}

func (r *ReZ) UnmarshalAmino(bz []byte) error {
	e := reNow.Load()
	defer e.enter()()
	*r = nil
	if len(bz) == 0 {
		return nil
	}
	var in []byte
	if err := e.unlp(bz, &in); err != nil {
		return err
	}
	*r = in
	return nil
}

func (r ReV) MarshalAmino() ([]ReE, error) {
	e := reNow.Load()
	defer e.enter()()
	// there and back, and reversed
	bz, err := e.bare(reEs{r})
	if err != nil {
		return nil, err
	}
	var p reEs
	if len(bz) > 0 {
		if err := e.unbare(bz, &p); err != nil {
			return nil, err
		}
	}
	for i, j := 0, len(p.L)-1; i < j; i, j = i+1, j-1 {
		p.L[i], p.L[j] = p.L[j], p.L[i]
	}
	return p.L, nil
}

func (r *ReV) UnmarshalAmino(l []ReE) error {
	e := reNow.Load()
	defer e.enter()()
	bz, err := e.bare(reEs{l})
	if err != nil {
		return err
	}
	var p reEs
	if len(bz) > 0 {
		if err := e.unbare(bz, &p); err != nil {
			return err
		}
	}
	*r = nil
	for i := len(p.L) - 1; i >= 0; i-- {
		*r = append(*r, p.L[i])
	}
	return nil
}

func (r ReJ) MarshalJSON() ([]byte, error) {
	e := reNow.Load()
	defer e.enter()()
	return e.json(reJIn(r))
}

func (r *ReJ) UnmarshalJSON(bz []byte) error {
	e := reNow.Load()
	defer e.enter()()
	var in reJIn
	if err := e.unjson(bz, &in); err != nil {
		return err
	}
	*r = ReJ(in)
	return nil
}

func (r ReG) MarshalAmino() (out ReRepr, err error) {
	e := reNow.Load()
	defer e.enter()()
	if r.V == nil {
		return
	}
	e.lazy()
	out.D, err = e.bare(struct{ I I1 }{r.V})
	out.N = 1
	return
}

func (r *ReG) UnmarshalAmino(p ReRepr) error {
	e := reNow.Load()
	defer e.enter()()
	if p.N == 0 {
		*r = ReG{}
		return nil
	}
	e.lazy()
	var in struct{ I I1 }
	if err := e.unbare(p.D, &in); err != nil {
		return err
	}
	switch l := in.I.(type) {
	case *ReLazy:
		*r = ReG{l}
	case ReLazy:
		*r = ReG{&l}
	default:
		return errRe
	}
	return nil
}

// ReUnreg has an interface that is registered, Unregistered is not.
type (
	ReUnreg      struct{ I I1 }
	Unregistered struct{}
)

func (Unregistered) Is1() {}

// ---- values

type reGen struct {
	t *T
	g *gen
	n int // budget
}

func (r *reGen) i1() I1 {
	if r.t.rng.Intn(3) == 0 {
		return nil
	}
	r.g.budget = 30
	v := r.g.value(tI1, fopt{})
	x, _ := v.Interface().(I1)
	return x
}

func (r *reGen) in(depth int) ReIn {
	rng := r.t.rng
	v := ReIn{A: int32(rng.Intn(5) - 2), B: genString(rng)}
	r.n--
	if rng.Intn(2) == 0 {
		v.I = r.i1()
	}
	if rng.Intn(2) == 0 {
		v.S = r.s()
	}
	if rng.Intn(3) == 0 {
		j := r.j(depth)
		v.J = &j
	}
	if rng.Intn(3) == 0 {
		v.Z = append(v.Z, ReZ(genBytes(rng)), ReZ(genBytes(rng)))
	}
	if rng.Intn(3) == 0 {
		for n := rng.Intn(4); n > 0; n-- {
			v.M = append(v.M, ReE{int32(rng.Intn(4))})
		}
	}
	if depth > 0 && r.n > 0 {
		for n := rng.Intn(3); n > 0; n-- {
			b := r.b(depth - 1)
			v.L = append(v.L, &b)
		}
		if rng.Intn(3) == 0 {
			g := r.g1(depth - 1)
			v.G = &g
		}
	}
	return v
}

func (r *reGen) b(depth int) ReB {
	if r.t.rng.Intn(6) == 0 {
		return ReB{}
	}
	v := r.in(depth)
	return ReB{&v}
}

func (r *reGen) s() (v ReS) {
	v.V.A = int64(r.t.rng.Intn(400) - 10)
	v.V.I = r.i1()
	for n := r.t.rng.Intn(3); n > 0; n-- {
		v.V.L = append(v.V.L, Leaf{int32(n), genString(r.t.rng)})
	}
	return
}

func (r *reGen) j(depth int) (v ReJ) {
	if r.t.rng.Intn(2) == 0 {
		v.P = &Leaf{7, genString(r.t.rng)}
	}
	v.I = r.i1()
	if depth > 0 {
		for n := r.t.rng.Intn(3); n > 0; n-- {
			v.L = append(v.L, r.j(depth-1))
		}
	}
	return
}

func (r *reGen) g1(depth int) (v ReG) {
	if r.t.rng.Intn(4) == 0 {
		return
	}
	v.V = &ReLazy{X: int32(r.t.rng.Intn(9)), Y: []string{genString(r.t.rng)}}
	if depth > 0 && r.t.rng.Intn(2) == 0 {
		b := r.b(depth - 1)
		v.V.B = &b
	}
	return
}

func (r *reGen) top(depth int) reflect.Value {
	r.n = 12
	switch r.t.rng.Intn(9) {
	case 0:
		return addr(reflect.ValueOf(r.in(depth)))
	case 1:
		return addr(reflect.ValueOf(r.b(depth)))
	case 2:
		return addr(reflect.ValueOf(r.s()))
	case 3:
		return addr(reflect.ValueOf(r.j(depth)))
	case 4:
		return addr(reflect.ValueOf(r.g1(depth)))
	case 5:
		return addr(reflect.ValueOf([]ReB{r.b(depth), r.b(depth)}))
	case 6:
		return addr(reflect.ValueOf([2]ReS{r.s(), r.s()}))
	case 7:
		return addr(reflect.ValueOf(struct {
			A ReZ
			B *ReB
			C []ReG
			D ReV
		}{ReZ(genBytes(r.t.rng)), &ReB{&ReIn{A: 1}}, []ReG{r.g1(depth)}, ReV{{1}, {0}, {2}}}))
	}
	x := r.in(depth)
	y := r.in(0)
	return addr(reflect.ValueOf(struct{ X, Y *ReIn }{&x, &y}))
}

func genString(r *rand.Rand) string {
	return []string{"", "a", "héllo", "\"<&>\\", strings.Repeat("x", r.Intn(300)), fmt.Sprint(r.Int63())}[r.Intn(6)]
}

func genBytes(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 31, 130, 600}[r.Intn(6)]
	bz := make([]byte, n)
	r.Read(bz)
	return bz
}

// reCase makes a codec, values, and the calls with what they have to return.
func reCase(t *T, values int) (u *universe, env *reEnv, bs []*bcase, ops []c14op) {
	u = newUniverse(t.rng)
	g := newGen(t.rng, u)
	g.utf8, g.json = true, t.rng.Intn(3) == 0
	rg := &reGen{t: t, g: g}
	cdc := u.build(t.rng) // all types are used for the first time
	for i := 0; i < values; i++ {
		v := rg.top(1 + t.rng.Intn(3))
		bs = append(bs, &bcase{u: u, s: &spec{u: u}, g: g, cdc: cdc, t: v.Type(), v: v})
	}
	name := ""
	for k := 0; ; k++ {
		name = fmt.Sprint("amon/lazy/", t.rng.Intn(1e6))
		_, prefix := specDisfix(name)
		ok := u.byName[name] == nil
		for _, ri := range u.regs {
			ok = ok && ri.prefix != prefix
		}
		if ok {
			break
		}
	}
	ri := u.add(tReLazy, name, t.rng.Intn(2) == 0)
	var once sync.Once
	env = &reEnv{cdc: cdc, noise: int32(t.rng.Intn(2) * (1 + t.rng.Intn(100))), lazy: func() { once.Do(func() { regStep{reg: ri}.apply(cdc) }) }}
	model := &reEnv{model: &spec{u: u}, lazy: func() {}}
	reNow.Store(model)
	for _, b := range bs {
		ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
		if b.t == typeOf[ReB]() && b.v.Field(0).Elem().IsValid() {
			ops = append(ops, reCopy(b))
			if _, err := b.s.top(b.v); err == nil {
				ops = append(ops, reFails(t, b))
			}
		}
	}
	t.countN("hooks called by the model", model.calls)
	reNow.Store(env)
	return
}

// reCopy: a deep copy of a type with hooks is what they make of it.
func reCopy(b *bcase) c14op {
	v := b.v.Interface().(ReB)
	r, err := v.MarshalAmino()
	var want ReB
	if err == nil {
		err = want.UnmarshalAmino(r)
	}
	return c14op{"DeepCopy of " + b.String(), func() string {
		if err != nil {
			return ""
		}
		var c interface{}
		if pv, st := guard(func() { c = amino.DeepCopy(v) }); pv != nil {
			return fmt.Sprintf("panic: %v\n%s", pv, st)
		}
		return diff(reflect.ValueOf(want), reflect.ValueOf(c))
	}}
}

// reFails: a failure inside the nested call comes out, and nothing is left behind.
func reFails(t *T, b *bcase) c14op {
	v := *b.v.Interface().(ReB).V
	if t.rng.Intn(2) == 0 {
		v.L = append([]*ReB{{&ReIn{B: rePoison}}}, v.L...)
	} else {
		v.L = append(append([]*ReB{}, v.L...), &ReB{&ReIn{B: rePoison, A: 3}})
	}
	return c14op{"failing encoding of " + b.String(), func() string {
		var bz []byte
		err, pan := try(func() (err error) { bz, err = b.cdc.MarshalBinaryBare(ReB{&v}); return })
		if err == nil || pan || !strings.Contains(err.Error(), errRe.Error()) || len(bz) > 0 {
			return fmt.Sprintf("%x, error %v (panic %v)", bz, err, pan)
		}
		return ""
	}}
}

// c21reenter: the calls one after another.
func c21reenter(t *T) {
	_, env, bs, ops := reCase(t, 3)
	for _, k := range []int{0, 1} {
		for _, i := range t.rng.Perm(len(ops)) {
			if e := ops[i].do(); e != "" {
				t.failf("round %d, with hooks that use the codec: %s: %s", k, ops[i].what, e)
			}
		}
	}
	for _, b := range bs {
		t.evaluated("reenter "+b.String(), env.calls > 0)
	}
	t.countN("calls of hooks that used the codec", env.calls)
	t.countN("deepest nesting (sum over cases)", env.max)
}

// c14reenter: the same from many goroutines.
func c14reenter(t *T) {
	_, env, _, ops := reCase(t, 3)
	c14run(t, ops, 2+t.rng.Intn(7), nil)
	t.countN("calls of hooks that used the codec", env.calls)
}

// c14print: a table is printed to somebody who uses the codec before taking
// more of it.
func c14print(t *T) {
	u := newUniverse(t.rng)
	m := newRegModel()
	cdc := amino.NewCodec()
	steps := u.steps(nil)
	k := t.rng.Intn(len(steps) + 1)
	for _, s := range steps[:k] {
		s.apply(cdc)
		m.do(s)
	}
	want := m.table()
	rd, wr := io.Pipe()
	var wg sync.WaitGroup
	var perr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		perr = cdc.PrintTypes(wr)
		wr.Close()
	}()
	direct := t.rng.Intn(2) == 0
	var got []byte
	buf := make([]byte, 1+t.rng.Intn(200))
	next := k
	uses := 0
	for i := 0; ; i++ {
		n, err := rd.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
		use := func() {
			uses++
			if next < len(steps) && t.rng.Intn(2) == 0 {
				steps[next].apply(cdc) // first, as Go's lock lets no reader pass a waiting writer
				next++
			}
			l := Leaf{int32(i), "x"}
			bz, err := cdc.MarshalBinaryBare(l)
			var back Leaf
			if err != nil || cdc.UnmarshalBinaryBare(bz, &back) != nil || back != l {
				t.failf("encoding while a table is printed: %x, %v, %v", bz, err, back)
			}
		}
		if t.rng.Intn(8) == 0 {
			if direct {
				use()
			} else {
				done := make(chan struct{})
				go func() { defer close(done); use() }()
				<-done
			}
		}
	}
	wg.Wait()
	if perr != nil || !strings.HasPrefix(string(got), want) {
		t.failf("printed while registering and encoding: %v\n%s\nwant\n%s…", perr, got, want)
	}
	for _, s := range steps[k:next] {
		m.do(s)
	}
	if !strings.HasPrefix(m.table(), string(got)) {
		t.failf("printed\n%s\nafter all registrations\n%s", got, m.table())
	}
	t.evaluated(fmt.Sprint("print ", t.idx), uses > 0)
	t.countN("uses of the codec by the reader of a table", int64(uses))
}

// ---- readers and writers that use the codec

type useReader struct {
	r   io.Reader
	rng *rand.Rand
	use func()
}

func (r *useReader) Read(p []byte) (int, error) {
	if r.rng.Intn(3) == 0 {
		r.use()
	}
	n, err := r.r.Read(p)
	if n >= 0 && n < len(p) { // may be used as scratch space
		r.rng.Read(p[n:])
	}
	if r.rng.Intn(3) == 0 {
		r.use()
	}
	return n, err
}

func reUses(t *T, b *bcase) func() {
	ops := c14ops(t, b, codecAPI(b.cdc))
	return func() {
		if len(ops) == 0 {
			return
		}
		o := ops[t.rng.Intn(len(ops))]
		t.count("calls made by readers and writers")
		if e := o.do(); e != "" {
			t.failf("called by the reader or writer of another call: %s: %s", o.what, e)
		}
	}
}

func c08reenter(t *T) {
	u := newUniverse(t.rng)
	var prev *bcase
	cases(t, u, genOpts{utf8: true}, 3, 2, func(b *bcase) {
		bz, err := b.s.top(b.v)
		if err != nil || len(bz) == 0 && b.iface() {
			return
		}
		o := prev
		if o == nil || t.rng.Intn(3) == 0 {
			o = b
		}
		prev = b
		full := lp(bz)
		want, err := b.s.normTop(b.v)
		if err != nil {
			t.failf("model: %v", err)
		}
		r := &monReader{t: t, data: append(append([]byte{}, full...), 1, 2, 3), mode: t.rng.Intn(4), err: io.EOF, withIt: t.rng.Intn(3) == 0}
		p := reflect.New(b.t)
		var n int64
		err, _ = try(func() (err error) {
			n, err = b.cdc.UnmarshalBinaryLengthPrefixedReader(&useReader{r, t.rng, reUses(t, o)}, p.Interface(), []int64{0, int64(len(full))}[t.rng.Intn(2)])
			return
		})
		if err != nil || n != int64(len(full)) || r.off != len(full) {
			t.failf("reading %v from %x with a reader that uses the codec: %d bytes, %d consumed, error %v", b.t, full, n, r.off, err)
		}
		if d := diff(want, p.Elem()); d != "" {
			t.failf("reading %v from %x with a reader that uses the codec: %s", b.t, full, d)
		}
		t.evaluated("re "+b.t.String()+string(full), len(full) > 2)
	})
}

// useWriter uses the codec before it looks at what it is given.
type useWriter struct {
	rng *rand.Rand
	use func()
	got []byte
	max int // takes so many, -1: all
}

func (w *useWriter) Write(p []byte) (int, error) {
	before := append([]byte{}, p...)
	for i := w.rng.Intn(3); i >= 0; i-- {
		w.use()
	}
	if !bytes.Equal(before, p) {
		panic(fmt.Sprintf("what was given to a writer changed while it was writing: %x, now %x", before, p))
	}
	if w.max >= 0 && len(w.got)+len(p) > w.max {
		n := w.max - len(w.got)
		w.got = append(w.got, p[:n]...)
		return n, errWriter
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

func c09reenter(t *T) {
	u := newUniverse(t.rng)
	var prev *bcase
	cases(t, u, genOpts{utf8: true}, 3, 2, func(b *bcase) {
		bz, err := b.s.top(b.v)
		if err != nil {
			return
		}
		o := prev
		if o == nil || t.rng.Intn(3) == 0 {
			o = b
		}
		prev = b
		want := lp(bz)
		w := &useWriter{rng: t.rng, use: reUses(t, o), max: -1}
		if t.rng.Intn(3) == 0 {
			w.max = t.rng.Intn(len(want))
		}
		var n int64
		err, pan := try(func() (err error) { n, err = b.cdc.MarshalBinaryLengthPrefixedWriter(w, b.in()); return })
		exp := want
		if w.max >= 0 {
			exp = want[:w.max]
		}
		if pan || (err != nil) != (w.max >= 0) || n != int64(len(exp)) || !bytes.Equal(exp, w.got) {
			t.failf("writing %s to a writer that uses the codec and takes %d bytes: count %d, error %v, got %x, want %x", b, w.max, n, err, w.got, exp)
		}
		t.evaluated("re "+b.t.String()+string(want), len(want) > 2)
	})
}

// BlHook waits for somebody inside of its methods.
type BlHook struct{ S string }

type blEnv struct{ in, out chan struct{} }

var blNow sync.Map // string -> *blEnv

func blWait(s string) {
	if e, ok := blNow.Load(s); ok {
		e.(*blEnv).in <- struct{}{}
		<-e.(*blEnv).out
	}
}

func (b BlHook) MarshalAmino() (string, error) {
	blWait(b.S)
	return b.S, nil
}

func (b *BlHook) UnmarshalAmino(s string) error {
	blWait(s)
	b.S = s
	return nil
}

func (b BlHook) Is1() {}

type BlOut struct {
	A int32
	H BlHook
	L []BlHook
	I I1
	J BlJ
}

// BlJ waits in JSON.
type BlJ struct{ S string }

func (b BlJ) MarshalJSON() ([]byte, error) {
	blWait("json " + b.S)
	return []byte(strconv.Quote(b.S)), nil
}

func (b *BlJ) UnmarshalJSON(bz []byte) (err error) {
	b.S, err = strconv.Unquote(string(bz))
	blWait("json " + b.S)
	return
}

var blSeq int64

// c14blocked: calls that are held up in a reader, a writer or a hook hold up
// nobody else.
func c14blocked(t *T) {
	u := newUniverse(t.rng)
	m := newRegModel()
	cdc := amino.NewCodec()
	steps := u.steps(t.rng)
	// interfaces first, so that most of the concrete types follow
	k := t.rng.Intn(len(steps) + 1)
	for _, s := range steps[:k] {
		s.apply(cdc)
		m.do(s)
	}
	key := fmt.Sprint("block ", t.phase, t.idx, atomic.AddInt64(&blSeq, 1))
	val := BlOut{A: 7, H: BlHook{key}, J: BlJ{key}, L: []BlHook{{"x"}, {"y"}}}
	hasI1 := false
	for _, s := range steps[:k] {
		hasI1 = hasI1 || s.iface != nil && s.iface.rt == tI1
	}
	if !hasI1 { // an interface that is not registered cannot be in a type
		cdc.RegisterInterface((*I1)(nil), i1Options(u))
		for i, s := range steps {
			if i >= k && s.iface != nil && s.iface.rt == tI1 {
				m.do(s)
				steps = append(append([]regStep{}, steps[:i]...), steps[i+1:]...)
				break
			}
		}
	}
	s := &spec{u: u}
	want, err := s.top(addr(reflect.ValueOf(val)))
	if err != nil {
		t.failf("model: %v", err)
	}
	env := &blEnv{make(chan struct{}), make(chan struct{})}
	result := make(chan string, 1)
	how := t.rng.Intn(8)
	names := []string{"reader", "writer", "MarshalAmino", "UnmarshalAmino", "MarshalAmino in JSON", "UnmarshalAmino in JSON", "MarshalJSON", "UnmarshalJSON"}
	var rd *io.PipeReader
	var wr *io.PipeWriter
	rd, wr = io.Pipe()
	run := func(f func() string) {
		go func() {
			var r string
			if pv, st := guard(func() { r = f() }); pv != nil {
				r = fmt.Sprintf("panic: %v\n%s", pv, st)
			}
			result <- r
		}()
	}
	jtext, _ := s.jtop(addr(reflect.ValueOf(val)))
	back := func(v BlOut, err error) string {
		if err != nil {
			return err.Error()
		}
		return diff(reflect.ValueOf(val), reflect.ValueOf(v))
	}
	jbz := jtext.bytes()
	if how >= 6 {
		key = "json " + key
	}
	if how >= 2 {
		blNow.Store(key, env)
		defer blNow.Delete(key)
	}
	blocked := func() {} // returns when the call is held up
	free := func() {}
	switch how {
	case 0:
		full := lp(want)
		cut := t.rng.Intn(len(full))
		run(func() string {
			var v BlOut
			n, err := cdc.UnmarshalBinaryLengthPrefixedReader(rd, &v, 0)
			if err == nil && n != int64(len(full)) {
				return fmt.Sprint(n, " bytes reported")
			}
			return back(v, err)
		})
		blocked = func() {
			if cut > 0 {
				wr.Write(full[:cut])
			} else {
				runtime.Gosched()
			}
		}
		free = func() { wr.Write(full[cut:]) }
	case 1:
		run(func() string {
			n, err := cdc.MarshalBinaryLengthPrefixedWriter(wr, val)
			if err != nil || n != int64(len(lp(want))) {
				return fmt.Sprint(n, err)
			}
			return ""
		})
		first := make([]byte, 1)
		blocked = func() { io.ReadFull(rd, first) }
		free = func() {
			rest := make([]byte, len(lp(want))-1)
			io.ReadFull(rd, rest)
			if got := append(first, rest...); !bytes.Equal(got, lp(want)) {
				t.failf("written\n%x\nwant\n%x", got, lp(want))
			}
		}
	case 2:
		run(func() string {
			bz, err := cdc.MarshalBinaryBare(val)
			if err != nil || !bytes.Equal(bz, want) {
				return fmt.Sprintf("%x (%v), want %x", bz, err, want)
			}
			return ""
		})
	case 3:
		run(func() string {
			var v BlOut
			err := cdc.UnmarshalBinaryBare(want, &v)
			return back(v, err)
		})
	case 4, 6:
		run(func() string {
			bz, err := cdc.MarshalJSON(val)
			n, perr := jparse(bz)
			wn, _ := jparse(jbz)
			if err != nil || perr != nil || jdiff(wn, n, "") != "" {
				return fmt.Sprintf("%s (%v), want %s", bz, err, jbz)
			}
			return ""
		})
	case 5, 7:
		run(func() string {
			var v BlOut
			err := cdc.UnmarshalJSON(jbz, &v)
			return back(v, err)
		})
	}
	if how >= 2 {
		blocked = func() { <-env.in }
		free = func() { blNow.Delete(key); close(env.out) }
	}
	blocked()
	// now everything else
	for _, st := range steps[k:] {
		if pv, _ := guard(func() { st.apply(cdc) }); pv != nil {
			t.failf("while a call is held up in a %s: %s: %v", names[how], st, pv)
		}
		m.do(st)
	}
	if got, err := printTypes(cdc); err != nil || got != m.table() {
		t.failf("while a call is held up in a %s: PrintTypes\n%s\n(%v) want\n%s", names[how], got, err, m.table())
	}
	var ops []c14op
	cases(t, u, genOpts{utf8: true}, 2, 1, func(b *bcase) {
		b.cdc = cdc
		ops = append(ops, c14ops(t, b, codecAPI(cdc))...)
	})
	for _, o := range ops {
		if e := o.do(); e != "" {
			t.failf("while a call is held up in a %s: %s: %s", names[how], o.what, e)
		}
	}
	if t.rng.Intn(3) == 0 {
		cdc.Seal()
	}
	free()
	if e := <-result; e != "" {
		t.failf("a call that was held up in a %s: %s", names[how], e)
	}
	t.count("held up in a " + names[how])
	t.evaluated(key, true)
}

// i1Options: the options I1 is registered with.
func i1Options(u *universe) *amino.InterfaceOptions {
	ii := u.ifaces[tI1]
	return &amino.InterfaceOptions{Priority: ii.prio, AlwaysDisambiguate: ii.always}
}
