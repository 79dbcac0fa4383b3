package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C22", run: c22,
		rule:  "values of random and systematic types, encodable or not, and valid, spoiled and hostile inputs are passed to all entry points of an operation: their results, errors and panics are recorded and compared with those of the plain one (and, for the package-level functions, of a method of a fresh codec; values through one, two and three pointers; readers of several kinds, writers); indented JSON is compared with JSON; non-pointers of all kinds are passed as targets; broken frames and readers with limits of all sizes; distinct = distinct (operation, type, input), non-trivial = inputs that are not empty",
		assum: []string{"nil pointers are refused by panics, as documented"}})
}

// res is what a call did.
type res struct {
	how      string
	out      []byte
	err      string // text of the error returned, or panicked with
	panicked bool
	failed   bool
	isErr    bool // what it panicked with is an error
	v        reflect.Value
}

func (r res) String() string {
	switch {
	case r.panicked:
		return fmt.Sprintf("%s panics: %s", r.how, clip(r.err, 300))
	case r.failed:
		return fmt.Sprintf("%s fails: %s", r.how, clip(r.err, 300))
	case r.v.IsValid():
		return fmt.Sprintf("%s yields %s", r.how, show(r.v))
	}
	return fmt.Sprintf("%s yields %q", r.how, clip(string(r.out), 1000))
}

func record(how string, fn func() ([]byte, error)) (r res) {
	r.how = how
	pv, _ := guard(func() {
		out, err := fn()
		r.out = append([]byte{}, out...)
		if err != nil {
			r.failed, r.err = true, err.Error()
		}
	})
	if pv != nil {
		r.panicked, r.failed = true, true
		r.err = fmt.Sprint(pv)
		_, r.isErr = pv.(error)
	}
	return
}

func c22(c *ctx) {
	c.run("encode", c.n(1500), func(t *T) {
		randomCases(t, genOpts{richTags: t.idx%3 == 0}, 4, 3, func(b *bcase) { c22bin(t, b, t.rng.Intn(4) == 0) })
	})
	c.run("encode systematic", len(sysBin), func(t *T) { sysCases(t, false, 2, func(b *bcase) { c22bin(t, b, false) }) })
	c.run("encode JSON", c.n(1500), func(t *T) {
		randomCases(t, genOpts{json: true, utf8: true, richTags: t.idx%3 == 0}, 4, 3, func(b *bcase) { c22json(t, b, t.rng.Intn(4) == 0) })
	})
	c.run("encode JSON systematic", len(sysJSON), func(t *T) { sysCases(t, true, 2, func(b *bcase) { c22json(t, b, false) }) })
	c.run("targets", c.n(60), c22targets)
	c.run("odd arguments", c.n(100), c22odd)
}

// c22spoil makes a value that may not be encodable.
func (b *bcase) spoil() reflect.Value {
	return breakSome(b.g, clone(b.v))
}

// breakSome puts something that has no encoding into v: a nil pointer, an
// unregistered type, a time out of range.
func breakSome(g *gen, v reflect.Value) reflect.Value {
	var spots []func()
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		v = access(v)
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && d < 8 {
				walk(v.Elem(), d+1)
			}
		case reflect.Interface:
			for _, x := range []interface{}{COther{"x"}, &COther{"x"}, (*CSt)(nil), (*CPtr)(nil), Leaf{}, CStr("x"), 5} {
				if rv := reflect.ValueOf(x); rv.Type().Implements(v.Type()) {
					spots = append(spots, func() { v.Set(rv) })
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), d+1)
				}
			}
		case reflect.Struct:
			if v.Type() == tTime {
				spots = append(spots, func() { v.Set(reflect.ValueOf(badTime(g))) })
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name != "_" {
					walk(v.Field(i), d+1)
				}
			}
		}
	}
	walk(v, 0)
	if len(spots) > 0 {
		spots[g.rng.Intn(len(spots))]()
	}
	return v
}

// through returns o, and o behind one to three pointers.
func through(v reflect.Value, iface bool) (out []interface{}) {
	if !iface {
		out = append(out, v.Interface())
	}
	p := v.Addr()
	for i := 0; i < 3; i++ {
		out = append(out, p.Interface())
		q := reflect.New(p.Type())
		q.Elem().Set(p)
		p = q
	}
	return
}

// sameText: the error has the text it has without Must or package. Others may
// say where they were.
func sameText(how string) bool {
	how = strings.TrimPrefix(strings.TrimPrefix(how, "amino."), "Must")
	return how == "MarshalBinaryBare" || how == "UnmarshalBinaryBare" || how == "MarshalJSON" || how == "UnmarshalJSON"
}

// hasMap: which error is found first depends on the order of maps.
func hasMap(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map, reflect.Interface:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasMap(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasMap(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func sameRes(t *T, ref, r res, must bool, what string) {
	bad := func() { t.failf("%s: %s, but %s", what, ref, r) }
	if ref.failed != r.failed || sameText(r.how) && ref.err != r.err {
		bad()
	}
	if !ref.failed && !bytes.Equal(ref.out, r.out) {
		bad()
	}
	switch {
	case must && ref.failed && !r.panicked, !must && r.panicked != ref.panicked:
		bad()
	case must && ref.failed && !ref.panicked && !r.isErr:
		t.failf("%s: %s with something that is no error", what, r)
	}
}

func c22bin(t *T, b *bcase, spoil bool) {
	t.desc = nil
	v := b.v
	if spoil {
		v = b.spoil()
	}
	t.note("binary, type %v value %s", b.t, show(v))
	cdc := b.cdc
	os := through(v, b.iface())
	o := os[0]
	ref := record("MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) })
	if ref.failed {
		t.count("not encodable")
	} else {
		t.count("encodable")
	}
	t.evaluated(fmt.Sprintf("bin %v %s", b.t, show(v)), !ref.failed)
	lpref := ref
	lpref.how = "MarshalBinaryBare with length"
	if !ref.failed {
		lpref.out = lp(ref.out)
	}
	for i, o := range os {
		what := fmt.Sprintf("%d pointers", i)
		if i > 0 && ref.failed {
			// which value it was is reported with other words, perhaps
			if r := record("MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) }); !r.failed {
				t.failf("%s: %s, but %s", what, ref, r)
			}
			continue
		}
		sameRes(t, ref, record("MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) }), false, what)
		sameRes(t, ref, record("MustMarshalBinaryBare", func() ([]byte, error) { return cdc.MustMarshalBinaryBare(o), nil }), true, what)
		sameRes(t, lpref, record("MarshalBinaryLengthPrefixed", func() ([]byte, error) { return cdc.MarshalBinaryLengthPrefixed(o) }), false, what)
		sameRes(t, lpref, record("MustMarshalBinaryLengthPrefixed", func() ([]byte, error) { return cdc.MustMarshalBinaryLengthPrefixed(o), nil }), true, what)
		var n int64
		r := record("MarshalBinaryLengthPrefixedWriter", func() ([]byte, error) {
			var w bytes.Buffer
			var err error
			n, err = cdc.MarshalBinaryLengthPrefixedWriter(&w, o)
			return w.Bytes(), err
		})
		sameRes(t, lpref, r, false, what)
		if n != int64(len(r.out)) || r.failed && len(r.out) > 0 {
			t.failf("MarshalBinaryLengthPrefixedWriter: %d, and wrote %d bytes", n, len(r.out))
		}
		t.count("values behind pointers")
	}
	// package level: a fresh codec
	fresh := amino.NewCodec()
	pk := record("fresh codec's MarshalBinaryBare", func() ([]byte, error) { return fresh.MarshalBinaryBare(o) })
	lpk := pk
	if !pk.failed {
		lpk.out = lp(pk.out)
		t.count("encodable on a fresh codec")
	}
	sameRes(t, pk, record("amino.MarshalBinaryBare", func() ([]byte, error) { return amino.MarshalBinaryBare(o) }), false, "package")
	sameRes(t, pk, record("amino.MustMarshalBinaryBare", func() ([]byte, error) { return amino.MustMarshalBinaryBare(o), nil }), true, "package")
	sameRes(t, lpk, record("amino.MarshalBinaryLengthPrefixed", func() ([]byte, error) { return amino.MarshalBinaryLengthPrefixed(o) }), false, "package")
	sameRes(t, lpk, record("amino.MustMarshalBinaryLengthPrefixed", func() ([]byte, error) { return amino.MustMarshalBinaryLengthPrefixed(o), nil }), true, "package")
	sameRes(t, lpk, record("amino.MarshalBinaryLengthPrefixedWriter", func() ([]byte, error) {
		var w bytes.Buffer
		_, err := amino.MarshalBinaryLengthPrefixedWriter(&w, o)
		return w.Bytes(), err
	}), false, "package")
	// decoding
	if ref.failed {
		return
	}
	c22decBin(t, cdc, ref.out, b.t, false)
	for i := 0; i < 2; i++ {
		c22decBin(t, cdc, mutateBytes(t.rng, ref.out), b.t, false)
	}
	if !pk.failed {
		c22decBin(t, fresh, pk.out, b.t, true)
		c22decBin(t, fresh, mutateBytes(t.rng, pk.out), b.t, true)
	}
}

// recordDec records a decoding into a fresh target, ptrs pointers away.
func recordDec(how string, rt reflect.Type, ptrs int, fn func(p interface{}) error) res {
	p := reflect.New(rt)
	v := p.Elem()
	q := p
	for i := 0; i < ptrs; i++ {
		x := reflect.New(q.Type())
		x.Elem().Set(q)
		q = x
	}
	r := record(how, func() ([]byte, error) { return nil, fn(q.Interface()) })
	r.v = v
	return r
}

func sameDec(t *T, ref, r res, must bool, in []byte, js bool) {
	bad := func(why string) {
		t.failf("input %s: %s, but %s %s", enctext(js, in), ref, r, why)
	}
	if ref.failed != r.failed {
		bad("")
	}
	if sameText(r.how) && ref.err != r.err && !hasMap(r.v.Type(), nil) {
		bad("(other error)")
	}
	switch {
	case must && ref.failed && !r.panicked, !must && r.panicked != ref.panicked:
		bad("(panic)")
	case must && ref.failed && !ref.panicked && !r.isErr:
		bad("(no error)")
	}
	if !ref.failed {
		if d := diffX(ref.v, r.v, "", true); d != "" {
			bad(d)
		}
	}
}

func c22decBin(t *T, cdc *amino.Codec, in []byte, rt reflect.Type, pkg bool) {
	t.count("inputs decoded in all ways")
	ref := recordDec("UnmarshalBinaryBare", rt, 0, func(p interface{}) error { return cdc.UnmarshalBinaryBare(in, p) })
	if ref.failed {
		t.count("not decodable")
	}
	t.evaluated(fmt.Sprintf("dec %v %x", rt, in), len(in) > 0)
	f := lp(in)
	rd := func() io.Reader {
		switch t.rng.Intn(3) {
		case 0:
			return bytes.NewReader(f)
		case 1:
			return bytes.NewBuffer(append([]byte(nil), f...))
		}
		return &chunkReader{data: f, rng: t.rng, max: 7, err: io.EOF}
	}
	limit := func() int64 {
		if t.rng.Intn(2) == 0 {
			return 0
		}
		return int64(len(f)) + int64(t.rng.Intn(3))
	}
	type way struct {
		how  string
		must bool
		fn   func(p interface{}) error
	}
	reader := func(fn func(r io.Reader, p interface{}, max int64) (int64, error)) func(p interface{}) error {
		return func(p interface{}) error {
			n, err := fn(rd(), p, limit())
			if n != int64(len(f)) {
				t.failf("reader: %d of %d bytes (%v)", n, len(f), err)
			}
			return err
		}
	}
	ways := []way{
		{"MustUnmarshalBinaryBare", true, func(p interface{}) error { cdc.MustUnmarshalBinaryBare(in, p); return nil }},
		{"UnmarshalBinaryLengthPrefixed", false, func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(f, p) }},
		{"MustUnmarshalBinaryLengthPrefixed", true, func(p interface{}) error { cdc.MustUnmarshalBinaryLengthPrefixed(f, p); return nil }},
		{"UnmarshalBinaryLengthPrefixedReader", false, reader(cdc.UnmarshalBinaryLengthPrefixedReader)},
	}
	if pkg {
		ways = append(ways,
			way{"amino.UnmarshalBinaryBare", false, func(p interface{}) error { return amino.UnmarshalBinaryBare(in, p) }},
			way{"amino.MustUnmarshalBinaryBare", true, func(p interface{}) error { amino.MustUnmarshalBinaryBare(in, p); return nil }},
			way{"amino.UnmarshalBinaryLengthPrefixed", false, func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(f, p) }},
			way{"amino.MustUnmarshalBinaryLengthPrefixed", true, func(p interface{}) error { amino.MustUnmarshalBinaryLengthPrefixed(f, p); return nil }},
			way{"amino.UnmarshalBinaryLengthPrefixedReader", false, reader(amino.UnmarshalBinaryLengthPrefixedReader)})
	}
	for _, w := range ways {
		sameDec(t, ref, recordDec(w.how, rt, 0, w.fn), w.must, in, false)
	}
	for k := 1; k <= 2; k++ {
		if rt.Kind() == reflect.Interface {
			break // pointers to interfaces are no supported types
		}
		r := recordDec(fmt.Sprintf("UnmarshalBinaryBare (%d more pointers)", k), rt, k, func(p interface{}) error { return cdc.UnmarshalBinaryBare(in, p) })
		sameDec(t, ref, r, false, in, false)
	}
	// into nil pointers
	for k, pt := 1, rt; k <= 3 && rt.Kind() != reflect.Interface; k++ {
		pt = reflect.PtrTo(pt)
		r := recordDec(fmt.Sprintf("UnmarshalBinaryBare to %v", pt), pt, 0, func(p interface{}) error { return cdc.UnmarshalBinaryBare(in, p) })
		if r.failed != ref.failed || r.panicked {
			t.failf("input %x: %s, but %s", in, ref, r)
		}
		if ref.failed {
			continue
		}
		d := r.v
		for d.Kind() == reflect.Ptr && !d.IsNil() {
			d = d.Elem()
		}
		e := ref.v
		for e.Kind() == reflect.Ptr && !e.IsNil() {
			e = e.Elem()
		}
		if d.Type() == e.Type() {
			if d := diffX(e, d, "", true); d != "" {
				t.failf("input %x: %s, but %s: %s", in, ref, r, d)
			}
		} else if len(in) > 4 {
			t.failf("input %x: %s, but %s", in, ref, r)
		}
	}
	if t.rng.Intn(2) == 0 {
		c22frames(t, cdc, in, f, rt, pkg)
	}
	// a frame that is too long or too short is refused in all ways alike
	if len(in) > 0 {
		cut := f[:len(f)-1]
		a := recordDec("UnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(cut, p) })
		m := recordDec("MustUnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { cdc.MustUnmarshalBinaryLengthPrefixed(cut, p); return nil })
		if !a.failed || a.panicked {
			t.failf("input %x: %s", cut, a)
		}
		sameDec(t, a, m, true, cut, false)
		r := recordDec("UnmarshalBinaryLengthPrefixedReader", rt, 0, func(p interface{}) error {
			_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(cut), p, 0)
			return err
		})
		if !r.failed || r.panicked {
			t.failf("input %x: %s", cut, r)
		}
	}
}

// c22frames: bytes that are no frame, or too much of one, and limits that are
// too low: all functions that read frames have the same to say.
func c22frames(t *T, cdc *amino.Codec, in, f []byte, rt reflect.Type, pkg bool) {
	overlong := append([]byte{}, f[:len(f)-len(in)]...)
	overlong[len(overlong)-1] |= 0x80
	overlong = append(append(overlong, 0), in...)
	bad := [][]byte{nil, {}, {0x80}, {0xff, 0xff}, bytes.Repeat([]byte{0x80}, 10), bytes.Repeat([]byte{0xff}, 11), {1}, {5, 1}, f[:0], f[:t.rng.Intn(len(f))],
		append(append([]byte{}, f...), 0), append(append([]byte{}, f...), f...), overlong, {0}, {0x80, 0}, append([]byte{0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 2}, in...)}
	for _, i := range t.rng.Perm(len(bad))[:2] {
		x := bad[i]
		ref := recordDec("UnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(x, p) })
		sameDec(t, ref, recordDec("MustUnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { cdc.MustUnmarshalBinaryLengthPrefixed(x, p); return nil }), true, x, false)
		if pkg {
			sameDec(t, ref, recordDec("amino.UnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(x, p) }), false, x, false)
			sameDec(t, ref, recordDec("amino.MustUnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { amino.MustUnmarshalBinaryLengthPrefixed(x, p); return nil }), true, x, false)
		}
		if ref.failed {
			t.count("bad frames refused alike")
		}
		// readers with a limit
		limits := []int64{0, 1, 2, int64(len(in)), int64(len(f) - 1), int64(len(f)), int64(len(f) + 1), int64(len(x)), 1 << 40}
		max := limits[t.rng.Intn(len(limits))]
		if max < 0 {
			max = 0
		}
		var n, pn int64
		rr := recordDec("UnmarshalBinaryLengthPrefixedReader", rt, 0, func(p interface{}) (err error) {
			n, err = cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(x), p, max)
			return
		})
		if !rr.failed && max > 0 && n > max {
			t.failf("%s of %x with limit %d: %d bytes", rr, x, max, n)
		}
		// it takes the first frame, and leaves what follows
		if !rr.failed {
			first := x[:n]
			a := recordDec("UnmarshalBinaryLengthPrefixed", rt, 0, func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(first, p) })
			sameDec(t, a, rr, false, first, false)
		} else if !ref.failed && (max == 0 || max >= int64(len(x))) {
			t.failf("input %x, limit %d: %s, but %s", x, max, ref, rr)
		}
		if pkg {
			pr := recordDec("amino.UnmarshalBinaryLengthPrefixedReader", rt, 0, func(p interface{}) (err error) {
				pn, err = amino.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(x), p, max)
				return
			})
			sameDec(t, rr, pr, false, x, false)
			if n != pn || rr.err != pr.err && !hasMap(rt, nil) {
				t.failf("input %x, limit %d: %d, %s, but %d, %s", x, max, n, rr, pn, pr)
			}
		}
		t.count("readers with limits")
	}
}

func c22json(t *T, b *bcase, spoil bool) {
	t.desc = nil
	v := b.v
	if spoil {
		v = b.spoil()
	}
	t.note("JSON, type %v value %s", b.t, show(v))
	cdc := b.cdc
	os := through(v, b.iface())
	o := os[0]
	ref := record("MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) })
	if ref.failed {
		t.count("not encodable")
	} else {
		t.count("encodable")
	}
	t.evaluated(fmt.Sprintf("JSON %v %s", b.t, show(v)), !ref.failed)
	prefix := []string{"", " ", "\t", "  "}[t.rng.Intn(4)]
	indent := []string{"", " ", "\t", "    "}[t.rng.Intn(4)]
	checkIndent := func(ref, r res) {
		if r.failed != ref.failed || r.panicked != ref.panicked || ref.failed && sameText(r.how) && r.err != ref.err {
			t.failf("%s, but %s", ref, r)
		}
		if ref.failed {
			return
		}
		var c1, c2, ind bytes.Buffer
		e1, e2, e3 := json.Compact(&c1, ref.out), json.Compact(&c2, r.out), json.Indent(&ind, ref.out, prefix, indent)
		if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(c1.Bytes(), c2.Bytes()) {
			t.failf("%s, but %s: other than white space differs (%v %v %v)", ref, r, e1, e2, e3)
		}
		if !bytes.Equal(ind.Bytes(), r.out) {
			t.failf("%s, indented with %q and %q is %q", r, prefix, indent, ind.Bytes())
		}
		t.count("indented texts")
	}
	for i, o := range os {
		if i > 0 && ref.failed {
			if r := record("MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) }); !r.failed {
				t.failf("%d pointers: %s, but %s", i, ref, r)
			}
			continue
		}
		sameRes(t, ref, record("MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) }), false, fmt.Sprintf("%d pointers", i))
		sameRes(t, ref, record("MustMarshalJSON", func() ([]byte, error) { return cdc.MustMarshalJSON(o), nil }), true, fmt.Sprintf("%d pointers", i))
		checkIndent(ref, record("MarshalJSONIndent", func() ([]byte, error) { return cdc.MarshalJSONIndent(o, prefix, indent) }))
	}
	fresh := amino.NewCodec()
	pk := record("fresh codec's MarshalJSON", func() ([]byte, error) { return fresh.MarshalJSON(o) })
	if !pk.failed {
		t.count("encodable on a fresh codec")
	}
	sameRes(t, pk, record("amino.MarshalJSON", func() ([]byte, error) { return amino.MarshalJSON(o) }), false, "package")
	checkIndent(pk, record("amino.MarshalJSONIndent", func() ([]byte, error) { return amino.MarshalJSONIndent(o, prefix, indent) }))
	if ref.failed {
		return
	}
	one := func(cdc *amino.Codec, in []byte, pkg bool) {
		t.count("inputs decoded in all ways")
		t.evaluated(fmt.Sprintf("decJ %v %s", b.t, in), len(in) > 0)
		ref := recordDec("UnmarshalJSON", b.t, 0, func(p interface{}) error { return cdc.UnmarshalJSON(in, p) })
		if ref.failed {
			t.count("not decodable")
		}
		sameDec(t, ref, recordDec("MustUnmarshalJSON", b.t, 0, func(p interface{}) error { cdc.MustUnmarshalJSON(in, p); return nil }), true, in, true)
		if pkg {
			sameDec(t, ref, recordDec("amino.UnmarshalJSON", b.t, 0, func(p interface{}) error { return amino.UnmarshalJSON(in, p) }), false, in, true)
		}
		// white space between does not matter
		if !ref.failed && len(bytes.TrimSpace(in)) == len(in) {
			var ind bytes.Buffer
			if json.Indent(&ind, in, "", " ") == nil {
				sameDec(t, ref, recordDec("UnmarshalJSON (indented)", b.t, 0, func(p interface{}) error { return cdc.UnmarshalJSON(ind.Bytes(), p) }), false, ind.Bytes(), true)
			}
		}
		for k := 1; k <= 2; k++ {
			if b.iface() || string(bytes.TrimSpace(in)) == "null" {
				break
			}
			r := recordDec(fmt.Sprintf("UnmarshalJSON (%d more pointers)", k), b.t, k, func(p interface{}) error { return cdc.UnmarshalJSON(in, p) })
			sameDec(t, ref, r, false, in, true)
		}
	}
	if !hasOwnJSON(b.t) { // they see the text as it is
		one(cdc, ref.out, false)
		one(cdc, c20mutJSON(t, ref.out), false)
		if !pk.failed {
			one(fresh, pk.out, true)
			one(fresh, c20mutJSON(t, pk.out), true)
		}
	}
}

// hasOwnJSON: types with UnmarshalJSON can be reached.
func hasOwnJSON(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type) bool
	walk = func(t reflect.Type) bool {
		if seen[t] || t == tTime {
			return false
		}
		seen[t] = true
		if t.Kind() != reflect.Interface && reflect.PtrTo(t).Implements(typeOf[json.Unmarshaler]()) {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			return walk(t.Elem())
		case reflect.Interface:
			return true
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if walk(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

// c22targets: what is not a pointer is refused as a target, whatever the
// input, and stays as it was.
func c22targets(t *T) {
	js := t.idx%2 == 1
	randomCases(t, genOpts{json: js, utf8: js}, 4, 2, func(b *bcase) {
		if b.t.Kind() == reflect.Ptr || b.iface() {
			return
		}
		t.desc = nil
		t.note("%s", b)
		var bz []byte
		if js {
			bz, _ = marshalJSON(b.cdc, b.in())
		} else {
			bz, _ = marshalBare(b.cdc, b.in())
		}
		ins := [][]byte{bz, nil, {}, []byte("null"), {0}, mutateBytes(t.rng, bz)}
		for _, in := range ins {
			f := lp(in)
			type way struct {
				how  string
				must bool
				fn   func(o interface{}) error
			}
			var ways []way
			for _, cdc := range []*amino.Codec{b.cdc, amino.NewCodec()} {
				ways = append(ways, way{"UnmarshalJSON", false, func(o interface{}) error { return cdc.UnmarshalJSON(in, o) }},
					way{"MustUnmarshalJSON", true, func(o interface{}) error { cdc.MustUnmarshalJSON(in, o); return nil }},
					way{"UnmarshalBinaryBare", false, func(o interface{}) error { return cdc.UnmarshalBinaryBare(in, o) }},
					way{"MustUnmarshalBinaryBare", true, func(o interface{}) error { cdc.MustUnmarshalBinaryBare(in, o); return nil }},
					way{"UnmarshalBinaryLengthPrefixed", false, func(o interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(f, o) }},
					way{"MustUnmarshalBinaryLengthPrefixed", true, func(o interface{}) error { cdc.MustUnmarshalBinaryLengthPrefixed(f, o); return nil }},
					way{"UnmarshalBinaryLengthPrefixedReader", false, func(o interface{}) error {
						_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(f), o, 0)
						return err
					}})
			}
			ways = append(ways, way{"amino.UnmarshalJSON", false, func(o interface{}) error { return amino.UnmarshalJSON(in, o) }},
				way{"amino.UnmarshalBinaryBare", false, func(o interface{}) error { return amino.UnmarshalBinaryBare(in, o) }},
				way{"amino.MustUnmarshalBinaryBare", true, func(o interface{}) error { amino.MustUnmarshalBinaryBare(in, o); return nil }},
				way{"amino.UnmarshalBinaryLengthPrefixed", false, func(o interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(f, o) }},
				way{"amino.MustUnmarshalBinaryLengthPrefixed", true, func(o interface{}) error { amino.MustUnmarshalBinaryLengthPrefixed(f, o); return nil }})
			for _, o := range []interface{}{b.v.Interface(), reflect.Zero(b.t).Interface(), nil, 5, "x", map[string]int{}, []byte{1}, func() {}, make(chan int), struct{}{}} {
				var snap reflect.Value
				if o != nil {
					snap = clone(reflect.ValueOf(o))
				}
				for _, w := range ways {
					r := record(w.how, func() ([]byte, error) { return nil, w.fn(o) })
					if !r.failed || r.panicked != w.must {
						t.failf("target %T, input %x: %s", o, in, r)
					}
					if w.must && !r.isErr {
						t.failf("target %T: %s with something that is no error", o, r)
					}
				}
				if o != nil && reflect.TypeOf(o).Kind() != reflect.Func && reflect.TypeOf(o).Kind() != reflect.Chan {
					if d := diffX(snap, reflect.ValueOf(o), "", true); d != "" {
						t.failf("target %T changed: %s", o, d)
					}
				}
				t.countN("non-pointer targets refused", int64(len(ways)))
				t.evaluated(fmt.Sprintf("%T %x %v", o, in, js), true)
			}
		}
	})
}

// c22odd: nil, nil pointers, and writers that fail.
func c22odd(t *T) {
	u := newUniverse(t.rng)
	for _, cdc := range []*amino.Codec{u.cdc, amino.NewCodec()} {
		for _, o := range []interface{}{nil, (*int)(nil), (*Leaf)(nil), (**Leaf)(nil), new(*Leaf), (*CSt)(nil), (*I1)(nil), make(chan int), func() {}, 1.5, complex(1, 1), map[string]int{"a": 1}, struct{ C chan int }{make(chan int)}, time.Time{}, time.Unix(1<<40, 0)} {
			ref := record("MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) })
			l := ref
			if !ref.failed {
				l.out = lp(ref.out)
			}
			what := fmt.Sprintf("%T", o)
			sameRes(t, ref, record("MustMarshalBinaryBare", func() ([]byte, error) { return cdc.MustMarshalBinaryBare(o), nil }), true, what)
			sameRes(t, l, record("MarshalBinaryLengthPrefixed", func() ([]byte, error) { return cdc.MarshalBinaryLengthPrefixed(o) }), false, what)
			sameRes(t, l, record("MustMarshalBinaryLengthPrefixed", func() ([]byte, error) { return cdc.MustMarshalBinaryLengthPrefixed(o), nil }), true, what)
			jref := record("MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) })
			sameRes(t, jref, record("MustMarshalJSON", func() ([]byte, error) { return cdc.MustMarshalJSON(o), nil }), true, what)
			t.evaluated("odd "+what, true)
		}
	}
	// the Must variants panic with the very error of a hook
	for _, o := range []interface{}{MStr{X: -666}, []MStr{{X: 1}, {X: -666}}, JStr{poison}} {
		for _, op := range append(binEncOps[:len(binEncOps):len(binEncOps)], jsonEncOps...) {
			if _, isJ := o.(JStr); isJ && !strings.Contains(op.how, "JSON") {
				continue
			}
			r := record(op.how, func() ([]byte, error) { return op.fn(u.cdc, o) })
			if !r.failed || r.panicked != strings.HasPrefix(op.how, "Must") || r.panicked && !r.isErr {
				t.failf("%T: %s", o, r)
			}
			var he *hookErr
			pv, _ := guard(func() {
				_, err := op.fn(u.cdc, o)
				if err != nil && strings.Contains(err.Error(), errHook.Error()) {
					errors.As(err, &he)
					panic(err)
				}
			})
			if pv == nil {
				t.failf("%T: %s without the hook's error", o, op.how)
			}
		}
	}
	t.count("odd arguments")
}

// badTime is a time out of range.
func badTime(g *gen) time.Time {
	y := []int{0, -1, -5, 10000, 10001, 12345}[g.rng.Intn(6)]
	return time.Date(y, time.Month(1+g.rng.Intn(12)), 1+g.rng.Intn(28), g.rng.Intn(24), 0, 0, g.rng.Intn(1e9), time.UTC)
}
