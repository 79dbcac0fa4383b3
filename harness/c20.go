package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"unsafe"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C20", run: c20,
		rule:  "values of random and systematic types, with spare capacity behind their lists and with representations that share the value's memory, are encoded through every entry point; the value (spare capacity included) is compared with a snapshot, the memory of every returned slice (capacity included) with that of the value, of the codec's type information as seen through results, and of all other results; all results are kept and compared with copies after later traffic, after overwriting the value, and after overwriting other results; valid, spoiled and hostile input is decoded from a buffer with a guard zone, which must stay as it is; the memory of what was decoded (strings included) must be apart from the input, within itself (no two lists of one value share theirs), and from what other decodings made, and survives overwriting of both; several goroutines keep results while others encode; distinct = distinct (type, encoding), non-trivial = values that refer to memory or encodings that are not empty",
		assum: []string{"hooks of the types do not modify their receiver, and UnmarshalJSON methods copy what they keep, as encoding/json demands"}})
}

// Types whose representation is their own memory.
type (
	OwnBytes struct{ b []byte }
	OwnStrs  struct{ s []string }
	OwnPtr   struct{ p *OwnRepr }
	OwnRepr  struct {
		L []int32
		B []byte
		P *Leaf
		Q []*Leaf
	}
	OwnMap  struct{ m map[string]int32 } // JSON
	OwnSelf []Leaf
	Owns    struct {
		A OwnBytes
		B *OwnBytes
		C []OwnBytes
		D OwnStrs
		E []*OwnPtr
		F OwnPtr
		G OwnSelf
		H []OwnStrs
		I [2]OwnBytes
	}
	OwnsJSON struct {
		A OwnMap
		B map[string]OwnMap
		C *OwnMap
		D json.RawMessage
		E []json.RawMessage
		F map[string]OwnBytes
		G Owns
		H map[string]json.RawMessage
	}
)

func (o OwnBytes) MarshalAmino() ([]byte, error)         { return o.b, nil }
func (o *OwnBytes) UnmarshalAmino(b []byte) error        { o.b = b; return nil }
func (o OwnStrs) MarshalAmino() ([]string, error)        { return o.s, nil }
func (o *OwnStrs) UnmarshalAmino(s []string) error       { o.s = s; return nil }
func (o OwnPtr) MarshalAmino() (*OwnRepr, error)         { return o.p, nil }
func (o *OwnPtr) UnmarshalAmino(p *OwnRepr) error        { o.p = p; return nil }
func (o OwnSelf) MarshalAmino() ([]Leaf, error)          { return o, nil }
func (o *OwnSelf) UnmarshalAmino(l []Leaf) error         { *o = l; return nil }
func (o OwnMap) MarshalAmino() (map[string]int32, error) { return o.m, nil }
func (o *OwnMap) UnmarshalAmino(m map[string]int32) error {
	o.m = m
	return nil
}

var c20own = []reflect.Type{reflect.TypeOf(OwnBytes{}), reflect.TypeOf(OwnStrs{}), reflect.TypeOf(OwnSelf{}), reflect.TypeOf(Owns{}), reflect.TypeOf([]Owns{}), reflect.TypeOf(&Owns{}),
	reflect.TypeOf([]OwnBytes{}), reflect.TypeOf([]*Owns{}), reflect.TypeOf([]byte{}), reflect.TypeOf([][]byte{}), reflect.TypeOf(""), reflect.TypeOf(CBytes{}), reflect.TypeOf(CEmpty{}), reflect.TypeOf([3]byte{}), reflect.TypeOf([]string{})}
var c20ownJSON = []reflect.Type{reflect.TypeOf(OwnMap{}), reflect.TypeOf(OwnsJSON{}), reflect.TypeOf(json.RawMessage{}), reflect.TypeOf([]OwnsJSON{}), reflect.TypeOf(map[string]OwnBytes{}), reflect.TypeOf(map[string]*OwnMap{}), reflect.TypeOf(map[string][]byte{})}

// ownFill makes a value of these types.
func ownFill(g *gen, v reflect.Value, depth int) {
	r := g.rng
	v = access(v)
	switch p := v.Addr().Interface().(type) {
	case *json.RawMessage:
		*p = json.RawMessage([]string{"null", "1", `"abc"`, `{"a":[1,2,"x"]}`, `[true]`}[r.Intn(5)])
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type() == reflect.TypeOf((*OwnRepr)(nil)) || r.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			ownFill(g, v.Elem(), depth)
		}
	case reflect.Slice:
		if depth > 4 || r.Intn(5) == 0 {
			return
		}
		n := 1 + r.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			ownFill(g, v.Index(i), depth+1)
		}
	case reflect.Map:
		if depth > 4 || r.Intn(5) == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < 1+r.Intn(4); i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			ownFill(g, e, depth+1)
			v.SetMapIndex(reflect.ValueOf(g.str()), e)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ownFill(g, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ownFill(g, v.Field(i), depth+1)
		}
	default:
		g.fill(v, fopt{}, 0)
	}
}

// tails: lists get spare capacity with contents that must not change.
type spareTail struct {
	v, was reflect.Value
	path   string
}

func addTails(g *gen, v reflect.Value) (out []spareTail) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		v = access(v)
		if v.Type() == tTime || !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem(), path+"*")
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			extra := 1 + g.rng.Intn(9)
			s := reflect.MakeSlice(v.Type(), v.Len()+extra, v.Len()+extra)
			reflect.Copy(s, v)
			for i := v.Len(); i < s.Len(); i++ {
				if e := s.Index(i); e.Kind() == reflect.Uint8 {
					e.SetUint(0xEE)
				} else {
					scribble(e)
				}
			}
			n := v.Len()
			v.Set(s.Slice(0, n))
			ta := s.Slice(n, n+extra)
			out = append(out, spareTail{ta, clone(ta), path})
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < n; i++ {
					walk(v.Index(i), path+"["+itoa(i)+"]")
				}
			}
		case reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path+"["+itoa(i)+"]")
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name != "_" {
					walk(v.Field(i), path+"."+v.Type().Field(i).Name)
				}
			}
		}
	}
	walk(v, "")
	return
}

func tailsSame(ts []spareTail) string {
	for _, x := range ts {
		if d := diffX(x.was, x.v, x.path+" (behind its end)", true); d != "" {
			return d
		}
	}
	return ""
}

// kept is a result that must stay as it is.
type kept struct {
	how       string
	bz, was   []byte
	scribbled bool
}

func bytesRegion(bz []byte, path string) (out []region) {
	if cap(bz) > 0 {
		p := unsafe.Pointer(unsafe.SliceData(bz))
		out = append(out, region{uintptr(p), uintptr(p) + uintptr(cap(bz)), path, p})
	}
	return
}

func keptSame(t *T, ks []*kept, when string) {
	for _, k := range ks {
		if !k.scribbled && !bytes.Equal(k.bz, k.was) {
			t.failf("%s: the result of %s changed from %x to %x", when, k.how, k.was, k.bz)
		}
	}
}

type encOp struct {
	how string
	fn  func(cdc *amino.Codec, o interface{}) ([]byte, error)
}

var binEncOps = []encOp{
	{"MarshalBinaryBare", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MarshalBinaryBare(o) }},
	{"MustMarshalBinaryBare", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MustMarshalBinaryBare(o), nil }},
	{"MarshalBinaryLengthPrefixed", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MarshalBinaryLengthPrefixed(o) }},
	{"MustMarshalBinaryLengthPrefixed", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MustMarshalBinaryLengthPrefixed(o), nil }},
	{"MarshalBinaryLengthPrefixedWriter", func(c *amino.Codec, o interface{}) ([]byte, error) {
		var b bytes.Buffer
		_, err := c.MarshalBinaryLengthPrefixedWriter(&b, o)
		return b.Bytes(), err
	}},
}

var jsonEncOps = []encOp{
	{"MarshalJSON", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MarshalJSON(o) }},
	{"MustMarshalJSON", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MustMarshalJSON(o), nil }},
	{"MarshalJSONIndent", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MarshalJSONIndent(o, "", " ") }},
	{"MarshalJSONIndent with prefix", func(c *amino.Codec, o interface{}) ([]byte, error) { return c.MarshalJSONIndent(o, "", "") }},
}

func c20(c *ctx) {
	c.run("random", c.n(1500), func(t *T) {
		randomCases(t, genOpts{richTags: t.idx%3 == 0}, 3, 3, func(b *bcase) { c20case(t, b, false) })
	})
	c.run("systematic", c.n(len(sysBin)), func(t *T) { sysCases(t, false, 2, func(b *bcase) { c20case(t, b, false) }) })
	c.run("random JSON", c.n(1000), func(t *T) {
		randomCases(t, genOpts{json: true, richTags: t.idx%3 == 0}, 3, 3, func(b *bcase) { c20case(t, b, true) })
	})
	c.run("systematic JSON", c.n(len(sysJSON)), func(t *T) { sysCases(t, true, 2, func(b *bcase) { c20case(t, b, true) }) })
	c.run("own memory", c.n(3000), func(t *T) {
		u := newUniverse(t.rng)
		for i := 0; i < 3; i++ {
			js := i == 2 || t.rng.Intn(2) == 0
			l := c20own
			if js {
				l = append(l[:len(l):len(l)], c20ownJSON...)
			}
			g := newGen(t.rng, u)
			b := &bcase{u: u, g: g, cdc: u.cdc, t: l[t.rng.Intn(len(l))]}
			b.v = reflect.New(b.t).Elem()
			ownFill(g, b.v, 0)
			if js && b.t == reflect.TypeOf(json.RawMessage{}) && b.v.Len() == 0 {
				continue
			}
			c20case(t, b, js)
		}
	})
	c.run("exported", c.n(2000), c20exported)
	c.run("traffic", c.n(150), c20traffic)
	c.run("concurrent", c.n(60), c20concurrent)
}

func c20case(t *T, b *bcase, js bool) {
	t.desc = nil
	if js {
		t.note("JSON")
	}
	ops := binEncOps
	if js {
		ops = jsonEncOps
	}
	tails := addTails(b.g, b.v)
	snap := clone(b.v)
	t.note("%s", b)
	vregs := regions(b.v, true)
	var ks []*kept
	var first []byte
	failed := false
	encode := func() {
		for _, op := range ops {
			o := b.in()
			ptr := b.iface() || t.rng.Intn(2) == 0
			if ptr {
				o = b.v.Addr().Interface()
			}
			var bz []byte
			err, _ := try(func() (err error) { bz, err = op.fn(b.cdc, o); return })
			if err != nil {
				failed = true
				t.count("refused")
				if bz != nil && op.how != "MarshalBinaryLengthPrefixedWriter" {
					t.count("bytes returned with an error")
				}
			} else {
				t.count("encodings")
				rs := bytesRegion(bz, "result of "+op.how)
				if d := overlap(vregs, rs); d != "" {
					t.failf("%s: %s", op.how, d)
				}
				for _, k := range ks {
					if d := overlap(bytesRegion(k.bz, "earlier result of "+k.how), rs); d != "" {
						t.failf("%s", d)
					}
				}
				ks = append(ks, &kept{op.how, bz, append([]byte(nil), bz...), false})
				if first == nil {
					first = append([]byte{}, bz...)
				}
			}
			if d := diffX(snap, b.v, "", true); d != "" {
				t.failf("%s changed its argument: %s", op.how, d)
			}
			if d := tailsSame(tails); d != "" {
				t.failf("%s changed its argument: %s", op.how, d)
			}
		}
	}
	encode()
	keptSame(t, ks, "after other encodings")
	t.evaluated(fmt.Sprintf("%v %v %x", js, b.t, first), len(vregs) > 0 || len(first) > 0)
	if failed {
		return
	}
	// overwriting results changes nothing else
	for i := 0; i < 2; i++ {
		k := ks[t.rng.Intn(len(ks))]
		k.scribbled = true
		w := k.bz[:cap(k.bz)]
		for j := range w {
			w[j] ^= 0xA5
		}
	}
	keptSame(t, ks, "after overwriting another result")
	if d := diffX(snap, b.v, "", true); d != "" {
		t.failf("overwriting a result changed the value: %s", d)
	}
	n := len(ks)
	encode()
	if !bytes.Equal(ks[n].bz, first) {
		t.failf("after overwriting a result, the same value encodes to %x, not %x", ks[n].bz, first)
	}
	keptSame(t, ks, "after more encodings")
	// what is decoded has nothing to do with the input
	in := append(append(make([]byte, 0, len(first)+16), first...), 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE)[:len(first)]
	c20decode(t, b, js, in, true)
	for i := 0; i < 2; i++ {
		var m []byte
		switch {
		case js:
			m = c20mutJSON(t, first)
		default:
			m = mutateBytes(t.rng, first)
		}
		c20decode(t, b, js, append(make([]byte, 0, len(m)+16), m...), false)
	}
	// overwriting the value changes no result
	scribble(b.v)
	for _, x := range tails {
		scribble(x.v)
	}
	keptSame(t, ks, "after overwriting the value")
	t.count("values overwritten")
}

type decOp struct {
	how string
	fn  func(cdc *amino.Codec, bz []byte, p interface{}) error
}

// c20decode decodes from in, which has spare capacity.
func c20decode(t *T, b *bcase, js bool, in []byte, valid bool) {
	ops := []decOp{
		{"UnmarshalJSON", func(c *amino.Codec, bz []byte, p interface{}) error { return c.UnmarshalJSON(bz, p) }},
		{"MustUnmarshalJSON", func(c *amino.Codec, bz []byte, p interface{}) error { c.MustUnmarshalJSON(bz, p); return nil }},
	}
	if !js {
		ops = []decOp{
			{"UnmarshalBinaryBare", func(c *amino.Codec, bz []byte, p interface{}) error { return c.UnmarshalBinaryBare(bz, p) }},
			{"MustUnmarshalBinaryBare", func(c *amino.Codec, bz []byte, p interface{}) error { c.MustUnmarshalBinaryBare(bz, p); return nil }},
		}
		if t.rng.Intn(2) == 0 { // with length
			f := append(uv(uint64(len(in))), in...)
			in = append(make([]byte, 0, len(f)+16), f...)
			ops = []decOp{
				{"UnmarshalBinaryLengthPrefixed", func(c *amino.Codec, bz []byte, p interface{}) error { return c.UnmarshalBinaryLengthPrefixed(bz, p) }},
				{"MustUnmarshalBinaryLengthPrefixed", func(c *amino.Codec, bz []byte, p interface{}) error {
					c.MustUnmarshalBinaryLengthPrefixed(bz, p)
					return nil
				}},
				{"UnmarshalBinaryLengthPrefixedReader", func(c *amino.Codec, bz []byte, p interface{}) error {
					_, err := c.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p, 0)
					return err
				}},
				{"UnmarshalBinaryLengthPrefixedReader (bytes.Buffer)", func(c *amino.Codec, bz []byte, p interface{}) error {
					_, err := c.UnmarshalBinaryLengthPrefixedReader(bytes.NewBuffer(bz), p, 0)
					return err
				}},
			}
		}
	}
	full := in[:cap(in)]
	for i := len(in); i < len(full); i++ {
		full[i] = 0xEE
	}
	was := append([]byte(nil), full...)
	inreg := bytesRegion(in, "input")
	one := func(buf []byte) (reflect.Value, bool) {
		op := ops[t.rng.Intn(len(ops))]
		p := reflect.New(b.t)
		err, _ := try(func() error { return op.fn(b.cdc, buf, p.Interface()) })
		if !bytes.Equal(full, was) {
			t.failf("%s changed its input %x to %x (capacity included)", op.how, was, full)
		}
		// also if it failed half way
		if d := overlap(regions(p.Elem(), true), inreg); d != "" {
			t.failf("%s of %x: %s", op.how, in, d)
		}
		if err != nil {
			if valid && b.s != nil {
				t.count("not decodable")
			}
			t.count("refused inputs")
			return p.Elem(), false
		}
		t.count("decodings")
		return p.Elem(), true
	}
	v1, ok1 := one(in)
	if !ok1 {
		return
	}
	v2, ok2 := one(in)
	if !ok2 {
		t.failf("decoding %x worked once only", in)
	}
	if d := selfShared(v1); d != "" {
		t.failf("in what was decoded from %x: %s", in, d)
	}
	r1, r2 := regions(v1, false), regions(v2, false)
	if d := overlap(r1, r2); d != "" {
		t.failf("results of two decodings of %x: %s", in, d)
	}
	c2 := clone(v2)
	scribble(v1)
	if d := diffX(c2, v2, "", true); d != "" {
		t.failf("overwriting what was decoded from %x changed what was decoded before: %s", in, d)
	}
	v3, ok3 := one(in)
	if !ok3 {
		t.failf("overwriting what was decoded from %x made it undecodable", in)
	}
	if d := diffX(c2, v3, "", true); d != "" {
		t.failf("overwriting what was decoded from %x changed what is decoded from it: %s", in, d)
	}
	for i := range full {
		full[i] ^= 0x5A
	}
	if d := diffX(c2, v2, "", true); d != "" {
		t.failf("overwriting the input %x changed what was decoded from it: %s", was[:len(in)], d)
	}
	if d := diffX(c2, v3, "", true); d != "" {
		t.failf("overwriting the input %x changed what was decoded from it: %s", was[:len(in)], d)
	}
	copy(full, was)
	t.count("inputs and results overwritten")
}

// c20exported: the exported helpers.
func c20exported(t *T) {
	g := newGen(t.rng, newUniverse(t.rng))
	for i := 0; i < 20; i++ {
		bz := g.bytes()
		buf := append(lp(bz), 0xEE, 0xEE, 0xEE)
		was := append([]byte(nil), buf...)
		inreg := bytesRegion(buf, "input")
		b1, n1, err1 := amino.DecodeByteSlice(buf)
		b2, _, _ := amino.DecodeByteSlice(buf)
		s, _, err2 := amino.DecodeString(buf)
		if err1 != nil || err2 != nil {
			t.failf("decoding %x: %v %v", buf, err1, err2)
		}
		t.evaluated(fmt.Sprintf("%x", bz), len(bz) > 0)
		if d := overlap(bytesRegion(b1, "DecodeByteSlice"), inreg); d != "" {
			t.failf("%s", d)
		}
		if d := overlap(bytesRegion(b1, "DecodeByteSlice"), bytesRegion(b2, "another")); d != "" {
			t.failf("%s", d)
		}
		if d := overlap(regions(addr(reflect.ValueOf(s)), true), inreg); d != "" {
			t.failf("DecodeString: %s", d)
		}
		sc := string([]byte(s))
		b1 = append(b1, 0x77)
		for j := range b1[:cap(b1)] {
			b1[:cap(b1)][j] ^= 0xff
		}
		if !bytes.Equal(buf, was) || !bytes.Equal(b2, bz) {
			t.failf("overwriting the result of DecodeByteSlice changed its input %x to %x", was, buf)
		}
		for j := range buf {
			buf[j] ^= 0xff
		}
		if !bytes.Equal(b2, bz) || s != sc || s != string(bz) {
			t.failf("overwriting the input of DecodeByteSlice and DecodeString changed the result")
		}
		_ = n1
		// encoders
		src := append(append([]byte(nil), bz...), 0xEE)[:len(bz)]
		w := &scribbler{}
		if err := amino.EncodeByteSlice(w, src); err != nil {
			t.failf("EncodeByteSlice: %v", err)
		}
		if !bytes.Equal(src, bz) || !bytes.Equal(w.got, lp(bz)) {
			t.failf("EncodeByteSlice of %x wrote %x and left %x", bz, w.got, src)
		}
		// prefixes
		name := genName(t.rng)
		db, pb := amino.NameToDisfix(name)
		x, y := pb.Bytes(), db.Bytes()
		for j := range x {
			x[j] ^= 0xff
		}
		for j := range y {
			y[j] ^= 0xff
		}
		db2, pb2 := amino.NameToDisfix(name)
		if db != db2 || pb != pb2 {
			t.failf("overwriting the bytes of prefixes changed what NameToDisfix(%q) returns", name)
		}
		p := amino.NewPrefixBytes(pb2.Bytes())
		z := append([]byte(nil), pb2.Bytes()...)
		p2 := amino.NewPrefixBytes(z)
		z[0] ^= 0xff
		if p != pb2 || p2 != pb2 {
			t.failf("NewPrefixBytes shares memory")
		}
		t.count("exported helpers")
	}
}

// scribbler is a writer that does not keep what it is passed.
type scribbler struct{ got []byte }

func (w *scribbler) Write(p []byte) (int, error) {
	w.got = append(w.got, p...)
	return len(p), nil
}

// c20traffic: results stay valid whatever happens on the codec later.
func c20traffic(t *T) {
	u := newUniverse(t.rng)
	var ks []*kept
	type keptV struct {
		v, was reflect.Value
		how    string
	}
	var vs []keptV
	n := 0
	for _, js := range []bool{false, true, false, true} {
		cases(t, u, genOpts{json: js, utf8: js}, 8, 4, func(b *bcase) {
			if js && b.t == reflect.TypeOf(json.RawMessage{}) {
				return
			}
			var bz []byte
			var err error
			op := encOp{}
			if js {
				op = jsonEncOps[t.rng.Intn(len(jsonEncOps))]
			} else {
				op = binEncOps[t.rng.Intn(len(binEncOps))]
			}
			err, _ = try(func() (err error) { bz, err = op.fn(b.cdc, b.in()); return })
			if err != nil {
				return
			}
			n++
			ks = append(ks, &kept{fmt.Sprintf("%s of %v (no. %d)", op.how, b.t, n), bz, append([]byte(nil), bz...), false})
			p := reflect.New(b.t)
			in := append([]byte(nil), bz...)
			err, _ = try(func() error {
				switch {
				case js:
					return b.cdc.UnmarshalJSON(in, p.Interface())
				case bytes.Contains([]byte(op.how), []byte("Bare")):
					return b.cdc.UnmarshalBinaryBare(in, p.Interface())
				default:
					return b.cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface())
				}
			})
			if err == nil {
				vs = append(vs, keptV{p.Elem(), clone(p.Elem()), fmt.Sprintf("%v decoded from %x", b.t, in)})
			}
			for i := range in {
				in[i] = 0xDD
			}
		})
	}
	keptSame(t, ks, "after other traffic")
	// overwrite every other one
	var all []region
	for _, v := range vs {
		r := regions(v.v, false)
		if d := overlap(all, r); d != "" {
			t.failf("results of different decodings share memory: %s (%s)", d, v.how)
		}
		all = append(all, r...)
	}
	for i, k := range ks {
		if i%2 == 0 {
			k.scribbled = true
			w := k.bz[:cap(k.bz)]
			for j := range w {
				w[j] ^= 0x3C
			}
		}
	}
	for i, v := range vs {
		if i%2 == 0 {
			scribble(v.v)
		}
	}
	keptSame(t, ks, "after overwriting other results")
	for i, v := range vs {
		if i%2 == 1 {
			if d := diffX(v.was, v.v, "", true); d != "" {
				t.failf("%s changed after overwriting other results: %s", v.how, d)
			}
		}
	}
	t.evaluated(fmt.Sprintf("traffic %d", t.idx), true)
	t.countN("results kept during traffic", int64(len(ks)+len(vs)))
}

// c20concurrent: goroutines hold on to their results while others encode.
func c20concurrent(t *T) {
	u := newUniverse(t.rng)
	type job struct {
		b    *bcase
		js   bool
		want []byte
	}
	var jobs []job
	for _, js := range []bool{false, true} {
		cases(t, u, genOpts{json: js, utf8: js}, 6, 2, func(b *bcase) {
			var bz []byte
			var err error
			if js {
				bz, err = marshalJSON(b.cdc, b.in())
			} else {
				bz, err = marshalBare(b.cdc, b.in())
			}
			if err == nil {
				jobs = append(jobs, job{b, js, append([]byte(nil), bz...)})
			}
		})
	}
	if len(jobs) == 0 {
		return
	}
	var mu sync.Mutex
	var bad string
	var wg sync.WaitGroup
	held := int64(0)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var got [][]byte
			var of []job
			for i := 0; i < 60; i++ {
				j := jobs[(i*7+w*5)%len(jobs)]
				var bz []byte
				if j.js {
					bz, _ = marshalJSON(j.b.cdc, j.b.in())
				} else {
					bz, _ = marshalBare(j.b.cdc, j.b.in())
				}
				got, of = append(got, bz), append(of, j)
				if i%10 == 9 {
					for k := range got {
						if !bytes.Equal(got[k], of[k].want) {
							mu.Lock()
							bad = fmt.Sprintf("the encoding of %s was %x, and is %x later", of[k].b, of[k].want, got[k])
							mu.Unlock()
							return
						}
					}
				}
			}
			mu.Lock()
			held += int64(len(got))
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	if bad != "" {
		t.failf("%s", bad)
	}
	t.countN("results held by goroutines", held)
	t.evaluated(fmt.Sprintf("concurrent %d", t.idx), true)
}

func c20mutJSON(t *T, bz []byte) []byte {
	if t.rng.Intn(3) == 0 {
		return mutateBytes(t.rng, bz)
	}
	n, err := jparse(bz)
	if err != nil {
		return mutateBytes(t.rng, bz)
	}
	return mutateJSON(t.rng, n, []string{"F0", "A", "x"}).bytes()
}
