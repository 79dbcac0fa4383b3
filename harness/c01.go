package main

import (
	"io"
	"reflect"
)

func init() {
	register(&check{id: "C01", run: c01,
		rule: "random struct/list/pointer/interface types (reflect.StructOf, tags, named kinds, hooks) and every basic type in every position with every option, with edge-biased random values, over random registrations; " +
			"each encodable value is encoded, decoded into fresh variables by all decoders, and compared strictly (nil vs empty, types in interfaces, zones) with the documented normal form computed by an independent model; distinct = distinct (type, encoding), non-trivial = encoding longer than 2 bytes",
		assum: []string{"supported types are those described in DESIGN.md; AminoMarshaler types of the pool map zero to the zero representation"}})
}

func c01(c *ctx) {
	c.run("sizes", c.n(len(sizeList)), func(t *T) { sizeCases(t, false, func(b *bcase) { c01case(t, b) }) })
	c.run("systematic", c.n(len(sysBin)), func(t *T) { sysCases(t, false, 5, func(b *bcase) { c01case(t, b) }) })
	c.run("random", c.n(2500), func(t *T) {
		randomCases(t, genOpts{richTags: t.idx%3 == 0}, 5, 4, func(b *bcase) { c01case(t, b) })
	})
	c.run("big", c.n(60), func(t *T) {
		u := newUniverse(t.rng)
		for _, b := range bigCases(t, u) {
			c01case(t, b)
		}
	})
}

// bigCases: many elements, long strings, deep nesting, many fields.
func bigCases(t *T, u *universe) (out []*bcase) {
	r := t.rng
	mk := func(v interface{}) {
		out = append(out, &bcase{u: u, s: &spec{u: u}, g: newGen(r, u), cdc: u.cdc, t: reflect.TypeOf(v), v: addr(reflect.ValueOf(v))})
	}
	n := 1 + r.Intn(300)
	if r.Intn(4) == 0 {
		n = 16380 + r.Intn(10)
	}
	bz := make([]byte, n*(1+r.Intn(5)))
	r.Read(bz)
	mk(bz)
	mk(string(bz))
	ints := make([]int64, n)
	leaves := make([]Leaf, n)
	ptrs := make([]*Leaf, n)
	strs := make([]string, n)
	for i := range ints {
		ints[i] = genInt(r, 64)
		strs[i] = string(bz[:r.Intn(3)])
		leaves[i] = Leaf{int32(genInt(r, 32)), strs[i]}
		if r.Intn(3) > 0 {
			ptrs[i] = &Leaf{int32(genInt(r, 32)), strs[i]}
			if isDefLeaf(*ptrs[i]) && r.Intn(2) == 0 {
				ptrs[i] = nil
			}
		}
	}
	mk(ints)
	mk(strs)
	mk(leaves)
	mk(ptrs)
	depth := 1 + r.Intn(200)
	var nd *Node
	for i := 0; i < depth; i++ {
		nn := &Node{V: uint16(r.Intn(4)), Name: strs[r.Intn(n)]}
		if r.Intn(2) == 0 {
			nn.Next = nd
		} else if nd != nil {
			nn.Kids = []*Node{nil, nd, {}}
		}
		nd = nn
	}
	mk(*nd)
	w := Wide{F15: strs, F17: ints, F19: leaves, F20: genTime(r), F21: bz}
	mk(w)
	// many fields
	g := newGen(r, u)
	var fs []reflect.StructField
	k := 16 + r.Intn(30)
	if r.Intn(6) == 0 {
		k = 2040 + r.Intn(20)
	}
	for i := 0; i < k; i++ {
		fs = append(fs, fld("F"+itoa(i), g.typ(0, posField, fopt{}), ""))
	}
	st := reflect.StructOf(fs)
	g.budget = 3 * k
	out = append(out, &bcase{u: u, s: &spec{u: u}, g: g, cdc: u.cdc, t: st, v: g.value(st, fopt{})})
	return
}

func isDefLeaf(l Leaf) bool { return l == Leaf{} }

func c01case(t *T, b *bcase) {
	want, err := b.s.top(b.v)
	if err != nil {
		t.count("not encodable (skipped)")
		return
	}
	if len(want) == 0 && b.iface() {
		t.count("nil interface at top level (skipped)")
		return
	}
	norm, err := b.s.normTop(b.v)
	if err != nil {
		t.failf("model: %v for %s", err, b)
	}
	bz, err := marshalBare(b.cdc, b.in())
	if err != nil {
		t.failf("encoding %s: %v", b, err)
	}
	got, err := unmarshalBare(b.cdc, bz, b.t)
	if err != nil {
		t.failf("decoding %x of %s: %v", bz, b, err)
	}
	if d := diff(norm, got); d != "" {
		t.failf("round trip of %s\nvia %x\ngave %s\nwant %s\n%s", b, bz, show(got), show(norm), d)
	}
	t.evaluated(b.t.String()+string(bz), len(bz) > 2)
	t.count("bare")
	if t.idx%400 == 3 {
		t.sample("%s <-> %x", b, bz)
	}

	// length-prefixed, and from a stream
	var lpz []byte
	err, _ = try(func() (err error) { lpz, err = b.cdc.MarshalBinaryLengthPrefixed(b.in()); return })
	if err != nil {
		t.failf("length-prefixed encoding of %s: %v", b, err)
	}
	p := reflect.New(b.t)
	if err, _ := try(func() error { return b.cdc.UnmarshalBinaryLengthPrefixed(lpz, p.Interface()) }); err != nil {
		if len(bz) == 0 {
			t.failf("length-prefixed decoding of %x of %s: %v", lpz, b, err)
		}
		t.failf("length-prefixed decoding of %x of %s: %v", lpz, b, err)
	}
	if d := diff(norm, p.Elem()); d != "" {
		t.failf("length-prefixed round trip of %s\nvia %x\ngave %s\nwant %s\n%s", b, lpz, show(p.Elem()), show(norm), d)
	}
	t.count("length-prefixed")
	p = reflect.New(b.t)
	rd := &chunkReader{data: lpz, rng: t.rng, max: 1 + t.rng.Intn(9), err: io.EOF}
	var n int64
	if err, _ := try(func() (err error) { n, err = b.cdc.UnmarshalBinaryLengthPrefixedReader(rd, p.Interface(), 0); return }); err != nil {
		t.failf("reading %x of %s: %v", lpz, b, err)
	}
	if d := diff(norm, p.Elem()); d != "" {
		t.failf("reader round trip of %s\nvia %x\ngave %s\nwant %s\n%s", b, lpz, show(p.Elem()), show(norm), d)
	}
	if n != int64(len(lpz)) || len(rd.data) != 0 {
		t.failf("reading %x of %s: %d bytes reported, %d left", lpz, b, n, len(rd.data))
	}
	t.count("reader")
	// The decoded value is a value of the type as well: it has to come back as it is.
	if t.rng.Intn(4) == 0 {
		again, err := marshalBare(b.cdc, (&bcase{t: b.t, v: got}).in())
		if err == nil {
			got2, err := unmarshalBare(b.cdc, again, b.t)
			if err != nil {
				t.failf("second round trip of %s: %v", b, err)
			}
			n2, err := b.s.normTop(got)
			if err != nil {
				t.failf("model: %v", err)
			}
			if d := diff(n2, got2); d != "" {
				t.failf("second round trip of %s\nvia %x\ngave %s\n%s", b, again, show(got2), d)
			}
			t.count("second round trip")
		}
	}
}
