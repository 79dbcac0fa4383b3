package main

import (
	"bytes"
	"encoding/json"
	"reflect"
)

func init() {
	register(&check{id: "C03", run: c03,
		rule:  "random and systematic JSON-supported types (as C01, plus string-keyed maps, lists of lists, types with JSON methods) with edge-biased values and valid strings; each value is encoded, decoded into a fresh variable (as is, and indented) and compared strictly with the documented normal form computed by an independent model; distinct = distinct (type, JSON), non-trivial = longer than 4 bytes",
		assum: []string{"strings are valid UTF-8, floats are finite, the pool types with own methods produce valid JSON and map zero to zero"}})
	register(&check{id: "C04", run: c04,
		rule:  "as for C03; each output is parsed by encoding/json and compared, order included, with the tree an independent reference encoder makes, and with repeated encodings (also of clones, through pointers, of maps filled in another order, on another codec, indented); distinct = distinct (type, JSON), non-trivial = longer than 4 bytes",
		assum: []string{"types with own JSON methods produce valid JSON"}})
}

func c03(c *ctx) {
	c.run("sizes", c.n(len(sizeList)), func(t *T) { sizeCases(t, true, func(b *bcase) { c03case(t, b) }) })
	c.run("systematic", c.n(len(sysJSON)), func(t *T) { sysCases(t, true, 5, func(b *bcase) { c03case(t, b) }) })
	c.run("random", c.n(1600), func(t *T) {
		randomCases(t, genOpts{json: true, utf8: true, richTags: t.idx%3 == 0}, 5, 4, func(b *bcase) { c03case(t, b) })
	})
	c.run("big", c.n(30), func(t *T) {
		u := newUniverse(t.rng)
		for _, b := range bigJSON(t, u) {
			c03case(t, b)
		}
	})
}

func bigJSON(t *T, u *universe) (out []*bcase) {
	r := t.rng
	mk := func(v interface{}) {
		out = append(out, &bcase{u: u, s: &spec{u: u}, g: newGen(r, u), cdc: u.cdc, t: reflect.TypeOf(v), v: addr(reflect.ValueOf(v))})
	}
	g := newGen(r, u)
	g.json, g.utf8 = true, true
	m := map[string]int64{}
	mm := map[NStr]map[string]Leaf{}
	for i := 0; i < 300; i++ {
		m[g.str()+itoa(i)] = genInt(r, 64)
		k := NStr(g.str())
		if mm[k] == nil {
			mm[k] = map[string]Leaf{}
		}
		mm[k][g.str()] = Leaf{int32(i), g.str()}
	}
	mk(m)
	mk(mm)
	var nd *Node
	for i := 0; i < 1+r.Intn(60); i++ {
		nn := &Node{V: uint16(r.Intn(4)), Name: g.str()}
		if r.Intn(2) == 0 {
			nn.Next = nd
		} else {
			nn.Kids = []*Node{nil, nd, {}}
		}
		nd = nn
	}
	mk(nd)
	bz := make([]byte, r.Intn(5000))
	r.Read(bz)
	mk(bz)
	mk([][]byte{bz, nil, {}})
	mk([][][]uint16{{{1, 2}, nil, {}}, nil, {{uint16(r.Intn(65536))}}})
	strs := make([]string, 200)
	for i := range strs {
		strs[i] = g.str()
	}
	mk(strs)
	var fs []reflect.StructField
	for i := 0; i < 40; i++ {
		fs = append(fs, fld("F"+itoa(i), g.typ(0, posField, fopt{}), ""))
	}
	st := reflect.StructOf(fs)
	out = append(out, &bcase{u: u, s: &spec{u: u}, g: g, cdc: u.cdc, t: st, v: g.value(st, fopt{})})
	return
}

func c03case(t *T, b *bcase) {
	_, err := b.s.jtop(b.v)
	if err != nil {
		t.count("not encodable (skipped)")
		return
	}
	norm, err := b.s.jnormTop(b.v)
	if err != nil {
		t.failf("model: %v for %s", err, b)
	}
	bz, err := marshalJSON(b.cdc, b.in())
	if err != nil {
		t.failf("encoding %s: %v", b, err)
	}
	got, err := unmarshalJSON(b.cdc, bz, b.t)
	if err != nil {
		t.failf("decoding %s of %s: %v", bz, b, err)
	}
	if d := diff(norm, got); d != "" {
		t.failf("JSON round trip of %s\nvia %s\ngave %s\nwant %s\n%s", b, bz, show(got), show(norm), d)
	}
	t.evaluated(b.t.String()+string(bz), len(bz) > 4)
	t.count("round trip")
	if t.idx%400 == 3 {
		t.sample("%s <-> %s", b, bz)
	}
	if t.rng.Intn(3) == 0 && json.Valid(bz) {
		var buf bytes.Buffer
		_ = json.Indent(&buf, bz, "", []string{"", " ", "\t"}[t.rng.Intn(3)])
		got, err := unmarshalJSON(b.cdc, buf.Bytes(), b.t)
		if err != nil {
			t.failf("decoding indented %s of %s: %v", bz, b, err)
		}
		if d := diff(norm, got); d != "" {
			t.failf("indented JSON round trip of %s\nvia %s\ngave %s\n%s", b, bz, show(got), d)
		}
		t.count("round trip with white space")
	}
	// what came back is a value, too
	if t.rng.Intn(4) == 0 {
		again, err := marshalJSON(b.cdc, (&bcase{t: b.t, v: got}).in())
		if err != nil {
			t.failf("encoding again %s: %v", b, err)
		}
		got2, err := unmarshalJSON(b.cdc, again, b.t)
		if err != nil {
			t.failf("second round trip of %s: %v", b, err)
		}
		if d := diff(got, got2); d != "" {
			n2, err := b.s.jnormTop(got)
			if err != nil {
				t.failf("model: %v", err)
			}
			if d := diff(n2, got2); d != "" {
				t.failf("second JSON round trip of %s\nvia %s\ngave %s\n%s", b, again, show(got2), d)
			}
		}
		t.count("second round trip")
	}
}

func c04(c *ctx) {
	c.run("sizes", c.n(len(sizeList)), func(t *T) { sizeCases(t, true, func(b *bcase) { c04case(t, b, nil) }) })
	c.run("systematic", c.n(len(sysJSON)), func(t *T) { sysCases(t, true, 5, func(b *bcase) { c04case(t, b, nil) }) })
	c.run("random", c.n(1600), func(t *T) {
		u := newUniverse(t.rng)
		o := u.build(t.rng)
		oc := &universe{cdc: o}
		cases(t, u, genOpts{json: true, utf8: t.idx%4 != 0, richTags: t.idx%3 == 0}, 5, 4, func(b *bcase) { c04case(t, b, oc) })
	})
	c.run("big", c.n(30), func(t *T) {
		u := newUniverse(t.rng)
		for _, b := range bigJSON(t, u) {
			c04case(t, b, nil)
		}
	})
}

func c04case(t *T, b *bcase, other *universe) {
	want, err := b.s.jtop(b.v)
	if err != nil {
		t.count("not encodable (skipped)")
		return
	}
	bz, err := marshalJSON(b.cdc, b.in())
	if err != nil {
		t.failf("encoding %s: %v", b, err)
	}
	got, err := jparse(bz)
	if err != nil {
		t.failf("encoding of %s is not JSON: %v: %s", b, err, bz)
	}
	w, err := jparse(want.bytes()) // replaces what is not valid UTF-8
	if err != nil {
		t.failf("model: %v", err)
	}
	if d := jdiff(w, got, ""); d != "" {
		t.failf("JSON of %s\nis   %s\nwant %s\n%s", b, bz, want.bytes(), d)
	}
	t.evaluated(b.t.String()+string(bz), len(bz) > 4)
	t.count("matched the reference encoder")
	if t.idx%400 == 3 {
		t.sample("%s -> %s", b, bz)
	}
	same := func(how string, cdc *universe, o interface{}) {
		again, err := marshalJSON(cdc.cdc, o)
		if err != nil {
			t.failf("encoding %s %s: %v", how, b, err)
		}
		if !bytes.Equal(again, bz) {
			t.failf("JSON %s of %s\nis   %s\nwant %s", how, b, again, bz)
		}
		t.count("same: " + how)
	}
	same("again", b.u, b.in())
	same("through a pointer, of a clone", b.u, addr(clone(b.v)).Addr().Interface())
	if other != nil {
		same("on a codec with another order of registrations", other, b.in())
	}
	if t.rng.Intn(4) == 0 {
		var ind []byte
		err, _ := try(func() (err error) { ind, err = b.cdc.MarshalJSONIndent(b.in(), "", "  "); return })
		if err != nil {
			t.failf("MarshalJSONIndent of %s: %v", b, err)
		}
		n, err := jparse(ind)
		if err != nil {
			t.failf("indented JSON of %s: %v", b, err)
		}
		if d := jdiff(w, n, ""); d != "" {
			t.failf("indented JSON of %s is %s\n%s", b, ind, d)
		}
		t.count("indented")
	}
}
