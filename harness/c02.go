package main

import (
	"bytes"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C02", run: c02,
		rule:  "random and systematic types and values as for C01; the bytes of each encoding are compared with those of an independent reference encoder, with a second encoding, with encodings through pointers, of an independent clone, of a deep copy, in an interface field, by a codec with the registrations made in another order, and after other traffic (including failed calls) on the codec; lists, strings and numbers of structures of sizes around powers of two, up to 2^22 bytes; distinct = distinct (type, encoding), non-trivial = longer than 2 bytes",
		assum: []string{"the reference encoder (harness/spec_bin.go) is the reading of the documented wire format"}})
}

func c02(c *ctx) {
	c.run("sizes", c.n(len(sizeList)), func(t *T) { sizeCases(t, false, func(b *bcase) { c02case(t, b, nil) }) })
	c.run("systematic", c.n(len(sysBin)), func(t *T) { sysCases(t, false, 5, func(b *bcase) { c02case(t, b, nil) }) })
	c.run("random", c.n(2200), func(t *T) {
		u := newUniverse(t.rng)
		other := u.build(t.rng)
		cases(t, u, genOpts{richTags: t.idx%3 == 0}, 5, 4, func(b *bcase) { c02case(t, b, other) })
	})
	c.run("big", c.n(60), func(t *T) {
		u := newUniverse(t.rng)
		for _, b := range bigCases(t, u) {
			c02case(t, b, nil)
		}
	})
	c.run("history", c.n(400), func(t *T) { c02history(t) })
}

func c02case(t *T, b *bcase, other *amino.Codec) {
	want, err := b.s.top(b.v)
	if err != nil {
		t.count("not encodable (skipped)")
		return
	}
	bz, err := marshalBare(b.cdc, b.in())
	if err != nil {
		t.failf("encoding %s: %v", b, err)
	}
	if !bytes.Equal(bz, want) {
		t.failf("encoding of %s\nis   %x\nwant %x", b, bz, want)
	}
	t.evaluated(b.t.String()+string(bz), len(bz) > 2)
	t.count("matched the reference encoder")
	if t.idx%400 == 3 {
		t.sample("%s -> %x", b, bz)
	}
	same := func(how string, cdc *amino.Codec, o interface{}) {
		again, err := marshalBare(cdc, o)
		if err != nil {
			t.failf("encoding %s %s: %v", how, b, err)
		}
		if !bytes.Equal(again, bz) {
			t.failf("encoding %s of %s\nis   %x\nwant %x", how, b, again, bz)
		}
		t.count("same: " + how)
	}
	same("again", b.cdc, b.in())
	cl := clone(b.v)
	same("through a pointer, of a clone", b.cdc, addr(cl).Addr().Interface())
	switch t.rng.Intn(6) {
	case 0:
		same("through a pointer-pointer", b.cdc, addr(b.v.Addr()).Addr().Interface())
	case 1:
		var cp interface{}
		err, pan := try(func() error { cp = amino.DeepCopy(b.in()); return nil })
		if pan {
			t.count("DeepCopy panicked (left to C15)")
		} else if err == nil {
			same("as a deep copy", b.cdc, cp)
		}
	}
	if other != nil {
		same("on a codec with another order of registrations", other, b.in())
	}
}

// c02history: a set of values, encoded first on a fresh codec each, then all
// on one in a random order between other calls.
func c02history(t *T) {
	u := newUniverse(t.rng)
	var bs []*bcase
	var encs [][]byte
	cases(t, u, genOpts{richTags: true}, 4, 2, func(b *bcase) {
		want, err := b.s.top(b.v)
		if err != nil {
			return
		}
		bs = append(bs, b)
		encs = append(encs, want)
	})
	if len(bs) == 0 {
		return
	}
	cdc := u.build(t.rng)
	for step := 0; step < 40; step++ {
		i := t.rng.Intn(len(bs))
		b := bs[i]
		switch t.rng.Intn(9) {
		case 0:
			_, _ = unmarshalBare(cdc, encs[t.rng.Intn(len(encs))], b.t)
		case 1:
			_, _ = marshalJSON(cdc, b.in())
		case 2:
			_, _ = unmarshalJSON(cdc, []byte("{}"), b.t)
		case 3:
			_, _ = marshalBare(cdc, []interface{}{make(chan int), 1.5, (*Leaf)(nil), struct{ F float64 }{2}, struct{ X INone }{nil}, map[string]int{}}[t.rng.Intn(6)])
		case 4:
			// every piece of the type by itself
			p := b.v
			for k := t.rng.Intn(4); k >= 0; k-- {
				if p.Kind() == reflect.Struct && p.NumField() > 0 {
					if f := t.rng.Intn(p.NumField()); p.Type().Field(f).PkgPath == "" {
						p = p.Field(f)
					}
				} else if isList(p.Type()) && p.Len() > 0 {
					p = p.Index(t.rng.Intn(p.Len()))
				}
			}
			_, _ = marshalBare(cdc, p.Addr().Interface())
		default:
			bz, err := marshalBare(cdc, b.in())
			if err != nil {
				t.failf("encoding %s at step %d: %v", b, step, err)
			}
			if !bytes.Equal(bz, encs[i]) {
				t.failf("encoding of %s at step %d\nis   %x\nwant %x", b, step, bz, encs[i])
			}
			t.count("matched within a history")
			t.evaluated(b.t.String()+string(bz), len(bz) > 2)
		}
	}
}
