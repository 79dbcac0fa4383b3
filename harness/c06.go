package main

import (
	"reflect"
	"strings"
)

func init() {
	register(&check{id: "C06", run: c06,
		rule:  "JSON encodings of random and systematic types are mutated as trees (kinds, numbers, strings, wrappers, names, lengths) and as bytes, together with fragments that are not JSON and deep nesting, and decoded into fresh and used targets of that and of other types; every call has to return without panic (a supervisor watches for hangs, crashes and memory); distinct = distinct (type, input), non-trivial = longer than 2 bytes",
		assum: []string{"targets are non-nil pointers to supported types; the JSON methods of the pool types do not panic"}})
	register(&check{id: "C29", run: c29,
		rule:  "JSON encodings of random and systematic types are mutated as trees, so that they stay JSON but not of the right form, and decoded; verdict and value have to agree with an independent reference decoder, except where the documentation leaves it open (counted as unspecified); distinct = distinct (type, input), non-trivial = longer than 2 bytes",
		assum: []string{"unspecified: white space around a quoted integer or the whole text, wrapper names in other case or repeated, arrays for byte lists, deviations from RFC 3339 that package time accepts (a decimal comma, a one-digit hour)"}})
}

func jsonNamesOf(u *universe) (out []string) {
	for _, ri := range u.regs {
		out = append(out, ri.name)
	}
	return
}

func (t *T) hostileJSON(trees []*jnode, names []string) []byte {
	r := t.rng
	if len(trees) == 0 || r.Intn(12) == 0 {
		return []byte(evilRaw[r.Intn(len(evilRaw))])
	}
	n := trees[r.Intn(len(trees))]
	switch r.Intn(6) {
	case 0:
		return mutateBytes(r, n.bytes())
	case 1:
		b := n.bytes()
		i := r.Intn(len(b) + 1)
		e := evilRaw[r.Intn(len(evilRaw))]
		return []byte(string(b[:i]) + e + string(b[i+r.Intn(len(b)-i+1):]))
	}
	return mutateJSON(r, n, names).bytes()
}

func c06(c *ctx) {
	one := func(t *T, b *bcase, bz []byte, dirty bool) {
		t.evaluated(b.t.String()+string(bz), len(bz) > 2)
		p := reflect.New(b.t)
		if dirty {
			p.Elem().Set(clone(b.v))
		}
		in := within(t.rng, bz)
		err, pan := try(func() error { return b.cdc.UnmarshalJSON(in, p.Interface()) })
		if pan {
			t.failf("UnmarshalJSON of %s into %v panics: %v", clip(string(bz), 2000), b.t, err)
		}
		if err != nil {
			t.count("rejected")
		} else {
			t.count("accepted")
		}
		if t.idx%500 == 1 {
			t.sample("%s into %v: %v", bz, b.t, err)
		}
	}
	c.run("systematic", c.n(len(sysJSON)), func(t *T) {
		var trees []*jnode
		var bs []*bcase
		sysCases(t, true, 4, func(b *bcase) {
			bs = append(bs, b)
			if n, err := b.s.jtop(b.v); err == nil {
				trees = append(trees, n)
			}
		})
		names := jsonNamesOf(bs[0].u)
		for i := 0; i < 25; i++ {
			one(t, bs[t.rng.Intn(len(bs))], t.hostileJSON(trees, names), i%4 == 0)
		}
		for _, e := range evilRaw {
			if t.rng.Intn(3) == 0 {
				one(t, bs[0], []byte(e), false)
			}
		}
	})
	c.run("random", c.n(1200), func(t *T) {
		var trees []*jnode
		var bs []*bcase
		randomCases(t, genOpts{json: true, utf8: true, richTags: t.idx%3 == 0}, 5, 3, func(b *bcase) {
			bs = append(bs, b)
			if n, err := b.s.jtop(b.v); err == nil {
				trees = append(trees, n)
			}
		})
		names := jsonNamesOf(bs[0].u)
		for i := 0; i < 60; i++ {
			one(t, bs[t.rng.Intn(len(bs))], t.hostileJSON(trees, names), i%4 == 0)
		}
	})
	c.run("nested", c.n(24), func(t *T) {
		u := newUniverse(t.rng)
		depth := 1 + t.rng.Intn(1500)
		open, cl := "[", "]"
		switch t.rng.Intn(4) {
		case 0:
			open, cl = `{"Next":`, "}"
		case 1:
			open, cl = `{"Kids":[`, "]}"
		case 2:
			nm := "x"
			if ri := u.byType[reflect.TypeOf(CIf{})]; ri != nil {
				nm = ri.name
			}
			open, cl = string(wrapper(nm, jnull).bytes()), "}}"
			open = strings.TrimSuffix(open, "null}") + `{"Z":`
		}
		s := strings.Repeat(open, depth) + "null" + strings.Repeat(cl, depth)
		if t.rng.Intn(3) == 0 {
			s = s[:len(s)-t.rng.Intn(depth)]
		}
		for _, rt := range []reflect.Type{reflect.TypeOf(Node{}), reflect.TypeOf(CIf{}), tI1, tAny, reflect.TypeOf([][][]int32{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(JStr{}), reflect.TypeOf(MList{}), tBytes} {
			one(t, &bcase{u: u, s: &spec{u: u}, cdc: u.cdc, t: rt, v: reflect.New(rt).Elem()}, []byte(s), false)
		}
	})
}

func c29(c *ctx) {
	one := func(t *T, b *bcase, bz []byte) {
		want, werr := b.s.jdecTop(bz, b.t)
		if werr == errLenient {
			t.count("unspecified")
			return
		}
		got, err := unmarshalJSON(b.cdc, bz, b.t)
		t.evaluated(b.t.String()+string(bz), len(bz) > 2)
		switch {
		case err != nil && isPanic(err):
			t.failf("UnmarshalJSON of %s into %v: %v", clip(string(bz), 2000), b.t, err)
		case err == nil && werr != nil:
			t.failf("UnmarshalJSON of %s into %v accepts what is not of the right form (%v), as %s", clip(string(bz), 2000), b.t, werr, show(got))
		case err != nil && werr == nil:
			t.failf("UnmarshalJSON of %s into %v fails, should be %s: %v", clip(string(bz), 2000), b.t, show(want), err)
		case err == nil:
			if d := diff(want, got); d != "" {
				t.failf("UnmarshalJSON of %s into %v\ngave %s\nwant %s\n%s", clip(string(bz), 2000), b.t, show(got), show(want), d)
			}
			t.count("agree: accepted")
		default:
			t.count("agree: rejected")
		}
		if t.idx%500 == 1 {
			t.sample("%s into %v: %v", bz, b.t, err)
		}
	}
	c.run("systematic", c.n(len(sysJSON)), func(t *T) {
		var trees []*jnode
		var bs []*bcase
		sysCases(t, true, 4, func(b *bcase) {
			bs = append(bs, b)
			if n, err := b.s.jtop(b.v); err == nil {
				trees = append(trees, n)
			}
		})
		if len(trees) == 0 {
			return
		}
		names := jsonNamesOf(bs[0].u)
		for i := 0; i < 25; i++ {
			one(t, bs[0], mutateJSON(t.rng, trees[t.rng.Intn(len(trees))], names).bytes())
		}
		// every leaf of every evil kind
		n := trees[len(trees)-1]
		for _, e := range evilNums {
			m := n.clone()
			all := jall(m, nil)
			*all[t.rng.Intn(len(all))] = *jnum(e)
			one(t, bs[0], m.bytes())
		}
		for _, e := range evilStrs {
			m := n.clone()
			all := jall(m, nil)
			*all[t.rng.Intn(len(all))] = *jstr(e)
			one(t, bs[0], m.bytes())
		}
		// trailing and leading data
		for _, e := range []string{"x", "}", "null", "1", ",", "{}", "\""} {
			one(t, bs[0], append(n.bytes(), e...))
		}
	})
	c.run("random", c.n(1000), func(t *T) {
		var trees []*jnode
		var bs []*bcase
		randomCases(t, genOpts{json: true, utf8: true, richTags: t.idx%3 == 0}, 5, 3, func(b *bcase) {
			if n, err := b.s.jtop(b.v); err == nil {
				bs = append(bs, b)
				trees = append(trees, n)
			}
		})
		if len(bs) == 0 {
			return
		}
		names := jsonNamesOf(bs[0].u)
		for i := 0; i < 60; i++ {
			k := t.rng.Intn(len(bs))
			b := bs[k]
			if t.rng.Intn(8) == 0 {
				k = t.rng.Intn(len(bs))
			}
			one(t, b, mutateJSON(t.rng, trees[k], names).bytes())
		}
	})
}
