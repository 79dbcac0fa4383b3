package main

import (
	"reflect"
	"strings"
)

func init() {
	register(&check{id: "C07", run: c07,
		rule:  "encodings of random and systematic types are mutated as bytes and as trees of fields (order, repetition, wire types, lengths, values, padding, splices), plus all inputs of one byte, a third (thorough: all) of two bytes and many of three and four for all pool types, numbers around all powers of two (padded and overflowing, too) in every place of a number, and seconds and nanoseconds around their bounds in every place of a time; verdict and value of the decoder have to agree with an independent reference decoder; distinct = distinct (type, input), non-trivial = longer than 2 bytes or enumerated",
		assum: []string{"the reference decoder (harness/spec_bin.go) is the reading of the documented format; overlong varints that do not overflow count as well-formed, as in protobuf"}})
}

func c07(c *ctx) {
	c.run("systematic", c.n(len(sysBin)), func(t *T) {
		var encs [][]byte
		var bs []*bcase
		sysCases(t, false, 5, func(b *bcase) {
			if bz, err := b.s.top(b.v); err == nil {
				encs = append(encs, bz)
				bs = append(bs, b)
				c07one(t, b, bz)
			}
		})
		if len(bs) == 0 {
			return
		}
		for i := 0; i < 30; i++ {
			c07one(t, bs[0], hostile(t.rng, encs))
		}
		// every truncation, and every single byte appended, of one encoding
		bz := encs[t.rng.Intn(len(encs))]
		for i := 0; i < len(bz) && i < 60; i++ {
			c07one(t, bs[0], bz[:i])
		}
		for i := 0; i < 256; i += 1 + t.rng.Intn(16) {
			c07one(t, bs[0], append(append([]byte{}, bz...), byte(i)))
		}
		// overwritten byte by byte
		for i := 0; i < len(bz) && i < 40; i++ {
			m := append([]byte{}, bz...)
			m[i] ^= 1 << uint(t.rng.Intn(8))
			c07one(t, bs[0], m)
		}
	})
	c.run("random", c.n(1500), func(t *T) {
		var encs [][]byte
		var bs []*bcase
		randomCases(t, genOpts{richTags: t.idx%3 == 0}, 5, 3, func(b *bcase) {
			if bz, err := b.s.top(b.v); err == nil {
				encs = append(encs, bz)
				bs = append(bs, b)
			}
		})
		if len(bs) == 0 {
			return
		}
		for i := 0; i < 80; i++ {
			k := t.rng.Intn(len(bs))
			own := encs[k : k+1]
			if t.rng.Intn(8) == 0 {
				own = encs
			}
			c07one(t, bs[k], hostile(t.rng, own))
		}
	})
	c.run("disfix", c.n(300), c07disfix)
	c.run("tiny", c.n(120), c07tiny)
	c.run("ranges", len(scalarTypes)+len(namedScalars), c07ranges)
	c.run("times", c.n(12), c07times)
}

// c07ranges: numbers around every power of two, in every place of a number.
func c07ranges(t *T) {
	et := append(append([]reflect.Type{}, scalarTypes...), namedScalars...)[t.idx]
	u := newUniverse(t.rng)
	s := &spec{u: u}
	var nums [][]byte
	for k := uint(0); k <= 64; k++ {
		for d := uint64(0); d < 5; d++ {
			n := d - 2
			if k < 64 {
				n += 1 << k
			}
			for _, n := range []uint64{n, -n, zigzag(n), zigzag(-n)} {
				x := uv(n)
				nums = append(nums, x)
				if t.rng.Intn(3) == 0 && len(x) < 10 { // overlong
					y := append([]byte{}, x...)
					y[len(y)-1] |= 0x80
					for len(y) < 9 && t.rng.Intn(2) == 0 {
						y = append(y, 0x80)
					}
					nums = append(nums, append(y, 0))
				}
			}
		}
	}
	for k := 0; k < 30; k++ { // overflowing
		y := make([]byte, 9+t.rng.Intn(3), 12)
		for i := range y {
			y[i] = 0x80 | byte(t.rng.Intn(128))
		}
		nums = append(nums, append(y, byte(t.rng.Intn(130))))
	}
	tag := []string{"", `amino:"write_empty"`, `binary:"varint" amino:"unsafe"`}[t.rng.Intn(3)]
	st := func(ft reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{fld("A", typeOf[string](), ""), fld("F", ft, tag), fld("Z", typeOf[int64](), "")})
	}
	ok := []byte{1}
	for _, p := range []struct {
		t reflect.Type
		f func(n []byte) []byte
	}{
		{et, func(n []byte) []byte { return n }},
		{reflect.PtrTo(et), func(n []byte) []byte { return n }},
		{reflect.SliceOf(et), func(n []byte) []byte { return cat(n, ok) }},
		{reflect.ArrayOf(2, et), func(n []byte) []byte { return cat(ok, n) }},
		{st(et), func(n []byte) []byte { return cat(key(2, wVarint), n) }},
		{st(et), func(n []byte) []byte { return cat(key(2, wVarint), n, key(3, wVarint), ok) }},
		{st(reflect.PtrTo(et)), func(n []byte) []byte { return cat(key(2, wVarint), n, key(3, wVarint), ok) }},
		{st(reflect.SliceOf(et)), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(ok, n, ok))) }},
		{st(reflect.SliceOf(reflect.PtrTo(et))), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(n)), key(3, wVarint), ok) }},
		{st(reflect.ArrayOf(2, et)), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(n, ok))) }},
		{st(reflect.SliceOf(reflect.SliceOf(et))), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(key(1, wBytes), lp(cat(n, ok))))) }},
		{st(st(et)), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(key(2, wVarint), n))) }},
	} {
		b := &bcase{u: u, s: s, cdc: u.cdc, t: p.t}
		for _, n := range nums {
			c07one(t, b, p.f(n))
		}
	}
}

// c07times: seconds and nanoseconds around their bounds, in every place of a
// time.
func c07times(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	var secs, nanos [][]byte
	for _, n := range []int64{0, 1, -1, 59, 60, 1 << 31, -1 << 31, 1 << 32, minSec, maxSec, -maxSec, 1<<62 - 1, -1 << 63, 1<<63 - 1} {
		for d := int64(-2); d <= 2; d++ {
			secs = append(secs, uv(uint64(n+d)))
		}
	}
	for _, n := range []int64{0, 999999999, -999999999, 1 << 31, -1 << 31, 1 << 32, 1<<32 + 999999999, -1 << 63} {
		for d := int64(-2); d <= 2; d++ {
			nanos = append(nanos, uv(uint64(n+d)))
		}
	}
	st := func(ft reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{fld("A", typeOf[string](), ""), fld("F", ft, ""), fld("Z", typeOf[int64](), "")})
	}
	ok := []byte{1}
	for _, p := range []struct {
		t reflect.Type
		f func(n []byte) []byte
	}{
		{tTime, func(n []byte) []byte { return n }},
		{reflect.PtrTo(tTime), func(n []byte) []byte { return n }},
		{reflect.SliceOf(tTime), func(n []byte) []byte { return cat(key(1, wBytes), lp(n), key(1, wBytes), lp(nil)) }},
		{reflect.ArrayOf(2, tTime), func(n []byte) []byte { return cat(key(1, wBytes), lp(nil), key(1, wBytes), lp(n)) }},
		{st(tTime), func(n []byte) []byte { return cat(key(2, wBytes), lp(n), key(3, wVarint), ok) }},
		{st(reflect.PtrTo(tTime)), func(n []byte) []byte { return cat(key(2, wBytes), lp(n)) }},
		{st(reflect.SliceOf(tTime)), func(n []byte) []byte { return cat(key(2, wBytes), lp(n), key(2, wBytes), lp(n), key(3, wVarint), ok) }},
		{st(st(tTime)), func(n []byte) []byte { return cat(key(2, wBytes), lp(cat(key(2, wBytes), lp(n)))) }},
	} {
		b := &bcase{u: u, s: s, cdc: u.cdc, t: p.t}
		for _, x := range secs {
			c07one(t, b, p.f(cat(key(1, wVarint), x)))
			c07one(t, b, p.f(cat(key(1, wVarint), x, key(2, wVarint), nanos[t.rng.Intn(len(nanos))])))
		}
		for _, x := range nanos {
			c07one(t, b, p.f(cat(key(2, wVarint), x)))
			c07one(t, b, p.f(cat(key(1, wVarint), secs[t.rng.Intn(len(secs))], key(2, wVarint), x)))
			c07one(t, b, p.f(cat(key(2, wVarint), x, key(1, wVarint), secs[t.rng.Intn(len(secs))])))
		}
	}
}

func zigzag(n uint64) uint64 { return n<<1 ^ uint64(int64(n)>>63) }

func c07one(t *T, b *bcase, bz []byte) {
	want, werr := b.s.decTop(bz, b.t)
	in := within(t.rng, bz)
	got, err := unmarshalBare(b.cdc, in, b.t)
	t.evaluated(b.t.String()+string(bz), len(bz) > 2)
	switch {
	case err != nil && isPanic(err):
		t.failf("UnmarshalBinaryBare of %x into %v: %v", bz, b.t, err)
	case err == nil && werr != nil:
		t.failf("UnmarshalBinaryBare of %x into %v accepts what is malformed (%v), as %s", bz, b.t, werr, show(got))
	case err != nil && werr == nil:
		t.failf("UnmarshalBinaryBare of %x into %v should be %s, but fails: %v", bz, b.t, show(want), err)
	case err == nil:
		if d := diff(want, got); d != "" {
			t.failf("UnmarshalBinaryBare of %x into %v\ngave %s\nwant %s\n%s", bz, b.t, show(got), show(want), d)
		}
		t.count("agree: accepted")
	default:
		t.count("agree: rejected, " + category(werr))
	}
	if t.idx%500 == 1 {
		t.sample("%x into %v: %v", bz, b.t, err)
	}
}

func category(err error) string {
	s := err.Error()
	for _, k := range []string{"varint", "field number", "length", "prefix", "leftover", "key", "eof", "bool", "range", "float", "disfix", "ambiguous prefix", "unknown type", "not registered", "list key", "too many elements",
		"field order", "wire type", "time key", "seconds", "nanos", "array length"} {
		if s == k || k == "not registered" && strings.Contains(s, k) {
			return k
		}
	}
	return "other"
}

// c07disfix: all that can stand before a value in an interface or of a registered type.
func c07disfix(t *T) {
	u := newUniverse(t.rng)
	g := newGen(t.rng, u)
	for i := 0; i < 30; i++ {
		it := []reflect.Type{tI1, tI2, tIA, tAny}[t.rng.Intn(4)]
		ri := u.regs[t.rng.Intn(len(u.regs))]
		other := u.regs[t.rng.Intn(len(u.regs))]
		if !binOK(ri.rt) {
			continue
		}
		g.budget = 40
		v := g.value(ri.rt, fopt{})
		s := &spec{u: u}
		full, err := s.top(v)
		if err != nil || len(full) < 4 {
			continue
		}
		body := full[4:]
		var heads [][]byte
		for _, r := range []*regInfo{ri, other} {
			heads = append(heads, r.prefix[:], append([]byte{0}, append(append([]byte{}, r.disamb[:]...), r.prefix[:]...)...),
				append(append([]byte{}, r.disamb[:]...), r.prefix[:]...),
				append([]byte{0}, r.prefix[:]...), append([]byte{0, 0}, r.prefix[:]...), r.prefix[:3], append([]byte{0}, r.disamb[:]...))
		}
		heads = append(heads, nil, []byte{0}, []byte{0, 0, 0, 0}, append([]byte{0}, append(append([]byte{}, ri.disamb[:]...), other.prefix[:]...)...))
		for _, h := range heads {
			in := append(append([]byte{}, h...), body...)
			c07one(t, &bcase{u: u, s: s, cdc: u.cdc, t: it}, in)
			c07one(t, &bcase{u: u, s: s, cdc: u.cdc, t: ri.rt}, in)
			st := reflect.StructOf([]reflect.StructField{fld("F", it, ""), fld("G", reflect.SliceOf(it), "")})
			c07one(t, &bcase{u: u, s: s, cdc: u.cdc, t: st}, append(key(1, wBytes), lp(in)...))
			c07one(t, &bcase{u: u, s: s, cdc: u.cdc, t: st}, append(key(2, wBytes), lp(in)...))
		}
	}
}

func c07tiny(t *T) {
	u := newUniverse(t.rng)
	s := &spec{u: u}
	var pool []reflect.Type
	pool = append(pool, scalarTypes...)
	pool = append(pool, namedScalars...)
	pool = append(pool, poolStructs...)
	pool = append(pool, poolIfaceStructs...)
	pool = append(pool, poolLists...)
	pool = append(pool, marshalers...)
	pool = append(pool, tTime, tI1, tAny)
	for _, c := range concretes {
		if !c.jsonOnly {
			pool = append(pool, c.rt)
		}
	}
	b := &bcase{u: u, s: s, cdc: u.cdc, t: pool[t.idx%len(pool)]}
	var head []byte
	if ri := u.byType[b.t]; ri != nil {
		head = append(head, ri.prefix[:]...)
	}
	try := func(x ...byte) { c07one(t, b, append(append([]byte{}, head...), x...)) }
	try()
	for i := 0; i < 256; i++ {
		try(byte(i))
		step := 1
		if t.c.tier != "thorough" {
			step = 3
		}
		for j := t.rng.Intn(step); j < 256; j += step {
			try(byte(i), byte(j))
		}
	}
	// three and four bytes, where the first is a plausible key
	for _, k := range []byte{8, 9, 10, 13, 16, 18, 21, 26, 0x28} {
		for i := 0; i < 256; i++ {
			for _, j := range []byte{0, 1, 2, 8, 10, 16, 18, 0x7f, 0x80, 0xff} {
				try(k, byte(i), j)
				try(k, j, byte(i))
				try(k, 2, byte(i), j)
				try(k, 1, byte(i), j)
			}
		}
	}
}
