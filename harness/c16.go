package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C16", run: c16,
		rule:  "every exported Encode/Decode pair and size function is driven with all 8 and 16 bit values, every power of two and its neighbours, random values, and all inputs of one and two bytes (three in the thorough tier) and random, truncated, extended, overlong and overflowing ones; each call is compared with an independent definition of the byte form in arbitrary precision, and a recording writer fails at every byte; distinct = distinct (function, value or input), non-trivial = any value or input other than zero or empty",
		assum: []string{"DecodeTime has no delimiter: it takes the input up to its end, or up to the first field that is not its own"}})
}

// A primitive: its codec, and what it should do.
type prim struct {
	name string
	enc  func(w io.Writer, v interface{}) error
	dec  func(bz []byte) (interface{}, int, error)
	ref  func(v interface{}) []byte                      // nil: the encoder refuses
	rdec func(bz []byte) (v interface{}, n int, ok bool) // what decoding yields
	size func(v interface{}) int                         // the size function, if there is one
	gen  func(r *rand.Rand) interface{}
	all  func(i int) interface{} // exhaustive, for 0 <= i < nall
	nall int
	zero interface{}
	open bool // takes all of the input
}

// bigUv is the varint of a number, defined by division.
func bigUv(x *big.Int) (out []byte) {
	x = new(big.Int).Set(x)
	m, d := new(big.Int), big.NewInt(128)
	for x.Cmp(d) >= 0 {
		x.DivMod(x, d, m)
		out = append(out, byte(m.Int64())+128)
	}
	return append(out, byte(x.Int64()))
}

// bigGetUv is the inverse: n = 0 if there is no end, ok = false if it is too big.
func bigGetUv(b []byte) (x *big.Int, n int, ok bool) {
	x = new(big.Int)
	for i, c := range b {
		d := new(big.Int).Lsh(big.NewInt(int64(c&127)), uint(7*i))
		x.Add(x, d)
		if x.BitLen() > 64 || i > 9 || (i == 9 && c > 1) {
			return x, i + 1, false
		}
		if c < 128 {
			return x, i + 1, true
		}
	}
	return x, 0, false
}

func bigZigzag(i int64) *big.Int {
	x := big.NewInt(i)
	if i >= 0 {
		return x.Lsh(x, 1)
	}
	x.Neg(x)
	x.Lsh(x, 1)
	return x.Sub(x, big.NewInt(1))
}

func bigUnzigzag(x *big.Int) int64 {
	h := new(big.Int).Rsh(x, 1)
	if x.Bit(0) == 1 {
		h.Neg(h)
		h.Sub(h, big.NewInt(1))
	}
	return h.Int64()
}

func bigLE(u uint64, n int) (out []byte) {
	x, m := new(big.Int).SetUint64(u), new(big.Int)
	for i := 0; i < n; i++ {
		x.DivMod(x, big.NewInt(256), m)
		out = append(out, byte(m.Int64()))
	}
	return
}

func bigGetLE(b []byte, n int) (u uint64, ok bool) {
	if len(b) < n {
		return 0, false
	}
	x := new(big.Int)
	for i := n - 1; i >= 0; i-- {
		x.Mul(x, big.NewInt(256))
		x.Add(x, big.NewInt(int64(b[i])))
	}
	return x.Uint64(), true
}

func same16(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x == y
	}
	return a == b
}

func refTime(bz []byte) (interface{}, int, bool) {
	var sec int64
	var ns uint64
	n := 0
	for want := uint64(1); want <= 2 && n < len(bz); want++ {
		k, kn, ok := bigGetUv(bz[n:])
		if !ok || k.BitLen() > 32 {
			return epoch(), 0, false
		}
		key := k.Uint64()
		if key&7 > 5 || key&7 == 4 || key>>3 > 1<<29-1 {
			// not a wire type: unspecified whether it is an error
			return nil, 0, false
		}
		if key != want<<3 {
			if want == 1 && key == 2<<3 {
				continue
			}
			if want == 1 {
				return epoch(), 0, false
			}
			break
		}
		x, xn, ok := bigGetUv(bz[n+kn:])
		if !ok {
			return epoch(), 0, false
		}
		n += kn + xn
		if want == 1 {
			sec = int64(x.Uint64())
			if sec < minSec || sec >= maxSec {
				return epoch(), 0, false
			}
		} else {
			ns = x.Uint64()
			if ns > 999999999 {
				return epoch(), 0, false
			}
		}
	}
	return time.Unix(sec, int64(ns)).UTC(), n, true
}

func prims() []prim {
	r := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	signed := func(name string, bits uint, zero interface{}, enc func(w io.Writer, v interface{}) error, dec func([]byte) (interface{}, int, error), conv func(int64) interface{}, get func(interface{}) int64) prim {
		p := prim{name: name, enc: enc, dec: dec, zero: zero}
		p.ref = func(v interface{}) []byte { return bigUv(bigZigzag(get(v))) }
		p.rdec = func(bz []byte) (interface{}, int, bool) {
			x, n, ok := bigGetUv(bz)
			if !ok {
				return zero, n, false
			}
			i := bigUnzigzag(x)
			if bits < 64 && (i < -1<<(bits-1) || i > 1<<(bits-1)-1) {
				return zero, n, false
			}
			return conv(i), n, true
		}
		p.gen = func(r *rand.Rand) interface{} { return conv(genInt(r, bits)) }
		if bits <= 16 {
			p.nall = 1 << bits
			p.all = func(i int) interface{} { return conv(int64(i) - 1<<(bits-1)) }
		} else {
			p.nall = 64 * 5 * 2
			p.all = func(i int) interface{} {
				x := int64(uint64(1)<<uint(i/10)) + int64(i%5) - 2
				if i%10 >= 5 {
					x = -x
				}
				return conv(x)
			}
		}
		return p
	}
	unsigned := func(name string, bits uint, zero interface{}, enc func(w io.Writer, v interface{}) error, dec func([]byte) (interface{}, int, error), conv func(uint64) interface{}, get func(interface{}) uint64) prim {
		p := prim{name: name, enc: enc, dec: dec, zero: zero}
		p.ref = func(v interface{}) []byte { return bigUv(r(get(v))) }
		p.rdec = func(bz []byte) (interface{}, int, bool) {
			x, n, ok := bigGetUv(bz)
			if !ok || x.BitLen() > int(bits) {
				return zero, n, false
			}
			return conv(x.Uint64()), n, true
		}
		p.gen = func(r *rand.Rand) interface{} { return conv(genUint(r, bits)) }
		if bits <= 16 {
			p.nall = 1 << bits
			p.all = func(i int) interface{} { return conv(uint64(i)) }
		} else {
			p.nall = 64 * 5
			p.all = func(i int) interface{} { return conv(uint64(1)<<uint(i/5) + uint64(int64(i%5)-2)) }
		}
		return p
	}
	fixed := func(name string, size int, zero interface{}, enc func(w io.Writer, v interface{}) error, dec func([]byte) (interface{}, int, error), conv func(uint64) interface{}, get func(interface{}) uint64) prim {
		p := prim{name: name, enc: enc, dec: dec, zero: zero}
		p.ref = func(v interface{}) []byte { return bigLE(get(v), size) }
		p.rdec = func(bz []byte) (interface{}, int, bool) {
			u, ok := bigGetLE(bz, size)
			if !ok {
				return zero, 0, false
			}
			return conv(u), size, true
		}
		p.gen = func(r *rand.Rand) interface{} {
			if r.Intn(2) == 0 {
				return conv(r.Uint64())
			}
			return conv(genUint(r, uint(8*size)))
		}
		p.nall = 8 * size * 5
		p.all = func(i int) interface{} { return conv(uint64(1)<<uint(i/5) + uint64(int64(i%5)-2)) }
		return p
	}
	ps := []prim{
		signed("Int8", 8, int8(0), func(w io.Writer, v interface{}) error { return amino.EncodeInt8(w, v.(int8)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeInt8(b)) },
			func(i int64) interface{} { return int8(i) }, func(v interface{}) int64 { return int64(v.(int8)) }),
		signed("Int16", 16, int16(0), func(w io.Writer, v interface{}) error { return amino.EncodeInt16(w, v.(int16)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeInt16(b)) },
			func(i int64) interface{} { return int16(i) }, func(v interface{}) int64 { return int64(v.(int16)) }),
		signed("Varint", 64, int64(0), func(w io.Writer, v interface{}) error { return amino.EncodeVarint(w, v.(int64)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeVarint(b)) },
			func(i int64) interface{} { return i }, func(v interface{}) int64 { return v.(int64) }),
		unsigned("Byte", 8, byte(0), func(w io.Writer, v interface{}) error { return amino.EncodeByte(w, v.(byte)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeByte(b)) },
			func(i uint64) interface{} { return byte(i) }, func(v interface{}) uint64 { return uint64(v.(byte)) }),
		unsigned("Uint8", 8, uint8(0), func(w io.Writer, v interface{}) error { return amino.EncodeUint8(w, v.(uint8)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeUint8(b)) },
			func(i uint64) interface{} { return uint8(i) }, func(v interface{}) uint64 { return uint64(v.(uint8)) }),
		unsigned("Uint16", 16, uint16(0), func(w io.Writer, v interface{}) error { return amino.EncodeUint16(w, v.(uint16)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeUint16(b)) },
			func(i uint64) interface{} { return uint16(i) }, func(v interface{}) uint64 { return uint64(v.(uint16)) }),
		unsigned("Uvarint", 64, uint64(0), func(w io.Writer, v interface{}) error { return amino.EncodeUvarint(w, v.(uint64)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeUvarint(b)) },
			func(i uint64) interface{} { return i }, func(v interface{}) uint64 { return v.(uint64) }),
		fixed("Int32", 4, int32(0), func(w io.Writer, v interface{}) error { return amino.EncodeInt32(w, v.(int32)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeInt32(b)) },
			func(i uint64) interface{} { return int32(i) }, func(v interface{}) uint64 { return uint64(v.(int32)) }),
		fixed("Int64", 8, int64(0), func(w io.Writer, v interface{}) error { return amino.EncodeInt64(w, v.(int64)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeInt64(b)) },
			func(i uint64) interface{} { return int64(i) }, func(v interface{}) uint64 { return uint64(v.(int64)) }),
		fixed("Uint32", 4, uint32(0), func(w io.Writer, v interface{}) error { return amino.EncodeUint32(w, v.(uint32)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeUint32(b)) },
			func(i uint64) interface{} { return uint32(i) }, func(v interface{}) uint64 { return uint64(v.(uint32)) }),
		fixed("Uint64", 8, uint64(0), func(w io.Writer, v interface{}) error { return amino.EncodeUint64(w, v.(uint64)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeUint64(b)) },
			func(i uint64) interface{} { return i }, func(v interface{}) uint64 { return v.(uint64) }),
		fixed("Float32", 4, float32(0), func(w io.Writer, v interface{}) error { return amino.EncodeFloat32(w, v.(float32)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeFloat32(b)) },
			func(i uint64) interface{} { return math.Float32frombits(uint32(i)) }, func(v interface{}) uint64 { return uint64(math.Float32bits(v.(float32))) }),
		fixed("Float64", 8, float64(0), func(w io.Writer, v interface{}) error { return amino.EncodeFloat64(w, v.(float64)) },
			func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeFloat64(b)) },
			func(i uint64) interface{} { return math.Float64frombits(i) }, func(v interface{}) uint64 { return math.Float64bits(v.(float64)) }),
	}
	for i := range ps {
		switch ps[i].name {
		case "Varint":
			ps[i].size = func(v interface{}) int { return amino.VarintSize(v.(int64)) }
		case "Uvarint":
			ps[i].size = func(v interface{}) int { return amino.UvarintSize(v.(uint64)) }
		}
	}
	ps = append(ps, prim{name: "Bool", zero: false,
		enc: func(w io.Writer, v interface{}) error { return amino.EncodeBool(w, v.(bool)) },
		dec: func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeBool(b)) },
		ref: func(v interface{}) []byte {
			if v.(bool) {
				return []byte{1}
			}
			return []byte{0}
		},
		rdec: func(bz []byte) (interface{}, int, bool) {
			if len(bz) == 0 || bz[0] > 1 {
				return false, 0, false
			}
			return bz[0] == 1, 1, true
		},
		gen: func(r *rand.Rand) interface{} { return r.Intn(2) == 0 }, nall: 2, all: func(i int) interface{} { return i == 1 }})
	getBytes := func(bz []byte) ([]byte, int, bool) {
		x, n, ok := bigGetUv(bz)
		if !ok || !x.IsInt64() || x.Int64() > int64(len(bz)-n) {
			return nil, 0, false
		}
		m := n + int(x.Int64())
		return bz[n:m], m, true
	}
	genB := func(r *rand.Rand) []byte {
		n := r.Intn(20)
		switch r.Intn(12) {
		case 0:
			n = []int{0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385}[r.Intn(10)]
		case 1:
			n = r.Intn(400)
		case 2:
			if r.Intn(8) == 0 {
				n = []int{65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21}[r.Intn(7)]
			}
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	ps = append(ps, prim{name: "ByteSlice", zero: []byte(nil),
		enc: func(w io.Writer, v interface{}) error { return amino.EncodeByteSlice(w, v.([]byte)) },
		dec: func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeByteSlice(b)) },
		ref: func(v interface{}) []byte {
			b := v.([]byte)
			return append(bigUv(big.NewInt(int64(len(b)))), b...)
		},
		rdec: func(bz []byte) (interface{}, int, bool) { b, n, ok := getBytes(bz); return b, n, ok },
		size: func(v interface{}) int { return amino.ByteSliceSize(v.([]byte)) },
		gen:  func(r *rand.Rand) interface{} { return genB(r) },
		nall: 300, all: func(i int) interface{} {
			if i == 0 {
				return []byte(nil)
			}
			return bytes.Repeat([]byte{byte(i)}, i-1)
		}})
	ps = append(ps, prim{name: "String", zero: "",
		enc: func(w io.Writer, v interface{}) error { return amino.EncodeString(w, v.(string)) },
		dec: func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeString(b)) },
		ref: func(v interface{}) []byte {
			b := v.(string)
			return append(bigUv(big.NewInt(int64(len(b)))), b...)
		},
		rdec: func(bz []byte) (interface{}, int, bool) { b, n, ok := getBytes(bz); return string(b), n, ok },
		gen:  func(r *rand.Rand) interface{} { return string(genB(r)) },
		nall: 300, all: func(i int) interface{} { return string(bytes.Repeat([]byte{byte(i)}, i)) }})
	ps = append(ps, prim{name: "Time", zero: epoch(), open: true,
		enc: func(w io.Writer, v interface{}) error { return amino.EncodeTime(w, v.(time.Time)) },
		dec: func(b []byte) (interface{}, int, error) { return ret3(amino.DecodeTime(b)) },
		ref: func(v interface{}) []byte {
			t := v.(time.Time)
			s, ns := t.Unix(), t.Nanosecond()
			if s < minSec || s >= maxSec {
				return nil
			}
			out := []byte{}
			if s != 0 {
				x := big.NewInt(s)
				if s < 0 {
					x.Add(x, new(big.Int).Lsh(big.NewInt(1), 64))
				}
				out = append(append(out, 8), bigUv(x)...)
			}
			if ns != 0 {
				out = append(append(out, 16), bigUv(big.NewInt(int64(ns)))...)
			}
			return out
		},
		rdec: refTime,
		gen: func(r *rand.Rand) interface{} {
			if r.Intn(10) == 0 {
				return time.Unix([]int64{minSec - 1, maxSec, math.MinInt64, math.MaxInt64, -1 << 62, 1 << 40}[r.Intn(6)], r.Int63n(1e9))
			}
			return genTime(r)
		},
		nall: 1, all: func(i int) interface{} { return epoch() }})
	return ps
}

func ret3[V any](v V, n int, err error) (interface{}, int, error) { return v, n, err }

func c16(c *ctx) {
	ps := prims()
	c.run("exhaustive", len(ps), func(t *T) {
		p := ps[t.idx]
		for i := 0; i < p.nall; i++ {
			c16value(t, &p, p.all(i), i%7 == 0)
		}
		t.countN("values of "+p.name, int64(p.nall))
	})
	c.run("values", c.n(400), func(t *T) {
		p := ps[t.idx%len(ps)]
		for i := 0; i < 60; i++ {
			c16value(t, &p, p.gen(t.rng), i%5 == 0)
		}
	})
	// every input of one and two bytes, and three if there is time
	c.run("inputs", 257, func(t *T) {
		for i := range ps {
			p := ps[i]
			if t.idx == 256 {
				c16input(t, &p, nil)
				c16input(t, &p, []byte{})
				continue
			}
			b := byte(t.idx)
			c16input(t, &p, []byte{b})
			for j := 0; j < 256; j++ {
				c16input(t, &p, []byte{b, byte(j)})
				if c.scale > 1 {
					for k := 0; k < 256; k++ {
						c16input(t, &p, []byte{b, byte(j), byte(k)})
					}
				} else {
					c16input(t, &p, []byte{b, byte(j), byte(t.rng.Intn(256))})
				}
			}
		}
	})
	c.run("hostile", c.n(400), func(t *T) {
		p := ps[t.idx%len(ps)]
		for i := 0; i < 80; i++ {
			c16input(t, &p, c16hostile(t, &p))
		}
	})
	c.run("prefixes", c.n(60), c16prefixes)
}

func (t *T) p16(p *prim, in string, fn func()) {
	if pv, st := guard(fn); pv != nil {
		t.failf("%s %s panics: %v\n%s", p.name, in, pv, clip(st.String(), 1500))
	}
}

func c16value(t *T, p *prim, v interface{}, writers bool) {
	want := p.ref(v)
	var buf bytes.Buffer
	var err error
	in := fmt.Sprintf("of %#v", v)
	in = clip(in, 300)
	t.p16(p, in, func() { err = p.enc(&buf, v) })
	if want == nil {
		if err == nil {
			t.failf("Encode%s %s, which is out of range: no error, %x", p.name, in, buf.Bytes())
		}
		t.count("refused by the encoder")
		t.evaluated(p.name+in, true)
		return
	}
	if err != nil || !bytes.Equal(buf.Bytes(), want) {
		t.failf("Encode%s %s: %x, error %v; should be %x", p.name, in, buf.Bytes(), err, want)
	}
	if p.size != nil {
		if n := p.size(v); n != len(want) {
			t.failf("the size function of %s %s: %d, should be %d", p.name, in, n, len(want))
		}
		t.count("sizes")
	}
	// decode, with anything after it
	for i := 0; i < 3; i++ {
		bz := append([]byte(nil), want...)
		if i > 0 && !p.open {
			tail := make([]byte, 1+t.rng.Intn(12))
			if i == 2 {
				t.rng.Read(tail)
			} else {
				for j := range tail {
					tail[j] = 0xff
				}
			}
			bz = append(bz, tail...)
		}
		bz = bz[:len(bz):len(bz)]
		var got interface{}
		var n int
		t.p16(p, in, func() { got, n, err = p.dec(bz) })
		exp := v
		if tm, ok := v.(time.Time); ok {
			exp = time.Unix(tm.Unix(), int64(tm.Nanosecond())).UTC()
		}
		if err != nil || n != len(want) || !same16(got, exp) {
			t.failf("Decode%s of %x (encoding %s, %d bytes): %#v, %d bytes, error %v", p.name, bz, in, len(want), got, n, err)
		}
	}
	t.evaluated(p.name+in, !reflect.DeepEqual(v, p.zero))
	// too short
	for i := 0; i < len(want) && i < 12; i++ {
		c16input(t, p, want[:i])
	}
	if len(want) > 1 {
		c16input(t, p, want[:len(want)-1])
	}
	if writers {
		c16writers(t, p, v, want, in)
	}
}

func c16writers(t *T, p *prim, v interface{}, want []byte, in string) {
	n := len(want)
	for k := 0; k < n; k++ {
		if k > 24 && k < n-2 {
			k = n - 2
		}
		w := &recWriter{accept: k, err: errWriter}
		var err error
		t.p16(p, in, func() { err = p.enc(w, v) })
		if err != errWriter {
			t.failf("Encode%s %s to a writer that fails after %d of %d bytes: error %v, not the writer's own", p.name, in, k, n, err)
		}
		if !bytes.Equal(w.got, want[:k]) {
			t.failf("Encode%s %s to a writer that fails after %d bytes wrote %x, the encoding is %x", p.name, in, k, w.got, want)
		}
		t.count("writers failing")
	}
	w := &recWriter{accept: n, err: errWriter}
	var err error
	t.p16(p, in, func() { err = p.enc(w, v) })
	if err != nil || !bytes.Equal(w.got, want) {
		t.failf("Encode%s %s to a writer with just enough room: error %v, wrote %x", p.name, in, err, w.got)
	}
}

func c16input(t *T, p *prim, bz []byte) {
	want, wn, ok := p.rdec(bz)
	orig := append([]byte(nil), bz...)
	var got interface{}
	var n int
	var err error
	in := fmt.Sprintf("%x", bz)
	t.p16(p, in, func() { got, n, err = p.dec(bz) })
	if !bytes.Equal(bz, orig) {
		t.failf("Decode%s changed its input %x to %x", p.name, orig, bz)
	}
	if n < 0 || n > len(bz) {
		t.failf("Decode%s of %s (%d bytes) reports %d bytes read", p.name, in, len(bz), n)
	}
	if p.open && want == nil {
		t.count("unspecified")
		return
	}
	if ok {
		t.count("inputs accepted")
		if err != nil || n != wn || !same16(got, want) {
			t.failf("Decode%s of %s: %#v, %d bytes, error %v; should be %#v, %d bytes", p.name, in, got, n, err, want, wn)
		}
	} else {
		t.count("inputs refused")
		if err == nil {
			t.failf("Decode%s of %s, which is malformed: %#v, %d bytes, no error", p.name, in, got, n)
		}
		if !same16(got, p.zero) && !reflect.DeepEqual(got, p.zero) {
			t.failf("Decode%s of %s: %#v along with the error %v", p.name, in, got, err)
		}
	}
	t.evaluated(p.name+"<"+in, len(bz) > 0)
}

func c16hostile(t *T, p *prim) []byte {
	r := t.rng
	var b []byte
	if v := p.gen(r); p.ref(v) != nil {
		b = append(b, p.ref(v)...)
	}
	switch r.Intn(8) {
	case 0:
		b = append([]byte(nil), evilVarints[r.Intn(len(evilVarints))]...)
		b = append(b, make([]byte, r.Intn(12))...)
	case 1: // a varint of any length
		n := r.Intn(14)
		b = nil
		for i := 0; i < n; i++ {
			b = append(b, byte(r.Intn(128))|128)
		}
		if r.Intn(3) > 0 {
			b = append(b, byte(r.Intn(4)))
		}
	case 2: // overlong
		x := genUint(r, 64)
		b = padUv(x, r.Intn(5))
		b = append(b, make([]byte, r.Intn(4))...)
	case 3:
		b = mutateBytes(r, b)
	case 4:
		b = make([]byte, r.Intn(24))
		r.Read(b)
	case 5: // just out of range
		x := uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
		b = uv(x)
		b = append(b, make([]byte, r.Intn(40))...)
	case 6: // times
		b = nil
		for i := r.Intn(4); i >= 0; i-- {
			b = append(b, key(uint32(r.Intn(4)), []int{0, 0, 0, 0, 1, 2, 5}[r.Intn(7)])...)
			if r.Intn(3) == 0 {
				b = append(b, evilVarints[r.Intn(len(evilVarints))]...)
			} else {
				x := []uint64{0, 1, 999999999, 1000000000, 1 << 32, 1<<64 - 1, uint64(maxSec), uint64(maxSec - 1)}[r.Intn(8)]
				if r.Intn(4) == 0 {
					x = uint64(int64(minSec) - int64(r.Intn(2)))
				}
				b = append(b, uv(x)...)
			}
		}
	default:
		if len(b) > 0 {
			b = b[:r.Intn(len(b)+1)]
		}
	}
	return b[:len(b):len(b)]
}

// c16prefixes: the helpers around prefix and disambiguation bytes.
func c16prefixes(t *T) {
	r := t.rng
	for i := 0; i < 200; i++ {
		bz := make([]byte, r.Intn(12))
		r.Read(bz)
		if len(bz) > 0 && r.Intn(2) == 0 {
			bz[0] = 0
		}
		var db amino.DisambBytes
		var pb amino.PrefixBytes
		var hasDb, hasPb bool
		var n int
		var err error
		if pv, _ := guard(func() { db, hasDb, pb, hasPb, n, err = amino.DecodeDisambPrefixBytes(bz) }); pv != nil {
			t.failf("DecodeDisambPrefixBytes(%x) panics: %v", bz, pv)
		}
		if n < 0 || n > len(bz) {
			t.failf("DecodeDisambPrefixBytes(%x): n = %d", bz, n)
		}
		switch {
		case len(bz) < 4 || (bz[0] == 0 && len(bz) < 8):
			if err == nil || hasDb || hasPb {
				t.failf("DecodeDisambPrefixBytes(%x): no error", bz)
			}
		case bz[0] == 0:
			if err != nil || !hasDb || !hasPb || n != 8 || !bytes.Equal(db[:], bz[1:4]) || !bytes.Equal(pb[:], bz[4:8]) {
				t.failf("DecodeDisambPrefixBytes(%x): %x %v %x %v %d %v", bz, db, hasDb, pb, hasPb, n, err)
			}
		default:
			if err != nil || hasDb || !hasPb || n != 4 || !bytes.Equal(pb[:], bz[:4]) || db != (amino.DisambBytes{}) {
				t.failf("DecodeDisambPrefixBytes(%x): %x %v %x %v %d %v", bz, db, hasDb, pb, hasPb, n, err)
			}
		}
		t.evaluated(fmt.Sprintf("disfix %x", bz), true)
		// Bytes, EqualBytes
		if len(bz) >= 8 {
			p := amino.NewPrefixBytes(bz[:4])
			var d amino.DisambBytes
			copy(d[:], bz[1:4])
			var df amino.DisfixBytes
			copy(df[:], bz[:7])
			if !bytes.Equal(p[:], bz[:4]) || !bytes.Equal(p.Bytes(), bz[:4]) || !bytes.Equal(d.Bytes(), bz[1:4]) || !bytes.Equal(df.Bytes(), bz[:7]) {
				t.failf("NewPrefixBytes or Bytes of %x: %x %x %x %x", bz, p, p.Bytes(), d.Bytes(), df.Bytes())
			}
			if !p.EqualBytes(bz[:4]) || !d.EqualBytes(bz[1:4]) || !df.EqualBytes(bz[:7]) {
				t.failf("EqualBytes of %x: false for its own bytes", bz)
			}
			for j := 0; j <= 8; j++ {
				o := append([]byte(nil), bz[:j]...)
				if p.EqualBytes(o) != (j == 4) || df.EqualBytes(o) != (j == 7) || (j != 3 && d.EqualBytes(o)) {
					t.failf("EqualBytes of %x with %x", bz, o)
				}
			}
			for j := 0; j < 4; j++ {
				o := append([]byte(nil), bz[:4]...)
				o[j] ^= 1 << uint(r.Intn(8))
				if p.EqualBytes(o) {
					t.failf("EqualBytes of %x with %x: true", p, o)
				}
				p.Bytes()[j] ^= 0xff // a copy, or not: p is a value
			}
			if !bytes.Equal(p[:], bz[:4]) {
				t.failf("writing to what Bytes returned changed %x to %x", bz[:4], p)
			}
		}
	}
}
