package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
)

func init() {
	register(&check{id: "C08", run: c08,
		rule:  "streams of one to eight length-prefixed values of random types, whole or cut off at any byte or with malformed, overlong, lying or huge prefixes, are read through an instrumented reader (random chunks, single bytes, empty reads, error together with data, own errors) with limits around the true size; a monitor in the reader counts every byte and request, and each call is compared with a model of the contract; some readers use the codec inside Read, and the space they do not fill as scratch; distinct = distinct (type, stream, limit, reader), non-trivial = more than 2 bytes",
		assum: []string{"the reader follows the io.Reader contract; the limit is not negative"}})
	register(&check{id: "C09", run: c09,
		rule:  "for random and systematic types the length-prefixed encoding is compared with varint(length) and the reference encoding, the writer variant is observed through recording, short and failing writers and writers that use the codec before they look at what they were given, and the decoder is given every near miss of a prefix (all truncations, additions, lengths off by some, overlong and overflowing varints, empty input) and compared with the rule; distinct = distinct (type, input), non-trivial = more than 2 bytes",
		assum: []string{"overlong varints whose value is right count as equal, as in protobuf"}})
}

var errReader = errors.New("the reader's own error")

// monReader delivers data and then err, and watches what is asked of it.
type monReader struct {
	t      *T
	data   []byte
	off    int
	mode   int // 0 all that fits, 1 single bytes, 2 random, 3 random with empty reads
	err    error
	withIt bool // returns the error with the last byte
	told   bool // the error was returned
	after  int  // reads after that
	max    int  // furthest byte that was asked for
	reads  int
}

func (r *monReader) Read(p []byte) (int, error) {
	r.reads++
	if r.off+len(p) > r.max {
		r.max = r.off + len(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.off == len(r.data) {
		if r.told {
			r.after++
		}
		r.told = true
		return 0, r.err
	}
	n := len(p)
	switch r.mode {
	case 1:
		n = 1
	case 2, 3:
		if r.mode == 3 && r.t.rng.Intn(3) == 0 {
			return 0, nil
		}
		n = 1 + r.t.rng.Intn(n)
		if n > 7 {
			n = 1 + r.t.rng.Intn(7)
		}
	}
	n = copy(p[:n], r.data[r.off:])
	r.off += n
	if r.off == len(r.data) && r.withIt {
		r.told = true
		return n, r.err
	}
	return n, nil
}

func c08(c *ctx) {
	c.run("streams", c.n(2000), c08streams)
	c.run("single", c.n(2500), c08single)
	c.run("prefixes", c.n(300), c08prefixes)
	c.run("readers that use the codec", c.n(500), c08reenter)
}

func c08streams(t *T) {
	u := newUniverse(t.rng)
	var bs []*bcase
	var stream []byte
	var lens []int
	cases(t, u, genOpts{}, 1+t.rng.Intn(4), 2, func(b *bcase) {
		bz, err := b.s.top(b.v)
		if err != nil || len(bz) == 0 && b.iface() {
			return
		}
		bs = append(bs, b)
		stream = append(stream, lp(bz)...)
		lens = append(lens, len(lp(bz)))
	})
	if len(bs) == 0 {
		return
	}
	r := &monReader{t: t, data: append([]byte{}, stream...), mode: t.rng.Intn(4), err: io.EOF, withIt: t.rng.Intn(3) == 0}
	pos := 0
	for i, b := range bs {
		p := reflect.New(b.t)
		var n int64
		max := []int64{0, int64(lens[i]), int64(lens[i]) + 1, 1 << 40}[t.rng.Intn(4)]
		err, _ := try(func() (err error) { n, err = b.cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), max); return })
		if err != nil {
			t.failf("value %d of %d of the stream %x, limit %d: %v", i, len(bs), stream, max, err)
		}
		pos += lens[i]
		if n != int64(lens[i]) || r.off != pos || r.max > pos {
			t.failf("value %d of the stream %x: %d bytes reported, %d consumed, up to %d asked for; it has %d and ends at %d", i, stream, n, r.off, r.max, lens[i], pos)
		}
		want, err := b.s.normTop(b.v)
		if err != nil {
			t.failf("model: %v", err)
		}
		if d := diff(want, p.Elem()); d != "" {
			t.failf("value %d of the stream %x\nis   %s\nwant %s\n%s", i, stream, show(p.Elem()), show(want), d)
		}
		t.count("values read from streams")
		t.evaluated(b.t.String()+string(stream[pos-lens[i]:pos])+fmt.Sprint(max, r.mode, r.withIt), lens[i] > 2)
	}
	// and the end
	p := reflect.New(bs[0].t)
	var n int64
	err, pan := try(func() (err error) {
		n, err = bs[0].cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), 0)
		return
	})
	if pan || err != io.EOF || n != 0 {
		t.failf("at the end of the stream: %d, %v", n, err)
	}
	t.count("ends of streams")
	if t.idx%200 == 0 {
		t.sample("stream of %d values %x mode %d: %d reads", len(bs), stream, r.mode, r.reads)
	}
}

// c08model says what has to happen.
type c08verdict struct {
	n      int  // bytes consumed, -1: not more than 10
	eof    bool // fails with the error of the reader
	bad    bool // fails otherwise
	body   []byte
	why    string
	prefix int
}

func c08model(data []byte, max int64) (v c08verdict) {
	end := -1
	for i := 0; i < len(data) && i < 10; i++ {
		if data[i] < 0x80 {
			end = i + 1
			break
		}
	}
	lim := len(data)
	if lim > 10 {
		lim = 10
	}
	if max > 0 && int64(lim) > max {
		lim = int(max)
	}
	if end < 0 || max > 0 && int64(end) > max {
		if len(data) < 10 && (max == 0 || int64(len(data)) < max) && end < 0 {
			return c08verdict{n: len(data), eof: true, why: "prefix cut off"}
		}
		return c08verdict{n: -1, bad: true, why: "malformed prefix or prefix beyond the limit"}
	}
	u, k := binary.Uvarint(data[:end])
	if k <= 0 {
		return c08verdict{n: -1, bad: true, why: "prefix overflows"}
	}
	if u > 1<<63-1 || max > 0 && (u > uint64(max) || u+uint64(end) > uint64(max)) {
		return c08verdict{n: end, bad: true, why: "over the limit", prefix: end}
	}
	if u > uint64(len(data)-end) {
		return c08verdict{n: len(data), eof: true, why: "body cut off", prefix: end}
	}
	return c08verdict{n: end + int(u), body: data[end : end+int(u)], why: "whole", prefix: end}
}

func c08one(t *T, b *bcase, data []byte, max int64) {
	r := &monReader{t: t, data: append([]byte{}, data...), mode: t.rng.Intn(4), err: io.EOF, withIt: t.rng.Intn(4) == 0}
	if t.rng.Intn(3) == 0 {
		r.err = errReader
	}
	want := c08model(data, max)
	p := reflect.New(b.t)
	var n int64
	err, pan := try(func() (err error) { n, err = b.cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), max); return })
	t.evaluated(b.t.String()+string(data)+fmt.Sprint(max, r.mode, r.withIt, r.err == io.EOF), len(data) > 2)
	where := fmt.Sprintf("reading a %v from %x with limit %d (reader mode %d, error %v, with data %v); expected: %s", b.t, clip(string(data), 300), max, r.mode, r.err, r.withIt, want.why)
	if pan {
		t.failf("%s: %v", where, err)
	}
	if n != int64(r.off) {
		t.failf("%s: %d bytes reported, %d consumed", where, n, r.off)
	}
	if max > 0 && int64(r.max) > max {
		t.failf("%s: asked for %d bytes", where, r.max)
	}
	if want.n >= 0 && r.off != want.n {
		t.failf("%s: %d bytes consumed, not %d (error %v)", where, r.off, want.n, err)
	}
	if want.n < 0 && r.off > 10 {
		t.failf("%s: %d bytes consumed", where, r.off)
	}
	switch {
	case want.bad:
		if err == nil {
			t.failf("%s: no error", where)
		}
		if want.prefix > 0 && r.max > want.prefix {
			t.failf("%s: asked for bytes of the body (up to %d)", where, r.max)
		}
		t.count("refused: " + want.why)
	case want.eof:
		ok := err != nil && (errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error()))
		if r.err == io.EOF {
			ok = err == io.EOF || err == io.ErrUnexpectedEOF || err != nil && strings.Contains(err.Error(), "EOF")
			if len(data) == 0 && err != io.EOF {
				ok = false
			}
		}
		if !ok {
			t.failf("%s: error is %v", where, err)
		}
		t.count("error of the reader: " + want.why)
	default:
		if r.max > want.n {
			t.failf("%s: asked for %d bytes, beyond the value", where, r.max)
		}
		v, werr := unmarshalBare(b.cdc, want.body, b.t)
		if (err == nil) != (werr == nil) {
			t.failf("%s: error %v, but of the body alone %v", where, err, werr)
		}
		if err == nil {
			if d := diff(v, p.Elem()); d != "" {
				t.failf("%s: %s", where, d)
			}
			t.count("whole values")
		} else {
			t.count("whole but malformed bodies")
		}
	}
	if t.idx%300 == 0 {
		t.sample("%s: n=%d err=%v", where, n, err)
	}
}

func c08limit(t *T, size int) int64 {
	switch t.rng.Intn(6) {
	case 0, 1:
		return 0
	case 2:
		return 1 << 40
	case 3:
		return int64(1 + t.rng.Intn(12))
	}
	m := int64(size + t.rng.Intn(7) - 3)
	if m < 0 {
		m = 0
	}
	return m
}

func c08single(t *T) {
	randomCases(t, genOpts{}, 2, 2, func(b *bcase) {
		bz, err := b.s.top(b.v)
		if err != nil {
			return
		}
		full := lp(bz)
		c08one(t, b, full, c08limit(t, len(full)))
		c08one(t, b, append(append([]byte{}, full...), full...), c08limit(t, len(full)))
		for i := 0; i < 4; i++ {
			c08one(t, b, full[:t.rng.Intn(len(full)+1)], c08limit(t, len(full)))
		}
		// other prefixes
		for i := 0; i < 4; i++ {
			e := evilVarints[t.rng.Intn(len(evilVarints))]
			c08one(t, b, append(append([]byte{}, e...), bz...), c08limit(t, len(full)))
			c08one(t, b, e, c08limit(t, len(e)))
		}
		pad := padUv(uint64(len(bz)), 1+t.rng.Intn(9))
		c08one(t, b, append(append([]byte{}, pad...), bz...), c08limit(t, len(pad)+len(bz)))
		m := hostile(t.rng, [][]byte{bz})
		c08one(t, b, append(lp(m), full...), c08limit(t, len(lp(m))))
		d := uint64(len(bz) + t.rng.Intn(5) - 2)
		c08one(t, b, append(uv(d), bz...), c08limit(t, len(full)))
	})
}

// c08prefixes: for one small value, every limit, every truncation, all readers.
func c08prefixes(t *T) {
	u := newUniverse(t.rng)
	n := t.rng.Intn(30)
	switch t.rng.Intn(8) {
	case 0:
		n = 120 + t.rng.Intn(12)
	case 1:
		n = 16380 + t.rng.Intn(8)
	case 2:
		n = 70000
	}
	b := &bcase{u: u, s: &spec{u: u}, cdc: u.cdc, t: tBytes}
	bz := lp(bytes.Repeat([]byte{7}, n))
	bz = append([]byte{10}, bz...)
	full := lp(bz)
	for d := -12; d <= 3; d++ {
		if m := int64(len(full) + d); m > 0 {
			c08one(t, b, full, m)
			c08one(t, b, append(append([]byte{}, full...), 1, 2, 3), m)
		}
	}
	for m := int64(0); m < 14; m++ {
		c08one(t, b, full, m)
		for _, e := range evilVarints {
			c08one(t, b, e, m)
		}
	}
	for i := 0; i <= len(full) && i < 40; i++ {
		c08one(t, b, full[:i], 0)
		c08one(t, b, full[:len(full)-i], 0)
	}
}

// recWriter takes some bytes, and then fails.
type recWriter struct {
	got    []byte
	accept int // -1: everything
	err    error
	calls  int
	short  bool // says it wrote less, without an error
}

func (w *recWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.accept < 0 {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	room := w.accept - len(w.got)
	if room >= len(p) {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.got = append(w.got, p[:room]...)
	if w.short {
		return room, nil
	}
	return room, w.err
}

var errWriter = errors.New("the writer's own error")

func c09(c *ctx) {
	c.run("sizes", c.n(len(sizeList)), func(t *T) { sizeCases(t, false, func(b *bcase) { c09case(t, b) }) })
	c.run("writers that use the codec", c.n(500), c09reenter)
	c.run("systematic", c.n(len(sysBin)), func(t *T) { sysCases(t, false, 3, func(b *bcase) { c09case(t, b) }) })
	c.run("random", c.n(1500), func(t *T) { randomCases(t, genOpts{richTags: t.idx%3 == 0}, 4, 3, func(b *bcase) { c09case(t, b) }) })
	c.run("big", c.n(30), func(t *T) {
		for _, b := range bigCases(t, newUniverse(t.rng)) {
			c09case(t, b)
		}
	})
}

func c09case(t *T, b *bcase) {
	bz, err := b.s.top(b.v)
	if err != nil {
		// nothing must reach the writer
		w := &recWriter{accept: -1}
		var n int64
		werr, _ := try(func() (err error) { n, err = b.cdc.MarshalBinaryLengthPrefixedWriter(w, b.in()); return })
		if werr == nil || n != 0 || len(w.got) > 0 {
			t.failf("writing %s, which has no encoding (%v): %d bytes %x, error %v", b, err, n, w.got, werr)
		}
		t.count("not encodable: nothing written")
		return
	}
	want := lp(bz)
	var got []byte
	if err, _ := try(func() (err error) { got, err = b.cdc.MarshalBinaryLengthPrefixed(b.in()); return }); err != nil {
		t.failf("MarshalBinaryLengthPrefixed of %s: %v", b, err)
	}
	if !bytes.Equal(got, want) {
		t.failf("MarshalBinaryLengthPrefixed of %s\nis   %x\nwant %x", b, got, want)
	}
	t.evaluated(b.t.String()+string(want), len(want) > 2)
	t.count("framed as prescribed")
	if t.idx%400 == 0 {
		t.sample("%v: %x", b.t, want)
	}
	for i := 0; i < 4; i++ {
		w := &recWriter{accept: -1, err: errWriter}
		if i > 0 {
			w.accept = t.rng.Intn(len(want) + 1)
			w.short = i == 3
		}
		var n int64
		err, pan := try(func() (err error) { n, err = b.cdc.MarshalBinaryLengthPrefixedWriter(w, b.in()); return })
		if pan || n != int64(len(w.got)) || !bytes.HasPrefix(want, w.got) {
			t.failf("writing %s to a writer that takes %d bytes: count %d, error %v, got %x of %x", b, w.accept, n, err, w.got, want)
		}
		full := w.accept < 0 || w.accept >= len(want)
		switch {
		case full && (err != nil || len(w.got) != len(want)):
			t.failf("writing %s: count %d, error %v, got %x of %x", b, n, err, w.got, want)
		case !full && !w.short && (err == nil || !errors.Is(err, errWriter) && !strings.Contains(err.Error(), errWriter.Error())):
			t.failf("writing %s to a writer that fails after %d bytes: count %d, error %v", b, w.accept, n, err)
		}
		t.count("writers observed")
	}
	// decoding: only the right length
	if len(bz) == 0 && b.iface() {
		return
	}
	dec := func(in []byte) {
		u, k, err := getUv(in)
		ok := err == nil && u == uint64(len(in)-k)
		p := reflect.New(b.t)
		derr, pan := try(func() error { return b.cdc.UnmarshalBinaryLengthPrefixed(within(t.rng, in), p.Interface()) })
		if pan {
			t.failf("UnmarshalBinaryLengthPrefixed of %x into %v: %v", in, b.t, derr)
		}
		t.evaluated(b.t.String()+string(in), len(in) > 2)
		if !ok {
			if derr == nil {
				t.failf("UnmarshalBinaryLengthPrefixed of %x into %v succeeds", in, b.t)
			}
			t.count("near misses rejected")
			return
		}
		v, berr := unmarshalBare(b.cdc, in[k:], b.t)
		if (berr == nil) != (derr == nil) {
			t.failf("UnmarshalBinaryLengthPrefixed of %x into %v: %v, but UnmarshalBinaryBare of the contents: %v", in, b.t, derr, berr)
		}
		if berr == nil {
			if d := diff(v, p.Elem()); d != "" {
				t.failf("UnmarshalBinaryLengthPrefixed of %x into %v: %s", in, b.t, d)
			}
			t.count("decoded as the contents")
		} else {
			t.count("rejected as the contents")
		}
	}
	dec(want)
	dec(nil)
	dec([]byte{})
	dec(bz)
	dec(append(append([]byte{}, want...), byte(t.rng.Intn(256))))
	dec(append(append([]byte{}, want...), want...))
	for i := 0; i < 4; i++ {
		dec(want[:t.rng.Intn(len(want))])
		dec(append(uv(uint64(len(bz)+t.rng.Intn(7)-3)), bz...))
		dec(append(append([]byte{}, evilVarints[t.rng.Intn(len(evilVarints))]...), bz...))
	}
	dec(append(padUv(uint64(len(bz)), 1+t.rng.Intn(9)), bz...))
	dec(append(uv(uint64(len(bz))|1<<32), bz...))
	dec(append(uv(uint64(len(bz))|1<<63), bz...))
	dec(append(uv(-uint64(len(bz))), bz...))
	m := hostile(t.rng, [][]byte{bz})
	dec(lp(m))
}
