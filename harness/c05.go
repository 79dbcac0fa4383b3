package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C05", run: c05,
		rule:  "encodings of random and systematic types are mutated as bytes and as trees of fields (truncated, extended, lying lengths, overlong and huge varints, moved, repeated and retyped fields, spliced, nested deeply), and decoded into fresh and used targets of that and of other types through all binary decoders and primitives; every call has to return (a supervisor watches for hangs, crashes and memory), without panic, and counts must stay within the input, which lies in a larger buffer; distinct = distinct (type, input), non-trivial = longer than 2 bytes",
		assum: []string{"targets are non-nil pointers to supported types; pointers to interfaces are not supported types"}})
}

func c05(c *ctx) {
	c.run("systematic", c.n(len(sysBin)), func(t *T) {
		var encs [][]byte
		var last *bcase
		sysCases(t, false, 5, func(b *bcase) {
			last = b
			if bz, err := b.s.top(b.v); err == nil {
				encs = append(encs, bz)
			}
		})
		for i := 0; i < 25; i++ {
			c05decode(t, last.cdc, last.t, hostile(t.rng, encs), nil)
		}
	})
	c.run("random", c.n(1500), func(t *T) {
		var encs [][]byte
		var bs []*bcase
		randomCases(t, genOpts{richTags: t.idx%3 == 0}, 5, 3, func(b *bcase) {
			bs = append(bs, b)
			if bz, err := b.s.top(b.v); err == nil {
				encs = append(encs, bz)
			}
		})
		for i := 0; i < 60; i++ {
			b := bs[t.rng.Intn(len(bs))]
			var dirty *reflect.Value
			if t.rng.Intn(4) == 0 {
				d := clone(b.v)
				dirty = &d
			}
			c05decode(t, b.cdc, b.t, hostile(t.rng, encs), dirty)
		}
	})
	c.run("tiny", 200, c05tiny)
	c.run("nested", c.n(60), c05nested)
	c.run("primitives", c.n(400), c05primitives)
	if c.onlyPhase == "" || c.onlyPhase == "deep" {
		c.run("deep", 1, c05deep)
	}
}

func c05decode(t *T, cdc *amino.Codec, rt reflect.Type, bz []byte, dirty *reflect.Value) {
	bz = within(t.rng, bz)
	orig := append([]byte{}, bz...)
	target := func() reflect.Value {
		p := reflect.New(rt)
		if dirty != nil {
			p.Elem().Set(clone(*dirty))
		}
		return p
	}
	judge := func(how string, err error, pan bool) {
		if pan {
			t.failf("%s of %x into %v panics: %v", how, orig, rt, err)
		}
		if err == nil {
			t.count(how + ": accepted")
		} else {
			t.count(how + ": rejected")
		}
	}
	t.evaluated(rt.String()+string(bz), len(bz) > 2)
	if t.idx%500 == 1 {
		t.sample("%x into %v", bz, rt)
	}
	p := target()
	err, pan := try(func() error { return cdc.UnmarshalBinaryBare(bz, p.Interface()) })
	judge("UnmarshalBinaryBare", err, pan)
	switch t.rng.Intn(4) {
	case 0:
		lpz := bz
		if t.rng.Intn(3) > 0 {
			lpz = within(t.rng, lp(bz))
		}
		p = target()
		err, pan = try(func() error { return cdc.UnmarshalBinaryLengthPrefixed(lpz, p.Interface()) })
		judge("UnmarshalBinaryLengthPrefixed", err, pan)
	case 1:
		lpz := bz
		if t.rng.Intn(3) > 0 {
			lpz = lp(bz)
		}
		p = target()
		rd := &chunkReader{data: lpz, rng: t.rng, max: 1 + t.rng.Intn(5), err: io.EOF}
		var n int64
		max := []int64{0, 1, 5, 1 << 20}[t.rng.Intn(4)]
		err, pan = try(func() (err error) { n, err = cdc.UnmarshalBinaryLengthPrefixedReader(rd, p.Interface(), max); return })
		judge("UnmarshalBinaryLengthPrefixedReader", err, pan)
		if n < 0 || n > int64(len(lpz)) {
			t.failf("UnmarshalBinaryLengthPrefixedReader of %x says it read %d bytes", lpz, n)
		}
	}
}

// c05tiny: all inputs of up to two bytes (in 200 portions of types), and all of
// three for a few types.
func c05tiny(t *T) {
	u := newUniverse(t.rng)
	for k := t.idx; k < len(sysBin); k += 200 {
		if k/200%4 != 0 && t.c.tier != "thorough" {
			continue
		}
		rt := sysBin[k].t
		for l := 0; l <= 2; l++ {
			n := 1 << (8 * uint(l))
			step := 1
			if l == 2 {
				step = 37
			}
			for x := t.rng.Intn(step); x < n; x += step {
				bz := []byte{byte(x), byte(x >> 8)}[:l]
				p := reflect.New(rt)
				var err error
				pv, st := guard(func() { err = u.cdc.UnmarshalBinaryBare(bz, p.Interface()) })
				if pv != nil {
					t.failf("UnmarshalBinaryBare of %x into %v panics: %v\n%s", bz, rt, pv, clip(st.String(), 2000))
				}
				if err == nil {
					t.count("tiny inputs accepted")
				} else {
					t.count("tiny inputs rejected")
				}
			}
		}
		t.evaluated(rt.String(), true)
	}
}

func nest(inner []byte, depth int, wrap func(b []byte, i int) []byte) []byte {
	for i := 0; i < depth; i++ {
		inner = wrap(inner, i)
	}
	return inner
}

func c05nested(t *T) {
	u := newUniverse(t.rng)
	depth := 1 + t.rng.Intn(3000)
	types := []reflect.Type{reflect.TypeOf(Node{}), reflect.TypeOf(&Node{}), reflect.TypeOf([]Node{}), reflect.TypeOf(CPtr{}), reflect.TypeOf(CIf{}), tI1, reflect.TypeOf(Ifaces{}), reflect.TypeOf(Leaf{})}
	kind := t.rng.Intn(3)
	var ri *regInfo = u.byType[reflect.TypeOf(CIf{})]
	in := nest([]byte{}, depth, func(b []byte, i int) []byte {
		switch kind {
		case 0: // Node.Next
			return append(key(2, wBytes), lp(b)...)
		case 1: // Node.Kids
			return append(key(3, wBytes), lp(b)...)
		default: // CIf.Z, CPtr.N
			if ri != nil {
				b = append(append([]byte{0}, append(ri.disamb[:], ri.prefix[:]...)...), b...)
			}
			return append(key(3, wBytes), lp(b)...)
		}
	})
	if t.rng.Intn(3) == 0 {
		in = in[:t.rng.Intn(len(in)+1)]
	}
	for _, rt := range types {
		b := in
		if r := u.byType[deref(rt)]; r != nil {
			b = append(append([]byte{}, r.prefix[:]...), in...)
		}
		c05decode(t, u.cdc, rt, b, nil)
		c05decode(t, u.cdc, rt, in, nil)
	}
	t.countN("nesting depth total", int64(depth))
}

type primDec struct {
	name string
	call func(b []byte) (interface{}, int, error)
}

var primDecs = []primDec{
	{"DecodeInt8", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeInt8(b)) }},
	{"DecodeInt16", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeInt16(b)) }},
	{"DecodeInt32", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeInt32(b)) }},
	{"DecodeInt64", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeInt64(b)) }},
	{"DecodeVarint", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeVarint(b)) }},
	{"DecodeByte", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeByte(b)) }},
	{"DecodeUint8", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeUint8(b)) }},
	{"DecodeUint16", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeUint16(b)) }},
	{"DecodeUint32", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeUint32(b)) }},
	{"DecodeUint64", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeUint64(b)) }},
	{"DecodeUvarint", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeUvarint(b)) }},
	{"DecodeBool", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeBool(b)) }},
	{"DecodeFloat32", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeFloat32(b)) }},
	{"DecodeFloat64", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeFloat64(b)) }},
	{"DecodeTime", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeTime(b)) }},
	{"DecodeByteSlice", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeByteSlice(b)) }},
	{"DecodeString", func(b []byte) (interface{}, int, error) { return wrap3(amino.DecodeString(b)) }},
	{"DecodeDisambPrefixBytes", func(b []byte) (interface{}, int, error) {
		db, has, pb, hasPb, n, err := amino.DecodeDisambPrefixBytes(b)
		return fmt.Sprint(db, has, pb, hasPb), n, err
	}},
}

func wrap3[X any](x X, n int, err error) (interface{}, int, error) { return x, n, err }

func c05primitives(t *T) {
	for i := 0; i < 100; i++ {
		var b []byte
		switch t.rng.Intn(4) {
		case 0:
			b = make([]byte, t.rng.Intn(14))
			t.rng.Read(b)
		case 1:
			for n := t.rng.Intn(4); n > 0; n-- {
				b = append(b, evilVarints[t.rng.Intn(len(evilVarints))]...)
			}
		case 2:
			tb, _ := specTime(genTime(t.rng))
			b = hostile(t.rng, [][]byte{tb})
		default:
			b = hostile(t.rng, [][]byte{lp([]byte("hello world"))})
		}
		b = within(t.rng, b)
		for _, p := range primDecs {
			var n int
			var err error
			pv, st := guard(func() { _, n, err = p.call(b) })
			if pv != nil {
				t.failf("%s of %x panics: %v\n%s", p.name, b, pv, clip(st.String(), 2000))
			}
			if n < 0 || n > len(b) {
				t.failf("%s of %x: %d bytes read of %d, err %v", p.name, b, n, len(b), err)
			}
			t.count("primitive calls")
			t.evaluated(p.name+string(b), len(b) > 2)
		}
	}
}

// c05deep: nesting of millions of levels, in a process of its own, as running
// out of stack cannot be recovered from.
func c05deep(t *T) {
	if os.Getenv("AMON_DEEP") != "" {
		return
	}
	for _, k := range []string{"node-100000", "node-5000000"} {
		cmd := exec.Command(os.Args[0], "-deep", k)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			t.count("deep: not run")
			return
		}
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(5 * time.Minute):
			_ = cmd.Process.Kill()
			<-done
			t.count("deep: no answer in 5 minutes")
			continue
		}
		t.evaluated("deep "+k, true)
		s := out.String()
		switch {
		case err == nil:
			t.count("deep: returned " + k)
		case k == "node-5000000" && strings.Contains(s, "stack exceeds") && isKnown("C05", "deep-recursion"):
			t.c.addKnown("deep-recursion: a message nested millions of levels deep (a recursive struct type, 30 MB of input) exhausts the stack while decoding, which ends the process")
		default:
			t.failf("decoding %s: %v\n%s", k, err, clip(s, 3000))
		}
	}
}

// deepMain is the process that c05deep starts.
func deepMain(kind string) {
	var depth int
	if _, err := fmt.Sscanf(kind, "node-%d", &depth); err != nil {
		os.Exit(3)
	}
	// built from the inside out in one buffer, backwards
	buf := make([]byte, depth*7+16)
	pos := len(buf)
	n := 0
	for i := 0; i < depth; i++ {
		h := append(key(2, wBytes), uv(uint64(n))...)
		pos -= len(h)
		copy(buf[pos:], h)
		n += len(h)
	}
	var nd Node
	err := amino.NewCodec().UnmarshalBinaryBare(buf[pos:], &nd)
	fmt.Println("returned", err)
}

// isKnown says whether known_findings.txt lists a finding.
func isKnown(prop, id string) bool {
	bz, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.txt"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(bz), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" "+id+" ") {
			return true
		}
	}
	return false
}

func (c *ctx) addKnown(s string) {
	c.mtx.Lock()
	c.known = append(c.known, s)
	c.mtx.Unlock()
}
