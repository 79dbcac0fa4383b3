package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C30", run: c30,
		rule:  "one worker calls one operation (or a mix of random ones) tens of thousands of times on a codec that has seen the types, every time with other contents (values, names, prefix bytes, field numbers, keys, mutations of encodings, failing readers, writers and hooks, refused registrations); the live heap after garbage collection (runtime.MemStats) and the number of goroutines must not grow with the number of calls, where growth has to show in two successive measurements, the second of twice as many calls; distinct = distinct (operation, calls), non-trivial = those whose calls returned something or were refused",
		assum: []string{"live heap is what the Go runtime counts after collecting twice", "less than about 4 bytes per call are not noticed", "types are fixed: what is kept per type and codec is not counted"}})
}

// liveHeap: what is reachable.
func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // empties pools as well
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const c30limit = 64 << 10

type (
	GIn struct {
		A int64
		S string
		B []byte
	}
	GSt struct {
		N   int32 `binary:"fixed32" json:"n,omitempty"`
		S   string
		L   []GIn
		P   *GIn
		I   I1
		Any interface{}
		T   time.Time
		R   MStr
		Q   []I1
		F   []float64 `amino:"unsafe"`
	}
	GMap struct {
		M map[string]I1
		K map[string]map[string]int32
		R MStr
	}
	GUnreg struct{ A int }
)

func (GUnreg) Is1() {}

func gValue(i int) GSt {
	s := fmt.Sprintf("value %d", i)
	return GSt{N: int32(i), S: s, L: []GIn{{int64(i), s, []byte(s)}, {}}, P: &GIn{S: s}, I: CStr(s), Any: CSt{A: int64(i), S: s},
		T: time.Unix(int64(i)*1000, int64(i)).In(time.FixedZone(s, i%3600)), R: MStr{int32(i), 1}, Q: []I1{CInt64(i), &CSt{S: s}}, F: []float64{float64(i)}}
}

func gMap(i int) GMap {
	s := fmt.Sprintf("key %d", i)
	return GMap{M: map[string]I1{s: CStr(s), "": CMap{s: 1}}, K: map[string]map[string]int32{s: {s: int32(i)}}, R: MStr{int32(i), 2}}
}

func gCodec() *amino.Codec {
	cdc := amino.NewCodec()
	cdc.RegisterInterface((*I1)(nil), nil)
	cdc.RegisterInterface((*interface{})(nil), nil)
	cdc.RegisterInterface((*IA)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
	cdc.RegisterConcrete(CStr(""), "g/str", nil)
	cdc.RegisterConcrete(CSt{}, "g/st", nil)
	cdc.RegisterConcrete(CInt64(0), "g/int64", nil)
	cdc.RegisterConcrete(CMap(nil), "g/map", nil)
	cdc.RegisterConcrete(&CBytes{}, "g/bytes", nil)
	return cdc
}

// gOp does something that is different for every i. It says whether that had
// the result it should have.
type gOp struct {
	name string
	do   func(cdc *amino.Codec, i int) bool
}

func bin32(i int) []byte { return []byte{byte(i>>24) | 1, byte(i >> 16), byte(i >> 8), byte(i)} }

func fails(fn func() error) bool { err, _ := try(fn); return err != nil }
func works(fn func() error) bool { err, _ := try(fn); return err == nil }

type gWriter struct{ err error }

func (w gWriter) Write(p []byte) (int, error) { return len(p) / 2, w.err }

func gOps() []gOp {
	must := func(bz []byte, err error) []byte {
		if err != nil {
			panic(err)
		}
		return bz
	}
	lpOf := func(cdc *amino.Codec, i int) []byte { return must(cdc.MarshalBinaryLengthPrefixed(gValue(i))) }
	return []gOp{
		{"MarshalBinaryBare", func(cdc *amino.Codec, i int) bool {
			bz, err := cdc.MarshalBinaryBare(gValue(i))
			return err == nil && len(bz) > 0
		}},
		{"MarshalBinaryLengthPrefixed", func(cdc *amino.Codec, i int) bool { return len(lpOf(cdc, i)) > 0 }},
		{"MarshalBinaryLengthPrefixedWriter", func(cdc *amino.Codec, i int) bool {
			return works(func() error { _, err := cdc.MarshalBinaryLengthPrefixedWriter(&bytes.Buffer{}, gValue(i)); return err })
		}},
		{"failing writer", func(cdc *amino.Codec, i int) bool {
			return fails(func() error {
				_, err := cdc.MarshalBinaryLengthPrefixedWriter(gWriter{fmt.Errorf("write %d", i)}, gValue(i))
				return err
			})
		}},
		{"MarshalJSON", func(cdc *amino.Codec, i int) bool {
			_, err := cdc.MarshalJSON(gValue(i))
			_, err2 := cdc.MarshalJSON(gMap(i))
			return err == nil && err2 == nil
		}},
		{"MarshalJSONIndent", func(cdc *amino.Codec, i int) bool {
			_, err := cdc.MarshalJSONIndent(gMap(i), fmt.Sprintf("%*s", i%7, ""), "\t")
			return err == nil
		}},
		{"registered values", func(cdc *amino.Codec, i int) bool {
			var x IA = CSt{A: int64(i)}
			a, e1 := cdc.MarshalBinaryBare(CStr(fmt.Sprint(i)))
			_, e2 := cdc.MarshalBinaryBare(struct{ X IA }{x})
			b, e3 := cdc.MarshalJSON(CInt64(i))
			var s CStr
			var n CInt64
			return e1 == nil && e2 == nil && e3 == nil && cdc.UnmarshalBinaryBare(a, &s) == nil && cdc.UnmarshalJSON(b, &n) == nil && n == CInt64(i)
		}},
		{"UnmarshalBinaryBare", func(cdc *amino.Codec, i int) bool {
			var x GSt
			return cdc.UnmarshalBinaryBare(must(cdc.MarshalBinaryBare(gValue(i))), &x) == nil && x.N == int32(i)
		}},
		{"UnmarshalBinaryLengthPrefixed", func(cdc *amino.Codec, i int) bool {
			var x GSt
			return cdc.UnmarshalBinaryLengthPrefixed(lpOf(cdc, i), &x) == nil
		}},
		{"UnmarshalBinaryLengthPrefixedReader", func(cdc *amino.Codec, i int) bool {
			var x GSt
			_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lpOf(cdc, i)), &x, 0)
			return err == nil
		}},
		{"UnmarshalJSON", func(cdc *amino.Codec, i int) bool {
			var x GSt
			var m GMap
			return cdc.UnmarshalJSON(must(cdc.MarshalJSON(gValue(i))), &x) == nil && cdc.UnmarshalJSON(must(cdc.MarshalJSON(gMap(i))), &m) == nil
		}},
		{"reader: limit", func(cdc *amino.Codec, i int) bool {
			var x GSt
			return fails(func() error {
				_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lpOf(cdc, i)), &x, int64(1+i%20))
				return err
			})
		}},
		{"reader: ends early", func(cdc *amino.Codec, i int) bool {
			var x GSt
			bz := lpOf(cdc, i)
			return fails(func() error {
				_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz[:i%len(bz)]), &x, 0)
				return err
			})
		}},
		{"reader: fails", func(cdc *amino.Codec, i int) bool {
			var x GSt
			bz := lpOf(cdc, i)
			pr := io.MultiReader(bytes.NewReader(bz[:i%len(bz)]), &gErrReader{fmt.Errorf("read %d", i)})
			return fails(func() error { _, err := cdc.UnmarshalBinaryLengthPrefixedReader(pr, &x, 0); return err })
		}},
		{"unknown prefix bytes", func(cdc *amino.Codec, i int) bool {
			var x struct{ I I1 }
			in := append(bin32(i), 0x0a, 1, 'x')
			return fails(func() error { return cdc.UnmarshalBinaryBare(append(key(1, wBytes), lp(in)...), &x) })
		}},
		{"unknown disambiguation bytes", func(cdc *amino.Codec, i int) bool {
			var x struct{ I IA }
			in := append(append([]byte{0}, bin32(i)...), bin32(i)...)
			return fails(func() error { return cdc.UnmarshalBinaryBare(append(key(1, wBytes), lp(in)...), &x) })
		}},
		{"wrong prefix bytes of a registered type", func(cdc *amino.Codec, i int) bool {
			var x CSt
			return fails(func() error { return cdc.UnmarshalBinaryBare(append(bin32(i), 8, 1), &x) })
		}},
		{"unknown fields", func(cdc *amino.Codec, i int) bool {
			var x GIn
			in := append(key(uint32(10+i), wBytes), lp([]byte(fmt.Sprint(i)))...)
			in = append(in, append(key(uint32(11+i), wVarint), uv(uint64(i))...)...)
			return works(func() error { return cdc.UnmarshalBinaryBare(in, &x) })
		}},
		{"wrong lengths", func(cdc *amino.Codec, i int) bool {
			var x GSt
			return fails(func() error { return cdc.UnmarshalBinaryBare(append(key(2, wBytes), uv(uint64(100+i))...), &x) })
		}},
		{"unknown names", func(cdc *amino.Codec, i int) bool {
			var x I1
			var s CStr
			in := []byte(fmt.Sprintf(`{"type":"unknown/%d","value":"%d"}`, i, i))
			return fails(func() error { return cdc.UnmarshalJSON(in, &x) }) && fails(func() error { return cdc.UnmarshalJSON(in, &s) })
		}},
		{"unknown keys", func(cdc *amino.Codec, i int) bool {
			var x GIn
			return works(func() error {
				return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"k%d":{"l%d":[%d]},"S":"%d"}`, i, i, i, i)), &x)
			})
		}},
		{"map keys", func(cdc *amino.Codec, i int) bool {
			var x GMap
			return works(func() error {
				return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"K":{"k%d":{"l%d":%d}},"M":{"%d":{"type":"g/str","value":"%d"}}}`, i, i, i, i, i)), &x)
			})
		}},
		{"malformed JSON", func(cdc *amino.Codec, i int) bool {
			var x GMap
			return fails(func() error { return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"K":{"k%d":{"l%d":"%d"`, i, i, i)), &x) })
		}},
		{"JSON of wrong kinds", func(cdc *amino.Codec, i int) bool {
			var x GSt
			return fails(func() error { return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"n":"%d"}`, i)), &x) }) &&
				fails(func() error { return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"T":"%d"}`, i)), &x) })
		}},
		{"unregistered concrete types", func(cdc *amino.Codec, i int) bool {
			return fails(func() error { _, err := cdc.MarshalBinaryBare(GSt{I: GUnreg{i}}); return err }) &&
				fails(func() error { _, err := cdc.MarshalJSON(GSt{I: GUnreg{i}}); return err })
		}},
		{"nil pointers in interfaces", func(cdc *amino.Codec, i int) bool {
			return fails(func() error {
				_, err := cdc.MarshalBinaryBare(GSt{N: int32(i), S: fmt.Sprint(i), I: (*CSt)(nil)})
				return err
			}) && fails(func() error { _, err := cdc.MarshalJSON(GSt{N: int32(i), I: (*CSt)(nil)}); return err })
		}},
		{"failing hooks", func(cdc *amino.Codec, i int) bool {
			v := gValue(i)
			v.R = MStr{X: -666, Y: int32(i)}
			var m GMap
			return fails(func() error { _, err := cdc.MarshalBinaryBare(v); return err }) && fails(func() error { _, err := cdc.MarshalJSON(v); return err }) &&
				fails(func() error { return cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"R":"bad %d"}`, i)), &m) })
		}},
		{"types without encoding", func(cdc *amino.Codec, i int) bool {
			return fails(func() error { _, err := cdc.MarshalBinaryBare(struct{ F float64 }{float64(i)}); return err }) &&
				fails(func() error {
					_, err := cdc.MarshalJSON(struct {
						A int
						C chan int
					}{i, make(chan int)})
					return err
				})
		}},
		{"unregistered interfaces", func(cdc *amino.Codec, i int) bool {
			var x struct{ X INone }
			return fails(func() error {
				return cdc.UnmarshalBinaryBare(append(key(1, wBytes), lp(append(bin32(i), 8, 1))...), &x)
			})
		}},
		{"times out of range", func(cdc *amino.Codec, i int) bool {
			return fails(func() error {
				_, err := cdc.MarshalBinaryBare(GSt{T: time.Date(10000+i, 1, 1, 0, 0, 0, 0, time.UTC)})
				return err
			})
		}},
		{"refused registrations", func(cdc *amino.Codec, i int) bool {
			return fails(func() error { cdc.RegisterConcrete(CSt{}, fmt.Sprintf("other/%d", i), nil); return nil }) &&
				fails(func() error { cdc.RegisterConcrete(&GUnreg{}, "g/st", nil); return nil }) &&
				fails(func() error {
					cdc.RegisterInterface((*I1)(nil), &amino.InterfaceOptions{Priority: []string{fmt.Sprint(i)}})
					return nil
				}) && fails(func() error { cdc.RegisterConcrete(new(*CSt), fmt.Sprintf("pp/%d", i), nil); return nil })
		}},
		{"registrations on a sealed codec", func(cdc *amino.Codec, i int) bool {
			if gSealed == nil {
				gSealed = gCodec().Seal()
			}
			s := gSealed
			return fails(func() error { s.RegisterConcrete(CPtr{}, fmt.Sprintf("late/%d", i), nil); return nil }) &&
				fails(func() error { s.RegisterInterface((*I2)(nil), nil); return nil }) && s.Seal() == s
		}},
		{"codecs", func(_ *amino.Codec, i int) bool {
			cdc := amino.NewCodec()
			cdc.RegisterInterface((*I1)(nil), nil)
			cdc.RegisterConcrete(CSt{}, fmt.Sprintf("c/%d", i), nil)
			bz, err := cdc.MarshalBinaryBare(CSt{A: int64(i)})
			var x CSt
			return err == nil && cdc.UnmarshalBinaryBare(bz, &x) == nil && cdc.Seal() == cdc
		}},
		{"PrintTypes", func(cdc *amino.Codec, i int) bool {
			return works(func() error { return cdc.PrintTypes(&bytes.Buffer{}) }) &&
				fails(func() error { return cdc.PrintTypes(gWriter{fmt.Errorf("write %d", i)}) })
		}},
		{"NameToDisfix", func(_ *amino.Codec, i int) bool {
			d, p := amino.NameToDisfix(fmt.Sprintf("name/%d", i))
			wd, wp := specDisfix(fmt.Sprintf("name/%d", i))
			return bytes.Equal(d.Bytes(), wd[:]) && bytes.Equal(p.Bytes(), wp[:])
		}},
		{"DeepCopy", func(_ *amino.Codec, i int) bool {
			v := gValue(i)
			c, ok := amino.DeepCopy(&v).(*GSt)
			m, ok2 := amino.DeepCopy(gMap(i)).(GMap)
			return ok && ok2 && c.N == int32(i) && m.R.X == int32(i)
		}},
		{"package functions", func(_ *amino.Codec, i int) bool {
			v := GIn{int64(i), fmt.Sprint(i), []byte{byte(i)}}
			bz, err := amino.MarshalBinaryBare(v)
			js, err2 := amino.MarshalJSON(v)
			var x, y GIn
			return err == nil && err2 == nil && amino.UnmarshalBinaryBare(bz, &x) == nil && amino.UnmarshalJSON(js, &y) == nil && x.S == y.S &&
				fails(func() error { return amino.UnmarshalBinaryBare(append(bin32(i), 0xff), &x) })
		}},
		{"primitives", func(_ *amino.Codec, i int) bool {
			var b bytes.Buffer
			_ = amino.EncodeUvarint(&b, uint64(i))
			_ = amino.EncodeString(&b, fmt.Sprint(i))
			_ = amino.EncodeTime(&b, time.Unix(int64(i), 0))
			u, n, err := amino.DecodeUvarint(b.Bytes())
			_, _, err2 := amino.DecodeString(b.Bytes()[n:])
			_, _, err3 := amino.DecodeByteSlice(append(uv(uint64(i+1)), 1, 2)[:1])
			return err == nil && err2 == nil && err3 != nil && u == uint64(i)
		}},
	}
}

type gErrReader struct{ err error }

func (r *gErrReader) Read([]byte) (int, error) { return 0, r.err }

var gSealed *amino.Codec // made when it is needed

// c30measure runs do often, and says by how much the heap has grown for good.
func c30measure(t *T, name string, n int, do func(i int)) {
	at := 0
	runs := func(n int) {
		for k := 0; k < n; k++ {
			do(at)
			at++
		}
	}
	runs(n / 4) // what is done once
	gor := runtime.NumGoroutine()
	h0 := liveHeap()
	runs(n)
	h1 := liveHeap()
	g1 := runtime.NumGoroutine() - gor
	if h1-h0 > c30limit || g1 > 0 {
		time.Sleep(50 * time.Millisecond)
		h1 = liveHeap()
		runs(2 * n)
		time.Sleep(50 * time.Millisecond)
		h2 := liveHeap()
		if h1-h0 > c30limit && h2-h1 > c30limit {
			t.failf("%s: %d calls leave %d bytes behind, %d more leave %d bytes", name, n, h1-h0, 2*n, h2-h1)
		}
		if g2 := runtime.NumGoroutine() - gor; g1 > 0 && g2 > g1 && g2 >= n/100 {
			t.failf("%s: %d goroutines are left after %d calls", name, g2, 3*n)
		}
		t.count("measured again")
	}
	t.countN("calls", int64(at))
	t.sample("%s: the live heap grows by %d bytes in %d calls, goroutines by %d", name, h1-h0, n, g1)
	t.count("measured: " + name)
	t.evaluated(fmt.Sprint(name, n, t.idx), true)
}

func c30(c *ctx) {
	ops := gOps()
	c.runW("operations", len(ops), 1, func(t *T) {
		op := ops[t.idx]
		var cdc *amino.Codec
		if _, bad := try(func() error { cdc = gCodec(); return nil }); bad {
			t.count("no codec")
			return
		}
		c30measure(t, op.name, c.n(20000), func(i int) {
			// What it returns is for other monitors to judge.
			ok := false
			_, _ = try(func() error { ok = op.do(cdc, i); return nil })
			if !ok {
				t.count("unexpected results")
			}
		})
		runtime.KeepAlive(cdc)
	})
	c.runW("mixed", c.n(3), 1, func(t *T) {
		var cdc *amino.Codec
		if _, bad := try(func() error { cdc = gCodec(); return nil }); bad {
			t.count("no codec")
			return
		}
		if t.idx%2 == 1 {
			cdc.Seal()
			for _, op := range ops {
				if op.name == "refused registrations" {
					continue
				}
				_, _ = try(func() error { op.do(cdc, 0); return nil })
			}
		}
		c30measure(t, "mixed", c.n(60000), func(i int) {
			op := ops[t.rng.Intn(len(ops))]
			_, _ = try(func() error { op.do(cdc, i); return nil })
		})
		runtime.KeepAlive(cdc)
	})
	// random types, values, and hostile variants of encodings
	c.runW("random types", c.n(30), 1, func(t *T) {
		u := newUniverse(t.rng)
		js := t.idx%2 == 1
		var types []reflect.Type
		for len(types) < 4 {
			g := newGen(t.rng, u)
			g.json = js
			types = append(types, g.typ(3, posTop, fopt{}))
		}
		m := newMutator(t.rng)
		c30measure(t, "random types", c.n(4000), func(i int) {
			g := newGen(t.rng, u)
			g.json, g.utf8, g.budget = js, js, 30
			rt := types[i%len(types)]
			v := reflect.New(rt)
			g.fill(v.Elem(), fopt{}, 2)
			enc, dec := marshalBare, unmarshalBare
			if js {
				enc, dec = marshalJSON, unmarshalJSON
			}
			bz, err := enc(u.cdc, v.Interface())
			if err != nil {
				return
			}
			_, _ = dec(u.cdc, bz, rt)
			_, _ = dec(u.cdc, m(bz), rt)
			_, _ = try(func() error { amino.DeepCopy(v.Interface()); return nil })
		})
		runtime.KeepAlive(u)
	})
}

// newMutator spoils encodings.
func newMutator(r *rand.Rand) func(bz []byte) []byte {
	return func(bz []byte) []byte {
		bz = append([]byte(nil), bz...)
		for k := 1 + r.Intn(3); k > 0 && len(bz) > 0; k-- {
			switch i := r.Intn(len(bz)); r.Intn(4) {
			case 0:
				bz[i] ^= 1 << uint(r.Intn(8))
			case 1:
				bz[i] = byte(r.Intn(256))
			case 2:
				bz = append(bz[:i], bz[i+1:]...)
			default:
				bz = append(bz[:i:i], append([]byte{byte(r.Intn(256))}, bz[i:]...)...)
			}
		}
		return bz
	}
}
