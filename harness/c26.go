package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C26", run: c26,
		rule:  "the bytes that a call allocates are measured (runtime.MemStats, one worker, after a warm-up with the same input, the least of three) for: families of inputs that grow along one dimension (nesting in every way that a type can nest, with a payload, elements of every kind, unknown fields, escapes, spaces), at sizes n, 2n, 4n and 8n, whole and spoiled at the end, where the cost per byte must not grow; every length and count of an input replaced by claims up to 2^64; streams that claim more than they deliver; hostile inputs for random types against a bound per input byte that only depends on the sizes of the types involved; distinct = distinct (family, size, variant) or (type, input), non-trivial = those that allocated or were decoded",
		assum: []string{"memory is what the Go runtime counts as allocated on the heap during the call, including what is freed in between, without stacks", "type information that is computed once per type and codec is not counted"}})
}

// allocated measures fn.
func allocated(fn func()) uint64 {
	best := uint64(math.MaxUint64)
	var a, b runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.ReadMemStats(&a)
		fn()
		runtime.ReadMemStats(&b)
		if d := b.TotalAlloc - a.TotalAlloc; d < best {
			best = d
		}
		if best < 64<<10 {
			break // too little for noise to matter
		}
	}
	return best
}

type (
	MIface interface{ MIfaceMethod() }
	MNode  struct {
		Next    *MNode
		Kids    []*MNode
		Vals    []MNode
		I       MIface
		Is      []MIface
		S       string
		B       []byte
		Ints    []int64
		Small   []int8
		Fixed   []int32 `binary:"fixed32"`
		Bools   []bool
		Strs    []string
		Bytes   [][]byte
		Times   []time.Time
		Empties []struct{}
		Ptrs    []*int64
		Hashes  [][4]byte
		Rep     *MRep
		Reps    []MRep
		PP      **MNode
		Named   MNodes
		Pairs   []MemPair
		F       []float64 `amino:"unsafe"`
		Arr2    [2]*MNode // has to be there unless it is the last
	}
	MNodes  []*MNode
	MemPair struct{ A, B *MemPair }
	MRep    struct{ next *MNode }
	MSelf   struct{ n *MSelf } // its representation holds it again
	MSRepr  struct {
		P *MSelf
		S string
	}
	MMap struct {
		M map[string]MMap
		L []map[string]int32
		I MIface
		R json.RawMessage
		N *MMap `json:",omitempty"`
	}
	MWrap  struct{ I MIface }
	MOther struct{ A int32 }
)

func (*MNode) MIfaceMethod() {}
func (*MMap) MIfaceMethod()  {}
func (MWrap) MIfaceMethod()  {}
func (MOther) MIfaceMethod() {}

func (r MRep) MarshalAmino() (MNode, error) {
	if r.next == nil {
		return MNode{}, nil
	}
	return *r.next, nil
}
func (r *MRep) UnmarshalAmino(n MNode) error { r.next = &n; return nil }

func (r MSelf) MarshalAmino() (MSRepr, error) { return MSRepr{P: r.n}, nil }
func (r *MSelf) UnmarshalAmino(n MSRepr) error {
	r.n = n.P
	return nil
}

func c26codec() *amino.Codec {
	cdc := amino.NewCodec()
	cdc.RegisterInterface((*MIface)(nil), nil)
	cdc.RegisterConcrete(&MNode{}, "m/node", nil)
	cdc.RegisterConcrete(&MMap{}, "m/map", nil)
	cdc.RegisterConcrete(MWrap{}, "m/wrap", nil)
	cdc.RegisterConcrete(MOther{}, "m/other", nil)
	return cdc
}

// family makes inputs of a size that is about proportional to n.
type family struct {
	name string
	js   bool
	t    reflect.Type
	make func(n int) []byte
}

func fieldOf(t reflect.Type, name string) uint32 {
	f, ok := t.FieldByName(name)
	if !ok {
		panic(name)
	}
	return uint32(f.Index[0] + 1)
}

func rep(b []byte, n int) []byte { return bytes.Repeat(b, n) }

func cat(bs ...[]byte) (out []byte) {
	for _, b := range bs {
		out = append(out, b...)
	}
	return
}

func c26families() (fs []family) {
	node := typeOf[MNode]()
	k := func(f string, cl int) []byte { return key(fieldOf(node, f), cl) }
	pre := func(name string) []byte { _, p := specDisfix(name); return p[:] }
	bin := func(name string, t reflect.Type, f func(n int) []byte) { fs = append(fs, family{name, false, t, f}) }
	js := func(name string, t reflect.Type, f func(n int) []byte) { fs = append(fs, family{name, true, t, f}) }

	// nesting: wrap makes one level around b
	nest := func(name string, wrap func(b []byte) []byte, leaf func(n int) []byte) {
		bin("nested "+name, node, func(n int) []byte {
			b := leaf(n)
			for i := 0; i < n; i++ {
				b = wrap(b)
			}
			return cat(pre("m/node"), b)
		})
	}
	wraps := []struct {
		name string
		wrap func(b []byte) []byte
	}{
		{"pointer", func(b []byte) []byte { return cat(k("Next", wBytes), lp(b)) }},
		{"list of pointers", func(b []byte) []byte { return cat(k("Kids", wBytes), lp(b)) }},
		{"list of structs", func(b []byte) []byte { return cat(k("Vals", wBytes), lp(b)) }},
		{"array", func(b []byte) []byte { return cat(k("Arr2", wBytes), lp(b), k("Arr2", wBytes), lp(nil)) }},
		{"interface", func(b []byte) []byte { return cat(k("I", wBytes), lp(cat(pre("m/node"), b))) }},
		{"list of interfaces", func(b []byte) []byte { return cat(k("Is", wBytes), lp(cat(pre("m/node"), b))) }},
		{"representation", func(b []byte) []byte { return cat(k("Rep", wBytes), lp(b)) }},
		{"list of representations", func(b []byte) []byte { return cat(k("Reps", wBytes), lp(b)) }},
		{"pointer to pointer", func(b []byte) []byte { return cat(k("PP", wBytes), lp(b)) }},
		{"named list", func(b []byte) []byte { return cat(k("Named", wBytes), lp(b)) }},
		{"unknown field", func(b []byte) []byte { return cat(key(99, wBytes), lp(b)) }},
		{"wrapper", func(b []byte) []byte {
			return cat(k("I", wBytes), lp(cat(pre("m/wrap"), key(1, wBytes), lp(cat(pre("m/node"), b)))))
		}},
	}
	for _, w := range wraps {
		w := w
		nest(w.name, w.wrap, func(n int) []byte { return nil })
		nest(w.name+" with a payload", w.wrap, func(n int) []byte { return cat(k("B", wBytes), lp(make([]byte, 60*n))) })
		nest(w.name+" with a list", w.wrap, func(n int) []byte { return cat(k("Ints", wBytes), lp(rep([]byte{1}, 60*n))) })
	}
	nest("every way", func(b []byte) []byte {
		w := wraps[len(b)%len(wraps)]
		return w.wrap(b)
	}, func(n int) []byte { return cat(k("S", wBytes), lp(rep([]byte("s"), 60*n))) })
	bin("nested representation of itself", typeOf[MSelf](), func(n int) []byte {
		b := cat(key(2, wBytes), lp(rep([]byte("s"), 60*n)))
		for i := 0; i < n; i++ {
			b = cat(key(1, wBytes), lp(b))
		}
		return b
	})
	bin("spine with leaves", typeOf[MemPair](), func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = cat(key(1, wBytes), lp(cat(key(2, wBytes), lp(nil))), key(2, wBytes), lp(b))
		}
		return b
	})

	// many elements of one kind
	type el struct {
		name string
		b    []byte
	}
	for _, e := range []el{
		{"empty pointers", cat(k("Kids", wBytes), lp(nil))},
		{"empty structs", cat(k("Vals", wBytes), lp(nil))},
		{"nil interfaces", cat(k("Is", wBytes), lp(nil))},
		{"interfaces", cat(k("Is", wBytes), lp(cat(pre("m/other"), key(1, wVarint), uv(5))))},
		{"interfaces of pointers", cat(k("Is", wBytes), lp(pre("m/map")))},
		{"empty strings", cat(k("Strs", wBytes), lp(nil))},
		{"short strings", cat(k("Strs", wBytes), lp([]byte("x")))},
		{"empty bytes", cat(k("Bytes", wBytes), lp(nil))},
		{"short bytes", cat(k("Bytes", wBytes), lp([]byte("x")))},
		{"zero times", cat(k("Times", wBytes), lp(nil))},
		{"times", cat(k("Times", wBytes), lp(cat(key(1, wVarint), uv(5))))},
		{"empty anonymous structs", cat(k("Empties", wBytes), lp(nil))},
		{"hashes", cat(k("Hashes", wBytes), lp([]byte("abcd")))},
		{"representations", cat(k("Reps", wBytes), lp(nil))},
		{"pairs", cat(k("Pairs", wBytes), lp(nil))},
		{"unknown varints", cat(key(77, wVarint), uv(1))},
		{"unknown bytes", cat(key(77, wBytes), lp([]byte("xyz")))},
		{"unknown 8 bytes", cat(key(77, w8), make([]byte, 8))},
		{"unknown 4 bytes", cat(key(77, w4), make([]byte, 4))},
	} {
		e := e
		bin("many "+e.name, node, func(n int) []byte { return cat(pre("m/node"), rep(e.b, 4*n)) })
	}
	for _, e := range []el{
		{"Ints", []byte{0}}, {"Ints", []byte{1}}, {"Ints", []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}}, {"Small", []byte{3}},
		{"Fixed", make([]byte, 4)}, {"Bools", []byte{1}}, {"Ptrs", []byte{2}}, {"B", []byte{1}}, {"S", []byte("a")}, {"F", make([]byte, 8)},
	} {
		e := e
		bin(fmt.Sprintf("packed %s %x", e.name, e.b), node, func(n int) []byte {
			return cat(pre("m/node"), k(e.name, wBytes), lp(rep(e.b, 10*n)))
		})
	}
	bin("top-level list of pairs", typeOf[[]MemPair](), func(n int) []byte { return rep(cat(key(1, wBytes), lp(nil)), 4*n) })
	bin("top-level list of interfaces", typeOf[[]MIface](), func(n int) []byte { return rep(cat(key(1, wBytes), lp(pre("m/other"))), 4*n) })
	bin("top-level string", typeOf[string](), func(n int) []byte { return cat(key(1, wBytes), lp(rep([]byte("x"), 10*n))) })
	bin("top-level bytes", typeOf[[]byte](), func(n int) []byte { return cat(key(1, wBytes), lp(rep([]byte("x"), 10*n))) })
	bin("top-level integers", typeOf[[]int](), func(n int) []byte { return cat(key(1, wBytes), lp(rep([]byte{1}, 10*n))) })
	bin("top-level structs", typeOf[[]struct{}](), func(n int) []byte { return rep([]byte{10, 0}, 10*n) })
	bin("zeros", node, func(n int) []byte { return cat(pre("m/node"), make([]byte, 10*n)) })
	bin("continuation bytes", node, func(n int) []byte { return cat(pre("m/node"), rep([]byte{0xff}, 10*n)) })

	// JSON
	jt := typeOf[MNode]()
	full := func(s string) []byte { return []byte(`{"type":"m/node","value":` + s + `}`) }
	jnest := func(name string, t reflect.Type, reg, open, close string, leaf func(n int) string) {
		js("nested "+name, t, func(n int) []byte {
			n /= 2
			s := strings.Repeat(open, n) + leaf(n) + strings.Repeat(close, n)
			if reg != "" {
				return []byte(`{"type":"` + reg + `","value":` + s + `}`)
			}
			return []byte(s)
		})
	}
	for _, w := range []struct{ name, reg, open, close string }{
		{"pointer", "m/node", `{"Next":`, `}`},
		{"list of pointers", "m/node", `{"Kids":[`, `]}`},
		{"list of structs", "m/node", `{"Vals":[`, `]}`},
		{"array", "m/node", `{"Arr2":[`, `,null]}`},
		{"interface", "m/node", `{"I":{"type":"m/node","value":`, `}}`},
		{"list of interfaces", "m/node", `{"Is":[{"type":"m/node","value":`, `}]}`},
		{"representation", "m/node", `{"Rep":`, `}`},
		{"unknown field", "m/node", `{"nope":`, `}`},
		{"pointer with spaces", "m/node", `{ "Next" : `, ` } `},
	} {
		jnest(w.name, jt, w.reg, w.open, w.close, func(int) string { return "{}" })
		jnest(w.name+" with a payload", jt, w.reg, w.open, w.close, func(n int) string {
			return `{"S":"` + strings.Repeat("s", 60*n) + `"}`
		})
	}
	mt := typeOf[MMap]()
	jnest("map", mt, "m/map", `{"M":{"k":`, `}}`, func(n int) string { return `{"R":"` + strings.Repeat("s", 60*n) + `"}` })
	jnest("map interface", mt, "m/map", `{"I":{"type":"m/map","value":`, `}}`, func(n int) string { return `{"R":"` + strings.Repeat("s", 60*n) + `"}` })
	jnest("map pointer", mt, "m/map", `{"N":`, `}`, func(n int) string { return `{"R":"` + strings.Repeat("s", 60*n) + `"}` })
	jnest("representation of itself", typeOf[MSelf](), "", `{"P":`, `}`, func(n int) string { return `{"S":"` + strings.Repeat("s", 60*n) + `"}` })
	jnest("brackets", typeOf[[]string](), "", `[`, `]`, func(n int) string { return `""` })
	for _, e := range []struct{ field, el string }{
		{"Kids", "{}"}, {"Kids", "null"}, {"Vals", "{}"}, {"Is", "null"}, {"Is", `{"type":"m/other","value":{}}`}, {"Strs", `""`}, {"Strs", `"\u0041"`},
		{"Bytes", `""`}, {"Bytes", `"AA=="`}, {"Times", `"2000-01-01T00:00:00Z"`}, {"Empties", "{}"}, {"Ptrs", `"1"`}, {"Ints", `"0"`}, {"Small", "1"}, {"Bools", "true"},
		{"Hashes", `"AAAAAA=="`}, {"Reps", "{}"}, {"Pairs", "{}"}, {"Pairs", `{"A":{}}`}, {"F", "0"}, {"F", "1.5"},
	} {
		e := e
		js(fmt.Sprintf("many %s %s", e.field, e.el), jt, func(n int) []byte {
			return full(`{"` + e.field + `":[` + strings.Repeat(e.el+",", 4*n) + e.el + "]}")
		})
	}
	js("map entries", mt, func(n int) []byte {
		var s []string
		for i := 0; i < 2*n; i++ {
			s = append(s, fmt.Sprintf(`"%06d":{}`, i))
		}
		return []byte(`{"type":"m/map","value":{"M":{` + strings.Join(s, ",") + `}}}`)
	})
	js("maps", mt, func(n int) []byte {
		return []byte(`{"type":"m/map","value":{"L":[` + strings.Repeat(`{"a":1},{},`, 2*n) + `{}]}}`)
	})
	js("unknown members", jt, func(n int) []byte {
		var s []string
		for i := 0; i < 4*n; i++ {
			s = append(s, fmt.Sprintf(`"u%06d":0`, i))
		}
		return full(`{` + strings.Join(s, ",") + `}`)
	})
	js("repeated members", jt, func(n int) []byte { return full(`{` + strings.Repeat(`"S":"x",`, 4*n) + `"S":"y"}`) })
	js("long string", jt, func(n int) []byte { return full(`{"S":"` + strings.Repeat("a", 60*n) + `"}`) })
	js("escaped string", jt, func(n int) []byte { return full(`{"S":"` + strings.Repeat(`\n`, 30*n) + `"}`) })
	js("bytes", jt, func(n int) []byte { return full(`{"B":"` + strings.Repeat(`AAAA`, 15*n) + `"}`) })
	js("spaces", jt, func(n int) []byte { return full(strings.Repeat(" ", 60*n) + `{}` + strings.Repeat(" ", 60*n)) })
	js("long number", jt, func(n int) []byte { return full(`{"Small":[` + strings.Repeat("1", 60*n) + `]}`) })
	js("long quoted number", jt, func(n int) []byte { return full(`{"Ints":["` + strings.Repeat("1", 60*n) + `"]}`) })
	js("long time", jt, func(n int) []byte {
		return full(`{"Times":["2000-01-01T00:00:00.` + strings.Repeat("1", 60*n) + `Z"]}`)
	})
	js("long name", jt, func(n int) []byte { return full(`{"I":{"type":"` + strings.Repeat("n", 60*n) + `","value":{}}}`) })
	js("raw", mt, func(n int) []byte {
		return []byte(`{"type":"m/map","value":{"R":[` + strings.Repeat("1,", 60*n) + `1]}}`)
	})
	return
}

// variants of an input of a family: whole, and spoiled.
var c26variants = []string{"whole", "cut", "last byte", "length", "reader", "prefixed"}

func c26variant(js bool, v string, b []byte) []byte {
	out := append([]byte{}, b...)
	switch v {
	case "cut":
		return out[:len(out)*9/10]
	case "last byte":
		if len(out) > 0 {
			out[len(out)-1] = 0xff
		}
	case "length":
		if js || len(out) < 8 {
			return nil
		}
		// a lie in the middle
		copy(out[len(out)/2:], []byte{0xff, 0xff, 0xff, 0xff, 7})
	}
	return out
}

func c26(c *ctx) {
	cdc := c26codec()
	fams := c26families()
	base := 64
	if c.tier == "thorough" {
		base = 512
	}
	c.runW("growth", len(fams)*len(c26variants), 1, func(t *T) {
		f := fams[t.idx/len(c26variants)]
		v := c26variants[t.idx%len(c26variants)]
		if f.js && (v == "reader" || v == "prefixed" || v == "length") {
			return
		}
		t.note("family %s, json %v, %s", f.name, f.js, v)
		var sizes, costs []float64
		decoded := false
		for _, m := range []int{1, 2, 4, 8} {
			in := c26variant(f.js, v, f.make(base*m))
			if in == nil {
				return
			}
			var err error
			call := func() {
				p := reflect.New(f.t).Interface()
				var pv interface{}
				pv, _ = guard(func() {
					switch {
					case f.js:
						err = cdc.UnmarshalJSON(in, p)
					case v == "reader":
						_, err = cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lp(in)), p, 0)
					case v == "prefixed":
						err = cdc.UnmarshalBinaryLengthPrefixed(lp(in), p)
					default:
						err = cdc.UnmarshalBinaryBare(in, p)
					}
				})
				if pv != nil {
					t.failf("panic: %v", pv)
				}
			}
			if m == 1 {
				call()
			}
			sizes = append(sizes, float64(len(in)))
			costs = append(costs, float64(allocated(call)))
			decoded = decoded || err == nil
			t.note("%d bytes: %.0f allocated, error %s", len(in), costs[len(costs)-1], clip(fmt.Sprint(err), 200))
			t.count("measurements")
		}
		last := len(sizes) - 1
		per := func(i int) float64 { return (costs[i] + 4096) / (sizes[i] + 64) }
		t.sample("%s %s: %.0f bytes, %.1f per byte, %.1f for an eighth", f.name, v, sizes[last], per(last), per(0))
		if per(last) > 2.5*per(0)+20 {
			t.errorf("the cost per byte grows with the size: %.1f allocated per byte at %.0f bytes, %.1f at %.0f bytes", per(last), sizes[last], per(0), sizes[0])
		}
		t.evaluated(f.name+v, decoded)
	})
	c26claims(c, cdc)
	c26streams(c, cdc)
	c.runW("hostile", c.n(1200), 1, func(t *T) { c26hostile(t, false) })
	c.runW("hostile JSON", c.n(600), 1, func(t *T) { c26hostile(t, true) })
}

// c26claims: every length of an input is replaced by lies.
func c26claims(c *ctx, cdc *amino.Codec) {
	one := int64(1)
	pone := &one
	n := &MNode{Kids: []*MNode{{S: "k"}, nil, {}}, Vals: []MNode{{B: []byte{1}}}, I: MOther{3}, Is: []MIface{MOther{1}, nil, MWrap{MOther{1}}},
		S: "s", B: []byte("bytes"), Ints: []int64{1, 2}, Small: []int8{1}, Fixed: []int32{1, 2}, Bools: []bool{true}, Strs: []string{"", "b"}, Bytes: [][]byte{{1}, nil},
		Times: []time.Time{time.Unix(1, 1), {}}, Empties: make([]struct{}, 2), Ptrs: []*int64{pone}, Hashes: [][4]byte{{1}, {}}, Rep: &MRep{&MNode{S: "r"}},
		Reps: []MRep{{&MNode{S: "r"}}}, Named: MNodes{{S: "n"}}, Pairs: []MemPair{{A: &MemPair{}}}, F: []float64{1}, Arr2: [2]*MNode{{S: "a"}, {}}}
	n.Next = clone(reflect.ValueOf(n)).Interface().(*MNode)
	cases := []struct {
		v interface{}
		t reflect.Type
	}{
		{n, typeOf[MNode]()}, {"string", typeOf[string]()}, {[]byte("bytes"), typeOf[[]byte]()}, {[]int{1, 2}, typeOf[[]int]()},
		{[]string{"a", "b"}, typeOf[[]string]()}, {[4]byte{1}, typeOf[[4]byte]()}, {[]MIface{MOther{1}}, typeOf[[]MIface]()}, {[]time.Time{time.Unix(4, 4)}, typeOf[[]time.Time]()},
		{[]MemPair{{}, {A: &MemPair{}}}, typeOf[[]MemPair]()}, {struct{ B [][][]byte }{[][][]byte{{{1}}}}, typeOf[struct{ B [][][]byte }]()},
		{struct{ A [3]string }{}, typeOf[struct{ A [3]string }]()},
	}
	var ins [][]byte
	for _, x := range cases {
		bz, err := marshalBare(cdc, x.v)
		if err != nil {
			panic(err)
		}
		ins = append(ins, bz)
	}
	judge := func(t *T, what string, in []byte, fn func() error) {
		var err error
		call := func() {
			if pv, st := guard(func() { err = fn() }); pv != nil {
				t.failf("panic: %v\n%s", pv, st)
			}
		}
		call() // type information
		a := allocated(call)
		t.count("measurements")
		if lim := uint64(24<<10 + 600*len(in)); a > lim {
			t.failf("%s: %d bytes allocated for an input of %d bytes %x (error %s)", what, a, len(in), clip(fmt.Sprintf("%x", in), 500), clip(fmt.Sprint(err), 300))
		}
		t.evaluated(what+string(in), a > 0)
	}
	claims := []int{}
	for k := uint(8); k < 63; k++ {
		claims = append(claims, 1<<k, 1<<k-1)
	}
	claims = append(claims, math.MaxInt64, math.MinInt64, -1, -2)
	c.runW("claims", len(cases)*len(claims), 1, func(t *T) {
		ci, claim := t.idx/len(claims), claims[t.idx%len(claims)]
		in := ins[ci]
		skip := 0
		if ci == 0 {
			skip = 4
		}
		ws, ok := wparse(in[skip:], 6)
		if !ok {
			t.failf("encoding does not parse: %x", in)
		}
		for _, l := range wlists(&ws, nil) {
			for _, w := range *l {
				if w.cl != wBytes || c.tier == "quick" && t.rng.Intn(4) > 0 && ci == 0 {
					continue
				}
				old := w.lenAdd
				w.lenAdd = claim
				bad := append(append([]byte{}, in[:skip]...), wwrite(ws)...)
				w.lenAdd = old
				judge(t, fmt.Sprintf("%v, claim %d", cases[ci].t, claim), bad, func() error {
					return cdc.UnmarshalBinaryBare(bad, reflect.New(cases[ci].t).Interface())
				})
				t.count("lengths replaced")
			}
		}
		// the outermost length
		bad := append(uv(uint64(claim)), in...)
		judge(t, "length-prefixed", bad, func() error {
			return cdc.UnmarshalBinaryLengthPrefixed(bad, reflect.New(cases[ci].t).Interface())
		})
		judge(t, "DecodeByteSlice", bad, func() error { _, _, err := amino.DecodeByteSlice(bad); return err })
		judge(t, "DecodeString", bad, func() error { _, _, err := amino.DecodeString(bad); return err })
		judge(t, "DecodeTime", bad, func() error { _, _, err := amino.DecodeTime(bad); return err })
		for _, max := range []int64{0, math.MaxInt64, 1 << 40} {
			judge(t, "reader", bad, func() error {
				_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bad), reflect.New(cases[ci].t).Interface(), max)
				return err
			})
		}
	})
}

// stream delivers some bytes in pieces and then fails.
type stream struct {
	data  []byte
	chunk int
	err   error
	max   int // the largest buffer it was called with
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) > s.max {
		s.max = len(p)
	}
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := len(p)
	if n > s.chunk {
		n = s.chunk
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	return n, nil
}

// c26streams: the memory follows what arrives.
func c26streams(c *ctx, cdc *amino.Codec) {
	arrive := []int{0, 1, 2, 10, 511, 512, 513, 4096, 33000, 100000, 1000000}
	errs := []error{io.EOF, io.ErrUnexpectedEOF, errWriter}
	c.runW("streams", len(arrive)*56*2, 1, func(t *T) {
		n := arrive[t.idx/112]
		k := uint(t.idx / 2 % 56)
		claim := uint64(1) << (k + 7)
		chunk := []int{1 + t.rng.Intn(100), 1 << 20}[t.idx%2]
		max := []int64{0, math.MaxInt64}[t.rng.Intn(2)]
		e := errs[t.rng.Intn(len(errs))]
		body := append(uv(claim), make([]byte, n)...)
		var err error
		var got int64
		asked := 0
		run := func() {
			s := &stream{data: body, chunk: chunk, err: e}
			var v []byte
			got, err = cdc.UnmarshalBinaryLengthPrefixedReader(s, &v, max)
			asked = s.max
		}
		run()
		a := allocated(run)
		t.note("claim %d, %d arrive in pieces of up to %d: %d read, error %s, %d bytes allocated, largest read %d", claim, n, chunk, got, clip(fmt.Sprint(err), 200), a, asked)
		t.count("measurements")
		if err == nil && claim > uint64(n) {
			t.failf("no error")
		}
		if lim := uint64(16<<10 + 16*n); a > lim {
			t.failf("%d bytes allocated", a)
		}
		t.evaluated(fmt.Sprint(claim, n, chunk > 100), claim > uint64(n))
	})
}

// reachable computes the size of the largest type that decoding t can make.
func reachable(u *universe, t reflect.Type, seen map[reflect.Type]bool, max *uint64) {
	if seen[t] {
		return
	}
	seen[t] = true
	if s := uint64(t.Size()); s > *max {
		*max = s
	}
	if m, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok && m.Type.NumIn() == 2 {
		reachable(u, m.Type.In(1), seen, max)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		reachable(u, t.Elem(), seen, max)
	case reflect.Map:
		reachable(u, t.Elem(), seen, max)
		reachable(u, t.Key(), seen, max)
	case reflect.Struct:
		if t == tTime {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			reachable(u, t.Field(i).Type, seen, max)
		}
	case reflect.Interface:
		for c := range u.byType {
			reachable(u, c, seen, max)
		}
	}
}

func c26hostile(t *T, js bool) {
	randomCases(t, genOpts{json: js}, 2, 2, func(b *bcase) {
		var size uint64
		reachable(b.u, b.t, map[reflect.Type]bool{}, &size)
		var encs [][]byte
		var trees []*jnode
		if js {
			if n, err := b.s.jtop(b.v); err == nil {
				trees = append(trees, n)
				encs = append(encs, n.bytes())
			}
		} else if bz, err := marshalBare(b.cdc, b.in()); err == nil {
			encs = append(encs, bz)
		}
		for i := 0; i < 6; i++ {
			var in []byte
			if i == 0 && len(encs) > 0 {
				in = encs[0]
			} else if js {
				in = t.hostileJSON(trees, jsonNamesOf(b.u))
			} else {
				in = hostile(t.rng, encs)
			}
			if ws, ok := wparse(in, 3); ok && !js && len(ws) > 0 && t.rng.Intn(2) == 0 {
				// many times the same
				ls := wlists(&ws, nil)
				l := ls[t.rng.Intn(len(ls))]
				if len(*l) > 0 && len(in) < 2000 {
					j := t.rng.Intn(len(*l))
					more := append([]*wnode{}, (*l)[:j]...)
					for k := 20 + t.rng.Intn(400); k > 0; k-- {
						more = append(more, (*l)[j])
					}
					*l = append(more, (*l)[j:]...)
					in = wwrite(ws)
					t.count("repeated")
				}
			}
			t.desc = nil
			t.note("type %v (largest part %d bytes), input %s", b.t, size, enctext(js, in))
			var err error
			call := func() {
				p := reflect.New(b.t).Interface()
				err, _ = try(func() error {
					if js {
						return b.cdc.UnmarshalJSON(in, p)
					}
					return b.cdc.UnmarshalBinaryBare(in, p)
				})
			}
			call()
			if err != nil && isPanic(err) {
				t.count("panicked (left to C05 and C06)")
				continue
			}
			a := allocated(call)
			t.count("measurements")
			if lim := 8<<10 + 4*size + uint64(len(in))*(200+6*size); a > lim {
				t.failf("%d bytes allocated for %d bytes of input (error %s)", a, len(in), clip(fmt.Sprint(err), 300))
			}
			if dbg26 != nil {
				dbg26(js, len(in), size, a)
			}
			t.evaluated(fmt.Sprint(b.t)+string(in), len(in) > 0)
		}
	})
}

var dbg26 func(js bool, n int, size, a uint64)
