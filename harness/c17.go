package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C17", run: c17,
		rule:  "the first and last instants of every year from 1 to 9999, their neighbours, the limits, 1970 and random instants, in zones of every quarter hour and of odd seconds and with monotonic readings, are put into times at every kind of place (top level, fields, pointers, lists, arrays, nested, in interfaces, behind marshallers, JSON maps), encoded in binary and JSON, compared with bytes and text computed from the number of seconds alone, decoded and compared; hand-made encodings with seconds and nanoseconds out of range go to every decoder; distinct = distinct (place, instant, zone) and (place, bytes), non-trivial = not 1970-01-01",
		assum: []string{"JSON carries years 0 to 9999, as encoding/json does; a time.Time with a year in range in UTC counts as in range whatever its zone"}})
}

type c17T struct{ T time.Time }
type c17P struct{ T *time.Time }

// c17M is represented as a time. Its zero value is represented by the default time.
type c17M struct {
	sec, ns int64
	in      *time.Location
}

func (m c17M) time() time.Time {
	t := time.Unix(m.sec, m.ns)
	if m.in != nil {
		t = t.In(m.in)
	}
	return t
}

func c17m(t time.Time) c17M { return c17M{t.Unix(), int64(t.Nanosecond()), t.Location()} }

type c17Named struct {
	A int8
	T time.Time
	B string
}

func (m c17M) MarshalAmino() (time.Time, error)  { return m.time(), nil }
func (m *c17M) UnmarshalAmino(t time.Time) error { *m = c17m(t); return nil }

// c17place is a place where a time can be.
type c17place struct {
	name string
	t    reflect.Type
	put  func(v reflect.Value, t time.Time)
	get  func(v reflect.Value) []time.Time // what came back
	bin  func(body []byte) []byte          // nil: no binary encoding
	json func(s string) string
	in   int  // how many of the times that come back are the one put in; the others are c17fix
	self bool // the text is null for 1970 behind a pointer or the like: judge the decoding only
}

var c17fix = time.Unix(1234567890, 123456789).UTC()
var c17fixBin = []byte{8, 0xd2, 0x85, 0xd8, 0xcc, 4, 16, 0x95, 0x9a, 0xef, 0x3a}

const c17fixJSON = `"2009-02-13T23:31:30.123456789Z"`

// c17back: the default may be the zero value, without a location.
func c17back(m c17M) time.Time {
	if m == (c17M{}) {
		return epoch()
	}
	return m.time()
}

func c17codec() (*amino.Codec, map[string][]byte) {
	cdc := amino.NewCodec()
	cdc.RegisterInterface((*interface{})(nil), nil)
	cdc.RegisterConcrete(c17T{}, "c17/T", nil)
	cdc.RegisterConcrete(&c17Named{}, "c17/Named", nil)
	pre := map[string][]byte{}
	for _, n := range []string{"c17/T", "c17/Named"} {
		_, p := specDisfix(n)
		pre[n] = p[:]
	}
	return cdc, pre
}

func c17places(pre map[string][]byte) (ps []c17place) {
	fieldB := func(num byte) func(b []byte) []byte {
		return func(b []byte) []byte {
			if len(b) == 0 {
				return nil
			}
			return append([]byte{num<<3 | 2}, lp(b)...)
		}
	}
	elem := func(num byte, b []byte) []byte { return append([]byte{num<<3 | 2}, lp(b)...) }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	tt, pt := tTime, reflect.PtrTo(tTime)
	set := func(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf(t)) }
	setP := func(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf(&t)) }
	get := func(v reflect.Value) time.Time { return v.Interface().(time.Time) }
	one := func(t time.Time) []time.Time { return []time.Time{t} }
	add := func(p c17place) {
		if p.in == 0 {
			p.in = 1
		}
		ps = append(ps, p)
	}
	ident := func(b []byte) []byte { return b }
	jself := func(s string) string { return s }
	add(c17place{name: "top", t: tt, put: set, get: func(v reflect.Value) []time.Time { return one(get(v)) }, bin: ident, json: jself})
	add(c17place{name: "*top", t: pt, put: setP, get: func(v reflect.Value) []time.Time { return one(get(v.Elem())) }, bin: ident, json: jself})
	for i, f := range []struct {
		tag  string
		we   bool
		name string
	}{{"", false, "F"}, {`amino:"write_empty"`, true, "F"}, {`json:"t"`, false, "t"}, {`binary:"fixed64"`, false, "F"}} {
		we, name := f.we, f.name
		body := fieldB(1)
		body2 := fieldB(2)
		if we {
			body = func(b []byte) []byte { return elem(1, b) }
			body2 = func(b []byte) []byte { return elem(2, b) }
		}
		f0 := func(v reflect.Value) []time.Time { return one(get(v.Field(0))) }
		add(c17place{name: fmt.Sprint("field ", i), t: reflect.StructOf([]reflect.StructField{fld("F", tt, f.tag)}),
			put: func(v reflect.Value, t time.Time) { set(v.Field(0), t) }, get: f0, bin: body,
			json: func(s string) string { return `{"` + name + `":` + s + `}` }})
		add(c17place{name: fmt.Sprint("*field ", i), t: reflect.StructOf([]reflect.StructField{fld("F", pt, f.tag)}),
			put: func(v reflect.Value, t time.Time) { setP(v.Field(0), t) },
			get: func(v reflect.Value) []time.Time { return one(get(v.Field(0).Elem())) }, bin: func(b []byte) []byte { return elem(1, b) },
			json: func(s string) string { return `{"` + name + `":` + s + `}` }})
		add(c17place{name: fmt.Sprint("field between ", i), t: reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), ""), fld("F", tt, f.tag), fld("Z", reflect.TypeOf(""), "")}),
			put: func(v reflect.Value, t time.Time) {
				v.Field(0).SetInt(5)
				set(v.Field(1), t)
				v.Field(2).SetString("q")
			},
			get: func(v reflect.Value) []time.Time {
				if v.Field(0).Int() != 5 || v.Field(2).String() != "q" {
					return nil
				}
				return one(get(v.Field(1)))
			},
			bin:  func(b []byte) []byte { return cat([]byte{8, 10}, body2(b), []byte{26, 1, 'q'}) },
			json: func(s string) string { return `{"A":5,"` + name + `":` + s + `,"Z":"q"}` }})
	}
	ppt := reflect.PtrTo(pt)
	add(c17place{name: "**field", t: reflect.StructOf([]reflect.StructField{fld("F", ppt, "")}),
		put: func(v reflect.Value, t time.Time) { p := &t; v.Field(0).Set(reflect.ValueOf(&p)) },
		get: func(v reflect.Value) []time.Time { return one(get(v.Field(0).Elem().Elem())) }, bin: func(b []byte) []byte { return elem(1, b) },
		json: func(s string) string { return `{"F":` + s + `}` }})
	// lists: fixed, the time, fixed
	lists := func(et reflect.Type, put func(reflect.Value, time.Time), getE func(reflect.Value) time.Time, name string) {
		for _, arr := range []bool{false, true} {
			lt := reflect.SliceOf(et)
			if arr {
				lt = reflect.ArrayOf(3, et)
			}
			fill := func(v reflect.Value, t time.Time) {
				if !arr {
					v.Set(reflect.MakeSlice(lt, 3, 3))
				}
				put(v.Index(0), c17fix)
				put(v.Index(1), t)
				put(v.Index(2), c17fix)
			}
			read := func(v reflect.Value) []time.Time {
				if v.Len() != 3 {
					return nil
				}
				a, z := getE(v.Index(0)), getE(v.Index(2))
				if a != c17fix || z != c17fix {
					return nil
				}
				return one(getE(v.Index(1)))
			}
			n := "list of " + name
			if arr {
				n = "array of " + name
			}
			js := func(s string) string { return "[" + c17fixJSON + "," + s + "," + c17fixJSON + "]" }
			wrap := ident
			if et.Kind() == reflect.Ptr {
				wrap = func(b []byte) []byte { return elem(1, b) }
			}
			add(c17place{name: "top " + n, t: lt, put: fill, get: read,
				bin: func(b []byte) []byte { return wrap(cat(elem(1, c17fixBin), elem(1, b), elem(1, c17fixBin))) }, json: js})
			add(c17place{name: "field " + n, t: reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), ""), fld("L", lt, "")}),
				put: func(v reflect.Value, t time.Time) { fill(v.Field(1), t) }, get: func(v reflect.Value) []time.Time { return read(v.Field(1)) },
				bin:  func(b []byte) []byte { return cat(elem(2, c17fixBin), elem(2, b), elem(2, c17fixBin)) },
				json: func(s string) string { return `{"A":0,"L":` + js(s) + `}` }})
		}
	}
	lists(tt, set, get, "times")
	lists(pt, setP, func(v reflect.Value) time.Time { return get(v.Elem()) }, "*times")
	inner := reflect.StructOf([]reflect.StructField{fld("T", tt, "")})
	add(c17place{name: "nested", t: reflect.StructOf([]reflect.StructField{fld("In", inner, ""), fld("P", reflect.PtrTo(inner), "")}),
		put: func(v reflect.Value, t time.Time) {
			set(v.Field(0).Field(0), t)
			v.Field(1).Set(reflect.New(inner))
			set(v.Field(1).Elem().Field(0), t)
		},
		get: func(v reflect.Value) []time.Time {
			return []time.Time{get(v.Field(0).Field(0)), get(v.Field(1).Elem().Field(0))}
		},
		bin: func(b []byte) []byte {
			if len(b) == 0 {
				return []byte{18, 0} // the pointer is not nil
			}
			e := elem(1, b)
			return cat(elem(1, e), elem(2, e))
		},
		json: func(s string) string { return `{"In":{"T":` + s + `},"P":{"T":` + s + `}}` }, in: 2})
	add(c17place{name: "list of structs", t: reflect.SliceOf(inner),
		put: func(v reflect.Value, t time.Time) {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			set(v.Index(0).Field(0), t)
		},
		get: func(v reflect.Value) []time.Time { return one(get(v.Index(0).Field(0))) },
		bin: func(b []byte) []byte { return elem(1, fieldB(1)(b)) }, json: func(s string) string { return `[{"T":` + s + `}]` }})
	add(c17place{name: "map value", t: reflect.MapOf(reflect.TypeOf(""), tt),
		put: func(v reflect.Value, t time.Time) {
			v.Set(reflect.MakeMap(v.Type()))
			v.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(t))
		},
		get:  func(v reflect.Value) []time.Time { return one(get(v.MapIndex(reflect.ValueOf("k")))) },
		json: func(s string) string { return `{"k":` + s + `}` }})
	// in interfaces
	add(c17place{name: "interface", t: reflect.StructOf([]reflect.StructField{fld("I", tAny, "")}),
		put: func(v reflect.Value, t time.Time) { v.Field(0).Set(reflect.ValueOf(c17T{t})) },
		get: func(v reflect.Value) []time.Time { x, _ := v.Field(0).Interface().(c17T); return one(x.T) },
		bin: func(b []byte) []byte { return elem(1, cat(pre["c17/T"], fieldB(1)(b))) },
		json: func(s string) string {
			return `{"I":{"type":"c17/T","value":{"T":` + s + `}}}`
		}})
	add(c17place{name: "registered top", t: reflect.TypeOf(c17Named{}),
		put: func(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf(c17Named{A: 1, T: t})) },
		get: func(v reflect.Value) []time.Time { return one(v.Interface().(c17Named).T) },
		bin: func(b []byte) []byte { return cat(pre["c17/Named"], []byte{8, 2}, fieldB(2)(b)) },
		json: func(s string) string {
			return `{"type":"c17/Named","value":{"A":1,"T":` + s + `,"B":""}}`
		}})
	add(c17place{name: "interface list", t: reflect.SliceOf(tAny),
		put: func(v reflect.Value, t time.Time) {
			v.Set(reflect.ValueOf([]interface{}{&c17Named{A: 1, T: t}, c17T{t}}))
		},
		get: func(v reflect.Value) []time.Time {
			x := v.Interface().([]interface{})
			a, _ := x[0].(*c17Named)
			b, _ := x[1].(c17T)
			if a == nil {
				return nil
			}
			return []time.Time{a.T, b.T}
		},
		bin: func(b []byte) []byte {
			return elem(1, cat(elem(1, cat(pre["c17/Named"], []byte{8, 2}, fieldB(2)(b))), elem(1, cat(pre["c17/T"], fieldB(1)(b)))))
		},
		json: func(s string) string {
			return `[{"type":"c17/Named","value":{"A":1,"T":` + s + `,"B":""}},{"type":"c17/T","value":{"T":` + s + `}}]`
		}, in: 2})
	// behind marshallers
	add(c17place{name: "marshaller top", t: reflect.TypeOf(c17M{}),
		put: func(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf(c17m(t))) },
		get: func(v reflect.Value) []time.Time { return one(c17back(v.Interface().(c17M))) }, bin: ident, json: jself})
	add(c17place{name: "marshaller list", t: reflect.SliceOf(reflect.TypeOf(c17M{})),
		put: func(v reflect.Value, t time.Time) { v.Set(reflect.ValueOf([]c17M{c17m(t), c17m(c17fix)})) },
		get: func(v reflect.Value) []time.Time {
			x := v.Interface().([]c17M)
			if len(x) != 2 || c17back(x[1]) != c17fix {
				return nil
			}
			return one(c17back(x[0]))
		},
		bin: func(b []byte) []byte { return cat(elem(1, b), elem(1, c17fixBin)) }, json: func(s string) string { return "[" + s + "," + c17fixJSON + "]" }})
	return
}

// civil is the date of a number of days since 1970-01-01, by arithmetic of its own.
func civil(days int64) (y, m, d int64) {
	z := days + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	return
}

func c17text(sec, ns int64) string {
	days := sec / 86400
	rest := sec % 86400
	if rest < 0 {
		rest += 86400
		days--
	}
	y, m, d := civil(days)
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, rest/3600, rest/60%60, rest%60)
	if ns > 0 {
		s += strings.TrimRight(fmt.Sprintf(".%09d", ns), "0")
	}
	return `"` + s + `Z"`
}

func c17body(sec, ns int64) []byte {
	out := []byte{}
	if sec != 0 {
		x := big.NewInt(sec)
		if sec < 0 {
			x.Add(x, new(big.Int).Lsh(big.NewInt(1), 64))
		}
		out = append(append(out, 8), bigUv(x)...)
	}
	if ns != 0 {
		out = append(append(out, 16), bigUv(big.NewInt(ns))...)
	}
	return out
}

type c17env struct {
	cdc    *amino.Codec
	places []c17place
}

func c17(c *ctx) {
	cdc, pre := c17codec()
	e := &c17env{cdc, c17places(pre)}
	np := len(e.places)
	// every year
	c.run("years", 101, func(t *T) {
		for y := t.idx * 100; y < t.idx*100+100; y++ {
			if y > 10000 {
				break
			}
			s := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
			for _, x := range [][2]int64{{s, 0}, {s - 1, 999999999}, {s, 1}, {s + t.rng.Int63n(366*86400), t.rng.Int63n(1e9)}} {
				e.instant(t, &e.places[t.rng.Intn(np)], x[0], x[1], c17zone(t.rng))
			}
		}
	})
	var limits [][2]int64
	for _, s := range []int64{minSec, maxSec, 0, 1 << 31, 1 << 32, -1 << 31, -62167219200, -62167219200 - 1, math.MinInt64, math.MaxInt64, -1 << 62, 1<<63 - 62135596801} {
		for d := int64(-2); d <= 2; d++ {
			if (s < 0 && s+d > 0 && s < -1<<61) || (s > 1<<61 && s+d < 0) {
				continue
			}
			for _, ns := range []int64{0, 1, 999999999, 1000, 127, 128} {
				limits = append(limits, [2]int64{s + d, ns})
			}
		}
	}
	c.run("limits", np, func(t *T) {
		for _, x := range limits {
			e.instant(t, &e.places[t.idx], x[0], x[1], time.UTC)
			e.instant(t, &e.places[t.idx], x[0], x[1], c17zone(t.rng))
		}
	})
	c.run("zones", 130, func(t *T) {
		off := (t.idx - 60) * 900
		if t.idx > 120 {
			off = t.rng.Intn(2*86399) - 86399
		}
		z := time.FixedZone("Z", off)
		for i := range e.places {
			tm := genTime(t.rng)
			for k := 0; k < 2; k++ {
				e.instant(t, &e.places[i], tm.Unix(), int64(tm.Nanosecond()), z)
				e.instant(t, &e.places[i], 0, 0, z)
				e.instant(t, &e.places[i], minSec+t.rng.Int63n(50000), 0, z)
				e.instant(t, &e.places[i], maxSec-1-t.rng.Int63n(50000), 0, z)
			}
		}
	})
	c.run("random", c.n(600), func(t *T) {
		for i := 0; i < 40; i++ {
			tm := genTime(t.rng)
			e.instant(t, &e.places[t.rng.Intn(np)], tm.Unix(), int64(tm.Nanosecond()), c17zone(t.rng))
		}
	})
	c.run("nanos", c.n(40), func(t *T) {
		// every number of decimals
		for i := int64(1); i < 1e9; i *= 10 {
			for d := int64(1); d < 10; d++ {
				tm := genTime(t.rng)
				e.instant(t, &e.places[t.rng.Intn(np)], tm.Unix(), i*d, c17zone(t.rng))
			}
		}
	})
	c.run("monotonic", c.n(20), func(t *T) {
		for i := range e.places {
			now := time.Now().Add(time.Duration(t.rng.Int63n(1 << 50)))
			if !strings.Contains(now.String(), "m=") {
				t.failf("the clock has no monotonic reading, this cannot be tested")
			}
			if t.rng.Intn(2) == 0 {
				now = now.In(c17zone(t.rng))
			}
			e.judge(t, &e.places[i], now, now.Unix(), int64(now.Nanosecond()))
			t.count("with monotonic reading")
		}
	})
	c.run("hostile", c.n(20), func(t *T) {
		for i := range e.places {
			e.hostile(t, &e.places[i])
		}
	})
	c.run("hostile JSON", c.n(20), func(t *T) {
		for i := range e.places {
			e.hostileJSON(t, &e.places[i])
		}
	})
}

func c17zone(r *rand.Rand) *time.Location {
	switch r.Intn(5) {
	case 0:
		return time.UTC
	case 1:
		return time.Local
	case 2:
		return time.FixedZone("Q", (r.Intn(113)-56)*900)
	case 3:
		return time.FixedZone("", r.Intn(2*86399)-86399)
	}
	return zones[r.Intn(len(zones))]
}

func (e *c17env) instant(t *T, p *c17place, sec, ns int64, z *time.Location) {
	tm := time.Unix(sec, ns).In(z)
	if tm.Unix() != sec || int64(tm.Nanosecond()) != ns {
		return // package time cannot hold it
	}
	e.judge(t, p, tm, sec, ns)
}

func (e *c17env) judge(t *T, p *c17place, tm time.Time, sec, ns int64) {
	what := fmt.Sprintf("%s with time %d s %d ns (%v)", p.name, sec, ns, tm)
	v := reflect.New(p.t).Elem()
	p.put(v, tm)
	want := time.Unix(sec, ns).UTC()
	in := sec >= minSec && sec < maxSec
	same := func(how string, got reflect.Value, from interface{}) {
		ts := p.get(got)
		if len(ts) != p.in {
			t.failf("%s: %s: what is around the time does not come back: %s from %v", what, how, show(got), from)
		}
		for _, x := range ts {
			if x != want { // same wall clock, no monotonic, UTC
				t.failf("%s: %s: comes back as %v (%#v) from %v", what, how, x, x, from)
			}
		}
		t.count("times came back")
	}
	t.evaluated(fmt.Sprint(p.name, sec, ns, tm.Location()), sec != 0 || ns != 0)
	if p.bin != nil {
		bz, err := marshalBare(e.cdc, v.Interface())
		if !in {
			var ite amino.InvalidTimeErr
			if err == nil || isPanic(err) {
				t.failf("%s: out of range, but encodes to %x, error %v", what, bz, err)
			}
			if !errors.As(err, &ite) {
				t.count("out of range refused with another type of error")
			}
			t.count("out of range refused")
			// and the decoder refuses it as well
			if sec != 0 {
				e.refuse(t, p, p.bin(c17body(sec, ns)), what)
			}
		} else {
			exp := p.bin(c17body(sec, ns))
			if err != nil || !bytes.Equal(bz, exp) {
				t.failf("%s: encodes to %x, error %v; should be %x", what, bz, err, exp)
			}
			got, err := unmarshalBare(e.cdc, bz, p.t)
			if err != nil {
				t.failf("%s: decoding %x: %v", what, bz, err)
			}
			same("binary", got, fmt.Sprintf("%x", bz))
		}
	}
	y, _, _ := civil(floorDiv(sec, 86400))
	if sec < -1<<40 || sec > 1<<40 {
		y = -1
	}
	bz, err := marshalJSON(e.cdc, v.Interface())
	if y < 0 || y > 9999 {
		if err == nil || isPanic(err) {
			t.failf("%s: has no JSON, but encodes to %s, error %v", what, bz, err)
		}
		t.count("out of range refused in JSON")
		return
	}
	exp := p.json(c17text(sec, ns))
	if err != nil || string(bz) != exp {
		t.failf("%s: JSON %s, error %v; should be %s", what, bz, err, exp)
	}
	got, err := unmarshalJSON(e.cdc, bz, p.t)
	if err != nil {
		t.failf("%s: decoding %s: %v", what, bz, err)
	}
	same("JSON", got, string(bz))
	if t.rng.Intn(3000) == 0 {
		t.sample("%s: JSON %s", what, bz)
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func (e *c17env) refuse(t *T, p *c17place, bz []byte, what string) {
	got, err := unmarshalBare(e.cdc, bz, p.t)
	if err == nil {
		t.failf("%s: decoding %x succeeds: %s", what, bz, show(got))
	}
	if isPanic(err) {
		t.failf("%s: decoding %x: %v", what, bz, err)
	}
	t.count("bytes refused")
	t.evaluated(fmt.Sprintf("%s %x", p.name, bz), true)
}

// hostile: bodies of times, some malformed, at every place.
func (e *c17env) hostile(t *T, p *c17place) {
	if p.bin == nil {
		return
	}
	r := t.rng
	for i := 0; i < 60; i++ {
		var body []byte
		secs := []uint64{0, 1, uint64(maxSec), uint64(maxSec - 1), uint64(minSec & (1<<64 - 1)), 1<<63 - 1, 1 << 63, 1<<64 - 1, uint64(r.Int63n(maxSec)), r.Uint64(), uint64(1<<64 - 62135596801), 1 << 62}
		nss := []uint64{0, 1, 999999999, 1000000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<63 + 5, 1<<64 - 1, uint64(r.Int63n(1e9)), uint64(r.Int63n(1 << 33)), r.Uint64()}
		ns := nss[r.Intn(len(nss))]
		sec := secs[r.Intn(len(secs))]
		switch r.Intn(6) {
		case 0:
			body = append(key(2, 0), uv(ns)...)
		case 1:
			body = append(key(1, 0), uv(sec)...)
		case 2:
			body = append(append(append(key(1, 0), uv(sec)...), key(2, 0)...), padUv(ns, r.Intn(3))...)
		case 3:
			body = mutateBytes(r, append(append(append(key(1, 0), uv(sec)...), key(2, 0)...), uv(ns)...))
		case 4:
			k := []int{0, 0, 1, 2, 5}
			body = append(append(append(key(uint32(r.Intn(4)), k[r.Intn(5)]), uv(sec)...), key(uint32(r.Intn(4)), k[r.Intn(5)])...), uv(ns)...)
		case 5:
			body = append(append(append(key(1, 0), uv(sec)...), key(2, 0)...), uv(ns)...)
			body = append(body, []byte{8, 16, 24, 0, 1}[r.Intn(5)], byte(r.Intn(3)))
		}
		if len(body) == 0 {
			continue
		}
		want, werr := specDecTime(body)
		bz := p.bin(body)
		if werr != nil {
			e.refuse(t, p, bz, fmt.Sprintf("%s with the malformed time %x", p.name, body))
			continue
		}
		got, err := unmarshalBare(e.cdc, bz, p.t)
		if err != nil {
			t.failf("%s with the time %x: decoding %x: %v", p.name, body, bz, err)
		}
		for _, x := range p.get(got) {
			if x != want {
				t.failf("%s with the time %x: decoding %x yields %v, should be %v", p.name, body, bz, x, want)
			}
		}
		t.count("bytes accepted")
		t.evaluated(fmt.Sprintf("%s %x", p.name, bz), true)
	}
}

// hostileJSON: times that are not UTC or do not exist must be refused.
func (e *c17env) hostileJSON(t *T, p *c17place) {
	r := t.rng
	num := func(n int) string { return fmt.Sprintf("%02d", r.Intn(n)) }
	for i := 0; i < 30; i++ {
		tm := genTime(r)
		good := strings.Trim(c17text(tm.Unix(), int64(tm.Nanosecond())), `"`)
		var s string
		switch r.Intn(10) {
		case 0:
			s = `"` + good[:len(good)-1] + []string{"+00:00", "+01:00", "-07:30", "z", "", "ZZ", "Z ", "+0000", "UTC"}[r.Intn(9)] + `"`
		case 1:
			s = `"` + fmt.Sprintf("%04d", r.Intn(10000)) + "-" + fmt.Sprint(13+r.Intn(80)) + "-01T00:00:00Z" + `"`
		case 2:
			s = `"2019-02-` + fmt.Sprint(29+r.Intn(60)) + `T` + num(24) + `:00:00Z"`
		case 3:
			s = `"2019-02-03T` + fmt.Sprint(24+r.Intn(70)) + `:00:00Z"`
		case 4:
			s = `"2019-02-03T04:` + fmt.Sprint(60+r.Intn(40)) + `:00Z"`
		case 5:
			s = `"2019-02-03T04:05:` + fmt.Sprint(60+r.Intn(40)) + `Z"`
		case 6:
			s = `"2019-02-03 04:05:06Z"`
		case 7:
			s = []string{"0", "1549166706", `""`, "[]", "{}", "true", `"Z"`, `"now"`, `"10000-01-01T00:00:00Z"`, `"-001-01-01T00:00:00Z"`, `"19-02-03T04:05:06Z"`, `{"seconds":1}`}[r.Intn(12)]
		case 8:
			k := 5 + r.Intn(14)
			s = `"` + good[:k] + "x" + good[k+1:] + `"`
		case 9:
			k := r.Intn(19)
			if k == 11 || k == 12 {
				k = 13 // package time takes hours of one digit
			}
			s = `"` + good[:k] + good[k+1:] + `"`
		}
		in := p.json(s)
		if !json.Valid([]byte(in)) {
			t.failf("bad test: %s", in)
		}
		got, err := unmarshalJSON(e.cdc, []byte(in), p.t)
		if err == nil || isPanic(err) {
			t.failf("%s: decoding %s, which is no time in UTC: %s, error %v", p.name, in, show(got), err)
		}
		t.count("texts refused")
		t.evaluated(p.name+in, true)
	}
}
