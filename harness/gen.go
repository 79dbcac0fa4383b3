package main

import (
	"fmt"
	"go/ast"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// fopt is the model of the options of a field, as the documentation of the
// tags has them. They hold for everything in the field, up to the next struct.
type fopt struct {
	fixed32, fixed64 bool
	unsafe           bool
	writeEmpty       bool
	emptyElems       bool
	omitempty        bool
	skip             bool
	name             string
}

func parseTag(f reflect.StructField) (o fopt) {
	j, has := f.Tag.Lookup("json")
	if has && j == "-" {
		o.skip = true
		return
	}
	parts := strings.Split(j, ",")
	o.name = parts[0]
	if o.name == "" {
		o.name = f.Name
	}
	o.omitempty = len(parts) > 1 && parts[1] == "omitempty"
	switch f.Tag.Get("binary") {
	case "fixed32":
		o.fixed32 = true
	case "fixed64":
		o.fixed64 = true
	}
	for _, t := range strings.Split(f.Tag.Get("amino"), ",") {
		switch t {
		case "unsafe":
			o.unsafe = true
		case "write_empty":
			o.writeEmpty = true
		case "empty_elements":
			o.emptyElems = true
		}
	}
	return
}

// encoded says whether a struct field takes part in encoding at all.
func encoded(f reflect.StructField) bool {
	if f.PkgPath != "" || !ast.IsExported(f.Name) {
		return false
	}
	return f.Tag.Get("json") != "-"
}

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// gen generates types and values.
type gen struct {
	rng  *rand.Rand
	u    *universe
	json bool // for JSON: with maps, any lists of lists, types with JSON methods
	bare bool // no interfaces (for universes without registrations)

	noTimePtr   bool // no pointers to time (whose nil comes back as 1970)
	noMarshaler bool
	noTags      bool
	canonical   bool // only values that come back exactly as they are
	proto       bool // only what has a proto3 counterpart
	richTags    bool
	utf8        bool // only valid strings

	budget int // of values
}

func newGen(rng *rand.Rand, u *universe) *gen { return &gen{rng: rng, u: u, budget: 400} }

type pos int

const (
	posTop pos = iota
	posField
	posElem // of a slice or array
	posPtr  // behind a pointer
	posMap  // value of a map
)

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf([4]byte{}), reflect.TypeOf([1]byte{}), reflect.TypeOf([20]byte{}), reflect.TypeOf([0]byte{}),
	reflect.TypeOf([33]byte{}),
}

var namedScalars = append([]reflect.Type{
	reflect.TypeOf(NInt(0)), reflect.TypeOf(NInt8(0)), reflect.TypeOf(NInt16(0)), reflect.TypeOf(NInt32(0)), reflect.TypeOf(NInt64(0)),
	reflect.TypeOf(NUint(0)), reflect.TypeOf(NUint8(0)), reflect.TypeOf(NUint16(0)), reflect.TypeOf(NUint32(0)), reflect.TypeOf(NUint64(0)),
	reflect.TypeOf(NBool(false)), reflect.TypeOf(NStr("")), reflect.TypeOf(NBytes(nil)), reflect.TypeOf(NBytes2(nil)),
	reflect.TypeOf(NArr4{}), reflect.TypeOf(NArr3n{}), twinS1(), twinS2(),
}, lyingScalars...)

var poolStructs = append(append([]reflect.Type{
	reflect.TypeOf(Empty{}), reflect.TypeOf(Leaf{}), reflect.TypeOf(Leaf{}), reflect.TypeOf(LeafP{}), reflect.TypeOf(Node{}), reflect.TypeOf(WithTimes{}),
	reflect.TypeOf(Hidden{}), reflect.TypeOf(Embeds{}), reflect.TypeOf(Wide{}), reflect.TypeOf(WideTimes{}), reflect.TypeOf(Äß{}), reflect.TypeOf(CSt{}), reflect.TypeOf(CPtr{}), reflect.TypeOf(CTimes{}),
}, twinStructs...), lyingStructs...)

var poolIfaceStructs = []reflect.Type{reflect.TypeOf(Ifaces{}), reflect.TypeOf(CIf{})}

var poolLists = append(append([]reflect.Type{reflect.TypeOf(NInts(nil)), reflect.TypeOf(NStrs(nil)), reflect.TypeOf(NLeaves(nil)),
	reflect.TypeOf(CStrs(nil)), reflect.TypeOf(CLeaves(nil)), reflect.TypeOf(CInts(nil)), reflect.TypeOf(CAr2{}), reflect.TypeOf(CArSt{})}, twinLists...), lyingLists...)

var marshalers = []reflect.Type{reflect.TypeOf(MStr{}), reflect.TypeOf(MSt{}), reflect.TypeOf(MInt(0)), reflect.TypeOf(MHex(nil)),
	reflect.TypeOf(MList{}), reflect.TypeOf(MPair("")), reflect.TypeOf(MCsv(nil)), reflect.TypeOf(MPtr{}), reflect.TypeOf(MPtrS(nil))}

var jsonMarshalers = []reflect.Type{reflect.TypeOf(JStr{}), reflect.TypeOf(JInt(0)),
	reflect.TypeOf(JPtr{}), reflect.TypeOf(TInt(0)), reflect.TypeOf(TUint(0))}

// isMarshaler: the receiver may also be the pointer.
func isMarshaler(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
		return false
	}
	_, ok := reflect.PtrTo(t).MethodByName("MarshalAmino")
	return ok
}

func reprType(t reflect.Type) reflect.Type {
	m, _ := reflect.PtrTo(t).MethodByName("MarshalAmino")
	return m.Type.Out(0)
}

func callMarshal(v reflect.Value) []reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.MethodByName("MarshalAmino").Call(nil)
}

func isList(t reflect.Type) bool { return t.Kind() == reflect.Slice || t.Kind() == reflect.Array }

func isByteList(t reflect.Type) bool { return isList(t) && t.Elem().Kind() == reflect.Uint8 }

// list (of lists) of bytes
func multiBytes(t reflect.Type) bool {
	for isList(t) {
		t = t.Elem()
	}
	return t.Kind() == reflect.Uint8
}

// typ generates a type for a position. o are the options in effect.
func (g *gen) typ(depth int, p pos, o fopt) reflect.Type {
	r := g.rng
	for {
		k := r.Intn(100)
		if depth <= 0 && k >= 45 {
			k = r.Intn(45)
		}
		switch {
		case k < 26:
			return scalarTypes[r.Intn(len(scalarTypes))]
		case k < 32:
			return namedScalars[r.Intn(len(namedScalars))]
		case k < 36:
			return tTime
		case k < 41:
			if !o.unsafe {
				continue
			}
			return []reflect.Type{reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(NFloat(0)), reflect.TypeOf(LyF64(0))}[r.Intn(4)]
		case k < 45:
			if g.noMarshaler {
				continue
			}
			t := marshalers[r.Intn(len(marshalers))]
			if p == posElem && isList(t) && !g.json && !multiBytes(t) {
				continue // lists of lists are refused
			}
			if g.json && r.Intn(3) == 0 {
				t = jsonMarshalers[r.Intn(len(jsonMarshalers))]
			}
			return t
		case k < 53:
			if !g.bare && r.Intn(3) == 0 {
				return poolIfaceStructs[r.Intn(len(poolIfaceStructs))]
			}
			t := poolStructs[r.Intn(len(poolStructs))]
			if g.noTimePtr && hasTimePtr(t, nil) {
				continue
			}
			return t
		case k < 64:
			return g.structType(depth - 1)
		case k < 74:
			e := g.typ(depth-1, posPtr, o)
			if e.Kind() == reflect.Interface || g.noTimePtr && deref(e) == tTime {
				continue
			}
			if !g.json && isList(e) && !isByteList(e) && !isMarshaler(e) && listOfLists(e) && !multiBytes(e) {
				continue
			}
			return reflect.PtrTo(e)
		case k < 90:
			if k < 77 {
				t := poolLists[r.Intn(len(poolLists))]
				if p == posElem && !g.json {
					continue
				}
				return t
			}
			e := g.typ(depth-1, posElem, o)
			if !g.json {
				if !listOK(e, p) {
					continue
				}
			} else if e.Kind() == reflect.Uint8 && (r.Intn(4) != 0) {
				continue
			}
			if r.Intn(4) == 0 {
				n := []int{0, 1, 2, 3, 5}[r.Intn(5)]
				if k := e.Kind(); k < reflect.Array && r.Intn(4) == 0 { // hashes, keys, and lengths of two bytes
					n = []int{16, 20, 32, 33, 64, 65, 127, 128, 129, 200}[r.Intn(10)]
				}
				return reflect.ArrayOf(n, e)
			}
			return reflect.SliceOf(e)
		case k < 96:
			if g.bare {
				continue
			}
			return ifaceTypes[r.Intn(len(ifaceTypes))]
		default:
			if !g.json {
				continue
			}
			if r.Intn(6) == 0 {
				return reflect.TypeOf(LyMap(nil))
			}
			kt := reflect.TypeOf("")
			if r.Intn(3) == 0 {
				kt = []reflect.Type{reflect.TypeOf(NStr("")), reflect.TypeOf(TKey("")), reflect.TypeOf(LyStr(""))}[r.Intn(3)]
			}
			return reflect.MapOf(kt, g.typ(depth-1, posMap, o))
		}
	}
}

// listOfLists: the elements are directly lists.
func listOfLists(t reflect.Type) bool { return isList(t) && isList(t.Elem()) }

// listOK says whether a list with elements e may be at position p in binary.
func listOK(e reflect.Type, p pos) bool {
	if !isList(e) {
		return true
	}
	if multiBytes(e) {
		return true
	}
	if isMarshaler(e) {
		return false
	}
	// Lists of lists are allowed just for fields, and just two levels.
	return p == posField && !isList(e.Elem())
}

func hasTimePtr(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr:
		if deref(t) == tTime {
			return true
		}
		return hasTimePtr(t.Elem(), seen)
	case reflect.Slice, reflect.Array, reflect.Map:
		return hasTimePtr(t.Elem(), seen)
	case reflect.Struct:
		if t == tTime {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if hasTimePtr(t.Field(i).Type, seen) {
				return true
			}
		}
	case reflect.Interface:
		return true // may hold CTimes
	}
	return false
}

var jsonNames = []string{"x", "Y", "some_name", "with space", "quo\"te", "<a&b>", "ünïcödé", "日本", "type", "value", "0", "-1", "a.b/c", "-", "--"}

func (g *gen) tag(i int, used map[string]bool) (string, fopt) {
	r := g.rng
	var o fopt
	if g.noTags {
		return "", o
	}
	var parts []string
	rich := 1
	if g.richTags {
		rich = 2
	}
	if r.Intn(5) < 2*rich {
		name := ""
		if r.Intn(2) == 0 {
			name = jsonNames[r.Intn(len(jsonNames))]
			if used[name] {
				name = ""
			}
			used[name] = true
		}
		if strings.ContainsAny(name, ",") {
			name = ""
		}
		switch r.Intn(5) {
		case 0:
			if r.Intn(2) == 0 {
				name = "-"
				o.skip = true
			}
		case 1, 2:
			name += ",omitempty"
			o.omitempty = true
		case 3:
			name += ",string"
		}
		if name == "-" && !o.skip {
			name = "-," // the name
		}
		parts = append(parts, "json:"+strconv.Quote(name))
	}
	if r.Intn(6) < 2*rich {
		v := []string{"fixed32", "fixed64", "varint"}[r.Intn(3)]
		o.fixed32, o.fixed64 = v == "fixed32", v == "fixed64"
		parts = append(parts, `binary:"`+v+`"`)
	}
	if r.Intn(6) < 2*rich {
		var as []string
		if r.Intn(2) == 0 {
			as = append(as, "unsafe")
			o.unsafe = true
		}
		if r.Intn(3) == 0 {
			as = append(as, "write_empty")
			o.writeEmpty = true
		}
		if r.Intn(3) == 0 {
			as = append(as, "empty_elements")
			o.emptyElems = true
		}
		if r.Intn(6) == 0 {
			as = append(as, "other")
		}
		parts = append(parts, `amino:"`+strings.Join(as, ",")+`"`)
	}
	return strings.Join(parts, " "), o
}

// Names with them are exported as well.
var upperCase = []string{"Z", "É", "Ω", "Ж", "Ǆ", "Þa", "𝐀"}

// Gap fills structs, so that other fields have higher numbers. Most are zero.
type Gap int8

var tGap = reflect.TypeOf(Gap(0))

func (g *gen) structType(depth int) reflect.Type {
	r := g.rng
	n := r.Intn(6)
	if r.Intn(12) == 0 {
		n = 14 + r.Intn(6)
	}
	var fields []reflect.StructField
	used := map[string]bool{"": true}
	first := "F"
	if r.Intn(10) == 0 && !g.proto {
		first = upperCase[r.Intn(len(upperCase))]
	}
	for i := 0; i < n; i++ {
		used[fmt.Sprintf("%s%d", first, i)] = true
	}
	gap, gapAt := 0, 0
	if n > 0 && r.Intn(20) == 0 && !g.proto {
		// field numbers with more bits
		gap = []int{10, 27, 58, 122, 250}[r.Intn(5)] + r.Intn(8)
		if r.Intn(4) > 0 && gap > 64 {
			gap = 27
		}
		gapAt = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		if i == gapAt {
			for k := 0; k < gap; k++ {
				fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Gap%d", k), Type: tGap})
			}
		}
		if r.Intn(15) == 0 {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("u%d", i), PkgPath: "main", Type: reflect.TypeOf(0)})
			continue
		}
		tag, o := g.tag(i, used)
		d := depth
		if n > 8 {
			d = 0
		}
		var t reflect.Type
		if o.skip && r.Intn(3) == 0 {
			// fields that are not encoded may be of any type
			t = []reflect.Type{reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(map[int]int{}), reflect.TypeOf(complex(1, 1)), tINever}[r.Intn(5)]
		} else {
			t = g.typ(d, posField, o)
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("%s%d", first, i), Type: t, Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fields)
}

// topType generates a type to be encoded by itself.
func (g *gen) topType(depth int) reflect.Type {
	r := g.rng
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return g.structType(depth)
	case 4:
		if !g.bare {
			return ifaceTypes[r.Intn(len(ifaceTypes))]
		}
	case 5:
		if !g.bare {
			var cs []reflect.Type
			for _, ri := range g.u.regs {
				if (g.json || binOK(ri.rt)) && !(g.noTimePtr && hasTimePtr(ri.rt, nil)) {
					cs = append(cs, ri.rt)
				}
			}
			return cs[r.Intn(len(cs))]
		}
	}
	return g.typ(depth, posTop, fopt{})
}

//----------------------------------------
// values

var intEdges = []int64{0, 0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, 16383, 16384, 32767, 32768, -32768, -32769, 65535, 65536,
	1<<21 - 1, 1 << 21, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, -1 << 63, -1<<63 + 1}

func genInt(r *rand.Rand, bits uint) int64 {
	var v int64
	switch r.Intn(3) {
	case 0:
		v = intEdges[r.Intn(len(intEdges))]
	case 1:
		v = int64(r.Uint64()) >> uint(r.Intn(64))
	default:
		v = int64(r.Intn(300) - 100)
	}
	return v << (64 - bits) >> (64 - bits)
}

func genUint(r *rand.Rand, bits uint) uint64 {
	var v uint64
	switch r.Intn(3) {
	case 0:
		v = uint64(intEdges[r.Intn(len(intEdges))])
	case 1:
		v = r.Uint64() >> uint(r.Intn(64))
	default:
		v = uint64(r.Intn(300))
	}
	return v << (64 - bits) >> (64 - bits)
}

var strEdges = []string{"", "a", "\x00", "null", `"`, `\`, "<&>", "\u2028\u2029", "ünï", "日本語", "\x7f\x01\x1f", "😀", "{}", `{"type":"x","value":1}`, "2018-01-01T00:00:00Z", "\n\t\r\b\f",
	strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("ä", 150)}

func (g *gen) str() string {
	r := g.rng
	switch r.Intn(4) {
	case 0:
		return strEdges[r.Intn(len(strEdges))]
	case 1:
		n := r.Intn(6)
		var rs []rune
		for i := 0; i < n; i++ {
			c := rune(r.Intn(0x11000))
			if !utf8.ValidRune(c) {
				c = 'x'
			}
			rs = append(rs, c)
		}
		return string(rs)
	case 2:
		if !g.utf8 && !g.json {
			return string(g.bytes())
		}
		fallthrough
	default:
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(' ' + r.Intn(95))
		}
		return string(b)
	}
}

func genName(r *rand.Rand) string {
	switch r.Intn(3) {
	case 0:
		return strEdges[r.Intn(len(strEdges))] + "/" + strconv.Itoa(r.Intn(1000))
	case 1:
		return minedZeros[r.Intn(len(minedZeros))]
	}
	return fmt.Sprintf("com.example/%c%d", 'A'+rune(r.Intn(26)), r.Intn(100000))
}

func (g *gen) bytes() []byte {
	r := g.rng
	n := 0
	switch r.Intn(8) {
	case 0:
	case 1:
		n = 127 + r.Intn(3)
	case 2:
		n = 300
		if r.Intn(40) == 0 {
			n = 16383 + r.Intn(3)
		}
	default:
		n = 1 + r.Intn(9)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

var zones = []*time.Location{time.UTC, time.FixedZone("A", 3600), time.FixedZone("B", -12*3600), time.FixedZone("C", 5*3600+1800), time.Local}

const (
	minSec = -62135596800
	maxSec = 253402300800 // exclusive
)

func genTime(r *rand.Rand) time.Time {
	var sec int64
	switch r.Intn(7) {
	case 0:
		sec = 0
	case 1:
		sec = []int64{minSec, minSec + 1, maxSec - 1, -1, 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 127, 128}[r.Intn(11)]
	case 2:
		sec = r.Int63n(maxSec-minSec) + minSec
	default:
		sec = r.Int63n(4e9) - 2e9
	}
	var ns int64
	switch r.Intn(4) {
	case 0:
		ns = 0
	case 1:
		ns = []int64{1, 127, 128, 999, 1000, 1e6, 999999999}[r.Intn(7)]
	default:
		ns = r.Int63n(1e9)
	}
	t := time.Unix(sec, ns)
	switch r.Intn(3) {
	case 0:
		return t.UTC()
	case 1:
		z := zones[r.Intn(len(zones))]
		return t.In(z)
	}
	if r.Intn(10) == 0 {
		return time.Time{}
	}
	return t.UTC()
}

// value generates a value of type t. o are the options in effect.
func (g *gen) value(t reflect.Type, o fopt) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, o, 0)
	return v
}

// length of a list; fewer the deeper, and when the budget ran out.
func (g *gen) length(depth int) int {
	r := g.rng
	if g.budget <= 0 {
		return 0
	}
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	}
	n := 1 + r.Intn(4)
	if depth <= 1 && r.Intn(30) == 0 {
		n = 130 // multi-byte length
	}
	if depth > 3 {
		n = r.Intn(2)
	}
	return n
}

func (g *gen) fill(v reflect.Value, o fopt, depth int) {
	r := g.rng
	g.budget--
	t := v.Type()
	if t == tTime {
		v.Set(reflect.ValueOf(genTime(r)))
		return
	}
	if t == tGap {
		g.budget++
		if r.Intn(60) == 0 {
			v.SetInt(genInt(r, 8))
		}
		return
	}
	if g.fillHooked(v, o, depth) {
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(r, uint(t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUint(r, uint(t.Bits())))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.float(t.Kind() == reflect.Float32))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Struct:
		if depth > 0 && r.Intn(12) == 0 {
			setDefaults(v)
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !encoded(f) {
				continue
			}
			if r.Intn(6) == 0 {
				continue // zero
			}
			g.fill(v.Field(i), parseTag(f), depth+1)
		}
	case reflect.Ptr:
		if r.Intn(4) == 0 || depth > 12 || g.budget <= 0 && depth > 2 {
			return
		}
		p := reflect.New(t.Elem())
		if r.Intn(5) != 0 {
			g.fill(p.Elem(), o, depth+1)
		}
		v.Set(p)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Intn(5) == 0 {
				return
			}
			v.SetBytes(g.bytes())
			return
		}
		n := g.length(depth)
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
		g.fillElems(v, o, depth)
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Intn(4) != 0 {
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetUint(uint64(r.Intn(256)))
				}
			}
			return
		}
		g.fillElems(v, o, depth)
	case reflect.Map:
		if r.Intn(5) == 0 {
			return
		}
		n := g.length(depth)
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			k.SetString(g.str())
			e := reflect.New(t.Elem()).Elem()
			if r.Intn(6) != 0 {
				g.fill(e, o, depth+1)
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if r.Intn(4) == 0 || depth > 8 || g.budget <= 0 {
			return
		}
		c := g.concreteFor(t, o, depth)
		if c.IsValid() {
			v.Set(c)
		}
	default:
		// only in fields that are not encoded
	}
}

// setDefaults: what a field that is left out decodes to.
func setDefaults(v reflect.Value) {
	switch {
	case v.Type() == tTime:
		v.Set(reflect.ValueOf(epoch()))
	case isMarshaler(v.Type()) || isJSONMarshaler(v.Type()):
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if encoded(v.Type().Field(i)) {
				setDefaults(v.Field(i))
			}
		}
	case v.Kind() == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			setDefaults(v.Index(i))
		}
	}
}

// elements of lists of pointers to structs may not be nil with empty_elements
func (g *gen) fillElems(v reflect.Value, o fopt, depth int) {
	r := g.rng
	et := v.Type().Elem()
	noNil := o.emptyElems && et.Kind() == reflect.Ptr && deref(et).Kind() == reflect.Struct && !g.json
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if r.Intn(6) != 0 {
			g.fill(e, o, depth+1)
		}
		if noNil {
			for p := e; p.Kind() == reflect.Ptr; p = p.Elem() {
				if p.IsNil() {
					p.Set(reflect.New(p.Type().Elem()))
				}
			}
		}
	}
}

// concreteFor makes a registered value that implements it.
func (g *gen) concreteFor(it reflect.Type, o fopt, depth int) reflect.Value {
	impls := g.u.implementers(it, !g.json)
	var out []*regInfo
	for _, ri := range impls {
		if !(g.noTimePtr && hasTimePtr(ri.rt, nil)) && g.u.usable(ri.rt) {
			out = append(out, ri)
		}
	}
	impls = out
	if len(impls) == 0 {
		return reflect.Value{}
	}
	ri := impls[g.rng.Intn(len(impls))]
	p := reflect.New(ri.rt)
	if g.rng.Intn(8) != 0 {
		g.fill(p.Elem(), o, depth+1)
	} else {
		g.fixZero(p.Elem(), o)
	}
	if !ri.rt.Implements(it) || g.rng.Intn(2) == 0 {
		return p
	}
	return p.Elem()
}

// fixZero: also zero arrays may not have nil struct pointers with empty_elements.
func (g *gen) fixZero(v reflect.Value, o fopt) {
	if v.Kind() == reflect.Array && !isByteList(v.Type()) {
		g.budget -= 1
		g.fillElems(v, o, 99)
	}
}

func (g *gen) float(f32 bool) float64 {
	r := g.rng
	edges := []float64{0, 1, -1, 0.5, 1e10, -2.5e-7, 16777216, 3.4028234e38, 1e-45, math.Pi}
	if !f32 {
		edges = append(edges, math.MaxFloat64, 5e-324, 1<<53+2)
	}
	if !g.json {
		edges = append(edges, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1))
	}
	f := edges[r.Intn(len(edges))]
	if r.Intn(3) == 0 {
		f = r.NormFloat64() * math.Pow(10, float64(r.Intn(20)-10))
	}
	if f32 {
		f = float64(float32(f))
	}
	return f
}

// fillHooked fills types with hooks, whose fields are not exported or whose
// values are restricted.
func (g *gen) fillHooked(v reflect.Value, o fopt, depth int) bool {
	r := g.rng
	switch p := v.Addr().Interface().(type) {
	case *MSt:
		*p = MSt{int32(genInt(r, 32)), int32(genInt(r, 32)), g.str()}
	case *MList:
		*p = MList{g.str(), g.str()}
	case *MCsv:
		n := r.Intn(4)
		*p = nil
		for i := 0; i < n; i++ {
			*p = append(*p, strings.ReplaceAll(g.str(), ";", ""))
		}
	case *JStr:
		*p = JStr{g.str()}
	case *JPtr:
		*p = JPtr{g.str()}
	default:
		return false
	}
	return true
}
