package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	register(&check{id: "C21", run: c21,
		rule:  "types whose zero value has a representation that is not zero and that refuse zero ones (or refuse to be encoded as zero), at every place where zero is not left out; random types that put types with hooks (string, integer, bytes, list and struct kinds, chains, hooks inside representations, JSON methods, both) at fields with all tags, behind pointers, in lists, arrays, maps and interfaces and at top level; for each there is a mirror type in which the representation stands in place of the type, and a mirror value made by calling the methods directly; both have to be encoded to the same bytes and JSON, the encoding has to be decoded to values with the same representations as the mirror's, and then one hook at a random place is made to fail, on encoding and on decoding, through every entry point; calls of the hooks are recorded; in the last phase the representations are encodings made with the codec that calls the hooks (nested, with interfaces, with types registered by a hook), expected values come from the model alone; distinct = distinct (type, encoding), non-trivial = at least one hook in the value",
		assum: []string{"the zero value is represented by the default representation, which stands for it when omitted", "the representation has the wire type of the type itself", "methods are on the value for encoding and on the pointer for decoding"}})
}

// ---- types with hooks

type hookFail struct{ how string }

func (e *hookFail) Error() string { return "the hook says no: " + e.how }

var errEnc, errDec, errJEnc, errJDec = &hookFail{"MarshalAmino"}, &hookFail{"UnmarshalAmino"}, &hookFail{"MarshalJSON"}, &hookFail{"UnmarshalJSON"}

const (
	pzEnc = "poison-enc"  // makes the marshalling fail
	pzDec = "poison-repr" // a representation that makes the unmarshalling fail
)

type (
	HStr string
	HInt int64
	HI32 int32
	HU16 uint16
	HBz  []byte
	HL   []string
	HLs  []Leaf // struct list -> struct list
	HAr  [2]int32
	HSt  struct {
		a, b string
		n    int64
	}
	RSt struct {
		N int64 `binary:"fixed64"`
		S HStr
		L []HI32
		P *HIn
	}
	HIn struct{ v int32 }
	RIn struct {
		X, Y int32
	}
	HChain struct{ s string } // -> HSt -> RSt
	HTime  struct{ d int64 }
	// methods of the pointer
	HPtr  struct{ s string }
	HPInt int32
	HPL   []string
	JHPtr struct{ s string } // JSON only
	// other kinds than the representation's
	HX struct{ v string } // -> string
	HY string             // -> Leaf
	HZ struct{ v []byte } // -> bytes
	// JSON only
	HMap  struct{ m map[string]int32 } // -> map
	HKind map[string]int32             // -> list of structs
	RKind struct {
		K string
		V int32
	}
	JH    struct{ raw string }
	JHInt int64
	JHSl  []string
	JBoth struct{ v string } // both kinds of methods
)

func rev(s string) string {
	b := []rune(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func (h HStr) MarshalAmino() (string, error) {
	if h == pzEnc {
		return "", errEnc
	}
	return rev(string(h)), nil
}
func (h *HStr) UnmarshalAmino(s string) error {
	if s == pzDec {
		return errDec
	}
	*h = HStr(rev(s))
	return nil
}
func (h *HPtr) MarshalAmino() (Leaf, error) {
	if h.s == pzEnc {
		return Leaf{}, errEnc
	}
	return Leaf{int32(len(h.s)), rev(h.s)}, nil
}
func (h *HPtr) UnmarshalAmino(l Leaf) error {
	if l.B == pzDec {
		return errDec
	}
	*h = HPtr{rev(l.B)}
	return nil
}
func (h *HPInt) MarshalAmino() (int32, error) {
	if *h == 6660 {
		return 0, errEnc
	}
	return -int32(*h), nil
}
func (h *HPInt) UnmarshalAmino(i int32) error {
	if i == 6661 {
		return errDec
	}
	*h = HPInt(-i)
	return nil
}
func (h *HPL) MarshalAmino() ([]string, error) {
	var out []string
	for _, s := range *h {
		if s == pzEnc {
			return nil, errEnc
		}
		out = append([]string{s}, out...)
	}
	return out, nil
}
func (h *HPL) UnmarshalAmino(l []string) error {
	*h = nil
	for _, s := range l {
		if s == pzDec {
			return errDec
		}
		*h = append(HPL{s}, *h...)
	}
	return nil
}
func (j *JHPtr) MarshalJSON() ([]byte, error) {
	if j.s == pzEnc {
		return nil, errJEnc
	}
	return json.Marshal(map[string]string{"p": j.s})
}
func (j *JHPtr) UnmarshalJSON(b []byte) error {
	if string(b) == `"`+pzDec+`"` {
		return errJDec
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	j.s = m["p"]
	return nil
}
func (h HInt) MarshalAmino() (int64, error) {
	if h == 6660 {
		return 0, errEnc
	}
	return -int64(h), nil
}
func (h *HInt) UnmarshalAmino(i int64) error {
	if i == 6661 {
		return errDec
	}
	*h = HInt(-i)
	return nil
}
func (h HI32) MarshalAmino() (int32, error) {
	if h == 6660 {
		return 0, errEnc
	}
	return -int32(h), nil
}
func (h *HI32) UnmarshalAmino(i int32) error {
	if i == 6661 {
		return errDec
	}
	*h = HI32(-i)
	return nil
}
func (h HU16) MarshalAmino() (uint16, error) {
	if h == 6660 {
		return 0, errEnc
	}
	return uint16(h)<<8 | uint16(h)>>8, nil
}
func (h *HU16) UnmarshalAmino(i uint16) error {
	if i == 6661 {
		return errDec
	}
	*h = HU16(i<<8 | i>>8)
	return nil
}
func xor(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] ^ 0x5A
	}
	return out
}
func (h HBz) MarshalAmino() ([]byte, error) {
	if string(h) == pzEnc {
		return nil, errEnc
	}
	return xor(h), nil
}
func (h *HBz) UnmarshalAmino(b []byte) error {
	if string(b) == pzDec {
		return errDec
	}
	*h = xor(b)
	return nil
}
func revs(l []string) (out []string) {
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i]+"")
	}
	return
}
func (h HL) MarshalAmino() ([]string, error) {
	if len(h) > 0 && h[0] == pzEnc {
		return nil, errEnc
	}
	return revs(h), nil
}
func (h *HL) UnmarshalAmino(l []string) error {
	if len(l) > 0 && l[0] == pzDec {
		return errDec
	}
	*h = revs(l)
	return nil
}
func (h HLs) MarshalAmino() ([]RIn, error) {
	var out []RIn
	for _, l := range h {
		if l.B == pzEnc {
			return nil, errEnc
		}
		n, _ := strconv.Atoi(l.B)
		out = append(out, RIn{int32(n), l.A})
	}
	return out, nil
}
func (h *HLs) UnmarshalAmino(l []RIn) error {
	*h = nil
	for _, r := range l {
		if r.X == 6661 {
			return errDec
		}
		*h = append(*h, Leaf{r.Y, strconv.Itoa(int(r.X))})
	}
	return nil
}
func (h HAr) MarshalAmino() ([2]int32, error) {
	if h[0] == 6660 {
		return h, errEnc
	}
	return [2]int32{h[1], h[0]}, nil
}
func (h *HAr) UnmarshalAmino(a [2]int32) error {
	if a[0] == 6661 {
		return errDec
	}
	*h = HAr{a[1], a[0]}
	return nil
}
func (h HSt) MarshalAmino() (RSt, error) {
	if h.a == pzEnc {
		return RSt{}, errEnc
	}
	r := RSt{N: h.n, S: HStr(h.a)}
	for i := 0; i < len(h.b); i++ {
		r.L = append(r.L, HI32(h.b[i]))
	}
	if h.n%2 != 0 {
		r.P = &HIn{int32(h.n)}
	}
	return r, nil
}
func (h *HSt) UnmarshalAmino(r RSt) error {
	if r.N == 6661 {
		return errDec
	}
	*h = HSt{n: r.N, a: string(r.S)}
	for _, c := range r.L {
		h.b += string([]byte{byte(c)})
	}
	return nil
}
func (h HIn) MarshalAmino() (RIn, error) {
	if h.v == 6660 {
		return RIn{}, errEnc
	}
	return RIn{h.v, h.v ^ 77&h.v}, nil
}
func (h *HIn) UnmarshalAmino(r RIn) error {
	if r.X == 6661 || r.Y != r.X^77&r.X {
		return errDec
	}
	h.v = r.X
	return nil
}
func (h HChain) MarshalAmino() (HSt, error) {
	if h.s == "chain "+pzEnc {
		return HSt{}, errEnc
	}
	return HSt{a: h.s, n: int64(len(h.s))}, nil
}
func (h *HChain) UnmarshalAmino(s HSt) error {
	if s.a == "chain "+pzDec {
		return errDec
	}
	h.s = s.a
	return nil
}
func (h HTime) MarshalAmino() (time.Time, error) {
	if h.d == 6660 {
		return time.Time{}, errEnc
	}
	return time.Unix(h.d, h.d&7).UTC(), nil
}
func (h *HTime) UnmarshalAmino(t time.Time) error {
	if t.Unix() == 6661 {
		return errDec
	}
	h.d = t.Unix()
	return nil
}
func (h HX) MarshalAmino() (string, error) {
	if h.v == pzEnc {
		return "", errEnc
	}
	return rev(h.v), nil
}
func (h *HX) UnmarshalAmino(s string) error {
	if s == pzDec {
		return errDec
	}
	h.v = rev(s)
	return nil
}
func (h HY) MarshalAmino() (Leaf, error) {
	if h == pzEnc {
		return Leaf{}, errEnc
	}
	return Leaf{int32(len(h)), string(h)}, nil
}
func (h *HY) UnmarshalAmino(l Leaf) error {
	if l.B == pzDec || int(l.A) != len(l.B) {
		return errDec
	}
	*h = HY(l.B)
	return nil
}
func (h HZ) MarshalAmino() ([]byte, error) {
	if string(h.v) == pzEnc {
		return nil, errEnc
	}
	return xor(h.v), nil
}
func (h *HZ) UnmarshalAmino(b []byte) error {
	if string(b) == pzDec {
		return errDec
	}
	h.v = xor(b)
	return nil
}
func (h HMap) MarshalAmino() (map[string]int32, error) {
	if _, ok := h.m[pzEnc]; ok {
		return nil, errEnc
	}
	return h.m, nil
}
func (h *HMap) UnmarshalAmino(m map[string]int32) error {
	if _, ok := m[pzDec]; ok {
		return errDec
	}
	h.m = m
	return nil
}
func (h HKind) MarshalAmino() ([]RKind, error) {
	if _, ok := h[pzEnc]; ok {
		return nil, errEnc
	}
	var out []RKind
	for k, v := range h {
		out = append(out, RKind{k, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out, nil
}
func (h *HKind) UnmarshalAmino(l []RKind) error {
	*h = nil
	for _, x := range l {
		if x.K == pzDec {
			return errDec
		}
		if *h == nil {
			*h = HKind{}
		}
		(*h)[x.K] = x.V
	}
	return nil
}
func (j JH) MarshalJSON() ([]byte, error) {
	if j.raw == pzEnc {
		return nil, errJEnc
	}
	if j.raw == "" {
		return []byte(`{"empty":true}`), nil
	}
	return []byte(j.raw), nil
}
func (j *JH) UnmarshalJSON(b []byte) error {
	if string(b) == `"`+pzDec+`"` {
		return errJDec
	}
	j.raw = string(b)
	if j.raw == `{"empty":true}` {
		j.raw = ""
	}
	return nil
}
func (j JHInt) MarshalJSON() ([]byte, error) {
	if j == 6660 {
		return nil, errJEnc
	}
	return []byte(fmt.Sprintf(`{"n":%d}`, int64(j))), nil
}
func (j *JHInt) UnmarshalJSON(b []byte) error {
	if string(b) == `"`+pzDec+`"` {
		return errJDec
	}
	var n int64
	if _, err := fmt.Sscanf(string(b), `{"n":%d}`, &n); err != nil {
		return err
	}
	*j = JHInt(n)
	return nil
}
func (j JHSl) MarshalJSON() ([]byte, error) {
	if len(j) > 0 && j[0] == pzEnc {
		return nil, errJEnc
	}
	return json.Marshal(strings.Join(j, "|"))
}
func (j *JHSl) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if s == pzDec {
		return errJDec
	}
	*j = nil
	if s != "" {
		*j = strings.Split(s, "|")
	}
	return nil
}
func (j JBoth) MarshalJSON() ([]byte, error) {
	if j.v == pzEnc {
		return nil, errJEnc
	}
	return json.Marshal([]string{j.v, "json"})
}
func (j *JBoth) UnmarshalJSON(b []byte) error {
	if string(b) == `"`+pzDec+`"` {
		return errJDec
	}
	var l []string
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if len(l) != 2 || l[1] != "json" {
		return errors.New("not my JSON")
	}
	j.v = l[0]
	return nil
}
func (j JBoth) MarshalAmino() (Leaf, error) {
	if j.v == pzEnc {
		return Leaf{}, errEnc
	}
	return Leaf{0, j.v}, nil
}
func (j *JBoth) UnmarshalAmino(l Leaf) error {
	if l.B == pzDec {
		return errDec
	}
	j.v = l.B
	return nil
}

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type hookKind struct {
	t     reflect.Type
	cross bool // of another kind than its representation
	list  bool // the representation is a list
	json  bool // in JSON only
	fill  func(r *rand.Rand, g *gen) interface{}
	enc   interface{} // a value that fails on encoding
	dec   interface{} // a representation (or JSON text) that fails on decoding
	jenc  interface{} // in JSON, if different
	jdec  string
}

var hookKinds = []*hookKind{
	{t: typeOf[HStr](), fill: func(r *rand.Rand, g *gen) interface{} { return HStr(g.str()) }, enc: HStr(pzEnc), dec: pzDec},
	{t: typeOf[HInt](), fill: func(r *rand.Rand, g *gen) interface{} { return HInt(genInt(r, 64)) }, enc: HInt(6660), dec: int64(6661)},
	{t: typeOf[HI32](), fill: func(r *rand.Rand, g *gen) interface{} { return HI32(genInt(r, 32)) }, enc: HI32(6660), dec: int32(6661)},
	{t: typeOf[HU16](), fill: func(r *rand.Rand, g *gen) interface{} { return HU16(genUint(r, 16)) }, enc: HU16(6660), dec: uint16(6661)},
	{t: typeOf[HBz](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return HBz(g.bytes()) }, enc: HBz(pzEnc), dec: []byte(pzDec)},
	{t: typeOf[HL](), list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h HL
		for i := 0; i < r.Intn(4); i++ {
			h = append(h, g.str())
		}
		return h
	}, enc: HL{pzEnc}, dec: []string{pzDec}},
	{t: typeOf[HLs](), list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h HLs
		for i := 0; i < r.Intn(4); i++ {
			h = append(h, Leaf{int32(genInt(r, 32)), strconv.Itoa(int(int32(genInt(r, 32))))})
		}
		return h
	}, enc: HLs{{1, "1"}, {1, pzEnc}}, dec: []RIn{{1, 1}, {6661, 0}}},
	{t: typeOf[HAr](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return HAr{int32(genInt(r, 32)), int32(genInt(r, 32))} }, enc: HAr{6660}, dec: [2]int32{6661}},
	{t: typeOf[HSt](), fill: func(r *rand.Rand, g *gen) interface{} {
		b := g.bytes()
		if len(b) > 9 {
			b = b[:9]
		}
		return HSt{g.str(), string(b), genInt(r, 16)}
	}, enc: HSt{a: pzEnc}, dec: RSt{N: 6661}},
	{t: typeOf[HIn](), fill: func(r *rand.Rand, g *gen) interface{} { return HIn{int32(genInt(r, 32))} }, enc: HIn{6660}, dec: RIn{6661, 0}},
	{t: typeOf[HChain](), fill: func(r *rand.Rand, g *gen) interface{} { return HChain{g.str()} }, enc: HChain{"chain " + pzEnc}, dec: HSt{a: "chain " + pzDec}},
	{t: typeOf[HTime](), fill: func(r *rand.Rand, g *gen) interface{} { return HTime{int64(r.Intn(2000000))} }, enc: HTime{6660}, dec: time.Unix(6661, 0).UTC()},
	{t: typeOf[HPtr](), fill: func(r *rand.Rand, g *gen) interface{} { return HPtr{g.str()} }, enc: HPtr{pzEnc}, dec: Leaf{0, pzDec}},
	{t: typeOf[HPInt](), fill: func(r *rand.Rand, g *gen) interface{} { return HPInt(genInt(r, 32)) }, enc: HPInt(6660), dec: int32(6661)},
	{t: typeOf[HPL](), list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h HPL
		for i := 0; i < r.Intn(4); i++ {
			h = append(h, g.str())
		}
		return h
	}, enc: HPL{pzEnc}, dec: []string{pzDec}},
	{t: typeOf[JHPtr](), json: true, fill: func(r *rand.Rand, g *gen) interface{} { return JHPtr{g.str()} }, enc: JHPtr{pzEnc}, jdec: `"` + pzDec + `"`},
	{t: typeOf[HX](), cross: true, fill: func(r *rand.Rand, g *gen) interface{} { return HX{g.str()} }, enc: HX{pzEnc}, dec: pzDec},
	{t: typeOf[HY](), cross: true, fill: func(r *rand.Rand, g *gen) interface{} { return HY(g.str()) }, enc: HY(pzEnc), dec: Leaf{int32(len(pzDec)), pzDec}},
	{t: typeOf[HZ](), cross: true, list: true, fill: func(r *rand.Rand, g *gen) interface{} { return HZ{g.bytes()} }, enc: HZ{[]byte(pzEnc)}, dec: []byte(pzDec)},
	{t: typeOf[JBoth](), fill: func(r *rand.Rand, g *gen) interface{} { return JBoth{g.str()} }, enc: JBoth{pzEnc}, dec: Leaf{0, pzDec}, jdec: `"` + pzDec + `"`},
	{t: typeOf[HMap](), json: true, list: true, cross: true, fill: func(r *rand.Rand, g *gen) interface{} {
		m := map[string]int32{}
		for i := 0; i < r.Intn(4); i++ {
			m[g.str()] = int32(genInt(r, 32))
		}
		return HMap{m}
	}, enc: HMap{map[string]int32{pzEnc: 1, "a": 1}}, dec: map[string]int32{pzDec: 1}},
	{t: typeOf[HKind](), json: true, list: true, cross: true, fill: func(r *rand.Rand, g *gen) interface{} {
		m := HKind{}
		for i := 0; i < r.Intn(4); i++ {
			m[g.str()] = int32(genInt(r, 32))
		}
		return m
	}, enc: HKind{pzEnc: 1, "a": 1}, dec: []RKind{{pzDec, 1}}},
	{t: typeOf[JH](), json: true, fill: func(r *rand.Rand, g *gen) interface{} {
		s := string(randomJSON(r, 2).bytes())
		if s == "null" { // null is the zero value, without asking
			s = `{"nothing":null}`
		}
		return JH{s}
	}, enc: JH{pzEnc}, jdec: `"` + pzDec + `"`},
	{t: typeOf[JHInt](), json: true, fill: func(r *rand.Rand, g *gen) interface{} { return JHInt(genInt(r, 64)) }, enc: JHInt(6660), jdec: `"` + pzDec + `"`},
	{t: typeOf[JHSl](), json: true, list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h JHSl
		for i := 0; i < r.Intn(4); i++ {
			h = append(h, "x"+strings.Replace(g.str(), "|", "", -1))
		}
		return h
	}, enc: JHSl{pzEnc}, jdec: `"` + pzDec + `"`},
}

var hookByType = map[reflect.Type]*hookKind{}

// interfaces: the types with hooks and their mirrors are registered under the
// same names.
type (
	IH interface{ IsH() }
	// mirrors
	WStr string
	WInt int64
	WBz  []byte
	WL   []string
	WSt  RSt
	WIn  RIn
	WLs  []RIn
	WX   string
	WPtr Leaf
	WJH  json.RawMessage
)

func (HStr) IsH() {}
func (HInt) IsH() {}
func (HBz) IsH()  {}
func (HL) IsH()   {}
func (HPtr) IsH() {}
func (WPtr) IsH() {}
func (HSt) IsH()  {}
func (HIn) IsH()  {}
func (HLs) IsH()  {}
func (JH) IsH()   {}
func (WStr) IsH() {}
func (WInt) IsH() {}
func (WBz) IsH()  {}
func (WL) IsH()   {}
func (WSt) IsH()  {}
func (WIn) IsH()  {}
func (WLs) IsH()  {}
func (WJH) IsH()  {}
func (w WJH) MarshalJSON() ([]byte, error) {
	return w, nil
}
func (w *WJH) UnmarshalJSON(b []byte) error {
	*w = append(WJH(nil), b...)
	return nil
}

var hookMirror = map[reflect.Type]reflect.Type{
	typeOf[HStr](): typeOf[WStr](), typeOf[HInt](): typeOf[WInt](), typeOf[HBz](): typeOf[WBz](), typeOf[HL](): typeOf[WL](), typeOf[HSt](): typeOf[WSt](), typeOf[HIn](): typeOf[WIn](), typeOf[HLs](): typeOf[WLs](), typeOf[JH](): typeOf[WJH](), typeOf[HPtr](): typeOf[WPtr](),
}

var tIH = typeOf[IH]()
var tRaw = typeOf[json.RawMessage]()

func init() {
	for _, h := range hookKinds {
		hookByType[h.t] = h
	}
}

// hgen makes types with hooks.
type hgen struct {
	*gen
	js     bool
	regs   bool // interfaces are registered
	hooked int
}

func (g *hgen) base() reflect.Type {
	for {
		h := hookKinds[g.rng.Intn(len(hookKinds))]
		if g.js || !h.json {
			return h.t
		}
	}
}

// typ: a type for a field, or (elem) for an element.
func (g *hgen) htyp(depth int, elem bool) reflect.Type {
	r := g.rng
	for {
		t := g.htyp1(depth, elem)
		if h := hookByType[t]; elem && !g.js && (isList(t) || h != nil && (h.list || h.cross && r.Intn(2) == 0)) {
			continue
		}
		return t
	}
}

func (g *hgen) htyp1(depth int, elem bool) reflect.Type {
	r := g.rng
	k := r.Intn(100)
	if depth <= 0 && k >= 62 {
		k = r.Intn(62)
	}
	switch {
	case k < 48:
		return g.base()
	case k < 54:
		return []reflect.Type{typeOf[int32](), typeOf[string](), typeOf[uint64](), typeOf[[]byte](), tTime, typeOf[Leaf](), typeOf[bool]()}[r.Intn(7)]
	case k < 62:
		if g.regs {
			return tIH
		}
		return g.base()
	case k < 76:
		var fs []reflect.StructField
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			t := g.htyp(depth-1, false)
			var tags []string
			switch r.Intn(7) {
			case 0:
				tags = append(tags, `amino:"write_empty"`)
			case 1:
				tags = append(tags, `binary:"fixed64"`)
			case 2:
				tags = append(tags, `binary:"fixed32"`)
			}
			if r.Intn(5) == 0 {
				tags = append(tags, fmt.Sprintf(`json:"f_%d"`, i))
			}
			fs = append(fs, fld(fmt.Sprintf("F%d", i), t, strings.Join(tags, " ")))
		}
		return reflect.StructOf(fs)
	case k < 84:
		t := g.htyp(depth-1, elem)
		if t.Kind() == reflect.Interface || t == typeOf[HTime]() || t == tTime || !g.js && isList(t) || t.Kind() == reflect.Ptr && r.Intn(2) == 0 {
			return t
		}
		return reflect.PtrTo(t)
	case k < 93:
		return reflect.SliceOf(g.htyp(depth-1, true))
	case k < 96 || !g.js:
		return reflect.ArrayOf(1+r.Intn(2), g.htyp(depth-1, true))
	default:
		return reflect.MapOf(typeOf[string](), g.htyp(depth-1, true))
	}
}

func (g *hgen) hfill(v reflect.Value, depth int) {
	r := g.rng
	g.budget--
	if h := hookByType[v.Type()]; h != nil {
		if r.Intn(7) > 0 {
			v.Set(reflect.ValueOf(h.fill(r, g.gen)))
		}
		g.hooked++
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		// a pointer to a zero value is no zero value for some kinds
		if r.Intn(4) == 0 || g.budget < 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.hfill(v.Elem(), depth)
		if !g.js {
			for i := 0; i < 20; i++ {
				d, ok := derefV(v)
				if !ok {
					return
				}
				if h := hookByType[d.Type()]; h == nil || !h.cross || !d.IsZero() && !(d.Kind() == reflect.Struct && d.NumField() > 0 && access(d).Field(0).Kind() == reflect.Slice && d.Field(0).Len() == 0) {
					return
				}
				d.Set(reflect.ValueOf(hookByType[d.Type()].fill(r, g.gen)))
			}
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Interface:
		if r.Intn(5) == 0 {
			return
		}
		for {
			h := hookByType[g.base()]
			if hookMirror[h.t] == nil {
				continue
			}
			g.hooked++
			x := reflect.ValueOf(h.fill(r, g.gen))
			v.Set(x)
			return
		}
	case reflect.Slice:
		if r.Intn(5) == 0 || g.budget < 0 {
			return
		}
		if isByteList(v.Type()) {
			v.SetBytes(g.bytes())
			return
		}
		n := 1 + r.Intn(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			g.hfill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.hfill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if r.Intn(5) == 0 || g.budget < 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < 1+r.Intn(3); i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			g.hfill(e, depth+1)
			v.SetMapIndex(reflect.ValueOf(g.str()), e)
		}
	case reflect.Struct:
		if v.Type() == tTime {
			g.fill(v, fopt{}, 0)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			g.hfill(v.Field(i), depth+1)
		}
	default:
		g.fill(v, fopt{}, 0)
	}
}

// mirror makes types and values with representations in place of the types.
type mirror struct {
	js    bool
	at    int       // replace the representation of the at-th hook by dec
	n     int       // hooks seen
	which *hookKind // the one replaced
	times int       // replaced
	depth int       // hooks inside representations are not counted
}

func (m *mirror) typ(t reflect.Type) reflect.Type {
	if h := hookByType[t]; m.js && h != nil && reflect.PtrTo(t).Implements(typeOf[json.Unmarshaler]()) {
		return tRaw
	}
	if t == tTime || t == tIH {
		return t
	}
	if t.Kind() != reflect.Ptr && isMarshaler(t) {
		return m.typ(reprType(t))
	}
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(m.typ(t.Elem()))
	case reflect.Slice:
		return reflect.SliceOf(m.typ(t.Elem()))
	case reflect.Array:
		return reflect.ArrayOf(t.Len(), m.typ(t.Elem()))
	case reflect.Map:
		return reflect.MapOf(t.Key(), m.typ(t.Elem()))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ft := m.typ(f.Type)
			if !m.js && isMarshaler(f.Type) && isList(f.Type) && isList(ft) && !isByteList(ft) && wireTypeOf(ft.Elem(), fopt{}) == 2 {
				// one field that contains the list, as for a pointer to it, and
				// not a repeated one
				ft = reflect.PtrTo(ft)
			}
			fs = append(fs, fld(f.Name, ft, string(f.Tag)))
		}
		return reflect.StructOf(fs)
	}
	return t
}

// value fills out, of type typ(v.Type()).
func (m *mirror) value(out, v reflect.Value) {
	t := v.Type()
	h := hookByType[t]
	if h != nil && m.depth == 0 {
		m.n++
	}
	if m.js && h != nil && reflect.PtrTo(t).Implements(typeOf[json.Unmarshaler]()) {
		if m.n-1 == m.at && m.depth == 0 {
			m.which, m.times = h, m.times+1
			out.SetBytes([]byte(h.jdec))
			return
		}
		b, err := clone(v).Addr().Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			panic(err)
		}
		out.SetBytes(b)
		return
	}
	if t == tTime {
		out.Set(v)
		return
	}
	if t.Kind() != reflect.Ptr && isMarshaler(t) {
		var r reflect.Value
		if h != nil && m.n-1 == m.at && m.depth == 0 {
			m.which, m.times = h, m.times+1
			r = reflect.ValueOf(h.dec)
		} else {
			o := callMarshal(v)
			if !o[1].IsNil() {
				panic(o[1].Interface())
			}
			r = o[0]
		}
		if out.Kind() == reflect.Ptr && r.Kind() != reflect.Ptr {
			out.Set(reflect.New(out.Type().Elem()))
			out = out.Elem()
		}
		m.depth++
		m.value(out, r)
		m.depth--
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(out.Type().Elem()))
			m.value(out.Elem(), v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		w := reflect.New(hookMirror[e.Type()]).Elem()
		x := reflect.New(m.typ(e.Type())).Elem()
		m.value(x, e)
		setMirror(w, x)
		out.Set(w)
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		out.Set(reflect.MakeSlice(out.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			m.value(out.Index(i), v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.value(out.Index(i), v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		out.Set(reflect.MakeMap(out.Type()))
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			e := reflect.New(out.Type().Elem()).Elem()
			m.value(e, v.MapIndex(k))
			out.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.value(out.Field(i), v.Field(i))
		}
	default:
		out.Set(v)
	}
}

// setMirror sets w, of a mirror type whose parts may have hooks, from x, where
// they have none.
func setMirror(w, x reflect.Value) {
	if w.Kind() != reflect.Ptr && isMarshaler(w.Type()) {
		p := w.Addr().MethodByName("UnmarshalAmino")
		r := reflect.New(p.Type().In(0)).Elem()
		setMirror(r, x)
		if o := p.Call([]reflect.Value{r}); !o[0].IsNil() {
			panic(o[0].Interface())
		}
		return
	}
	if x.Type().ConvertibleTo(w.Type()) {
		w.Set(x.Convert(w.Type()))
		return
	}
	switch w.Kind() {
	case reflect.Ptr:
		if !x.IsNil() {
			w.Set(reflect.New(w.Type().Elem()))
			setMirror(w.Elem(), x.Elem())
		}
	case reflect.Slice:
		if !x.IsNil() {
			w.Set(reflect.MakeSlice(w.Type(), x.Len(), x.Len()))
			for i := 0; i < x.Len(); i++ {
				setMirror(w.Index(i), x.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < w.NumField(); i++ {
			setMirror(w.Field(i), x.Field(i))
		}
	default:
		panic("setMirror " + w.Type().String())
	}
}

// poisonAt makes the n-th hook in v fail on encoding; it returns its kind.
func poisonAt(v reflect.Value, n *int) (out *hookKind) {
	if h := hookByType[v.Type()]; h != nil {
		*n--
		if *n < 0 {
			v.Set(reflect.ValueOf(h.enc))
			return h
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return poisonAt(v.Elem(), n)
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := addr(v.Elem())
			if h := poisonAt(e, n); h != nil {
				v.Set(e)
				return h
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if h := poisonAt(v.Index(i), n); h != nil {
				return h
			}
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			e := addr(v.MapIndex(k))
			if h := poisonAt(e, n); h != nil {
				v.SetMapIndex(k, e)
				return h
			}
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				if h := poisonAt(v.Field(i), n); h != nil {
					return h
				}
			}
		}
	}
	return nil
}

func c21codecs(r *rand.Rand) (a, b *amino.Codec, names map[reflect.Type]string) {
	a, b = amino.NewCodec(), amino.NewCodec()
	a.RegisterInterface((*IH)(nil), nil)
	b.RegisterInterface((*IH)(nil), nil)
	names = map[reflect.Type]string{}
	var hs []reflect.Type
	for t := range hookMirror {
		hs = append(hs, t)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].String() < hs[j].String() })
	for _, t := range hs {
		n := genName(r) + "/" + t.Name()
		names[t] = n
		a.RegisterConcrete(reflect.Zero(t).Interface(), n, nil)
		b.RegisterConcrete(reflect.Zero(hookMirror[t]).Interface(), n, nil)
	}
	return
}

func c21(c *ctx) {
	c.run("fields", c.n(4000), func(t *T) { c21random(t, false) })
	c.run("JSON fields", c.n(3000), func(t *T) { c21random(t, true) })
	c.run("top", c.n(1500), c21top)
	c.run("zero", c.n(3000), c21zero)
	c.runW("hooks that use the codec", c.n(400), 1, c21reenter)
}

// c21random: structs with hooks at any place.
func c21random(t *T, js bool) {
	g := &hgen{gen: newGen(t.rng, newUniverse(t.rng)), js: js, regs: t.rng.Intn(2) == 0}
	g.gen.json = js
	g.utf8 = true
	ca, cb := amino.NewCodec(), amino.NewCodec()
	if g.regs {
		ca, cb, _ = c21codecs(t.rng)
	}
	var fs []reflect.StructField
	for i, n := 0, 1+t.rng.Intn(4); i < n; i++ {
		ft := g.htyp(2, false)
		tag := ""
		switch t.rng.Intn(6) {
		case 0:
			tag = `amino:"write_empty"`
		case 1:
			tag = `binary:"fixed64" json:"xX"`
		}
		if tag != "" && i > 0 {
			tag = strings.Replace(tag, "xX", "xX"+itoa(i), 1)
		}
		fs = append(fs, fld(fmt.Sprintf("F%d", i), ft, tag))
	}
	rt := reflect.StructOf(fs)
	if t.rng.Intn(5) == 0 { // a list of them
		rt = reflect.SliceOf(rt)
	}
	for i := 0; i < 3; i++ {
		g.budget, g.hooked = 60, 0
		v := reflect.New(rt).Elem()
		g.hfill(v, 0)
		c21case(t, ca, cb, js, v, g.hooked)
	}
}

func c21case(t *T, ca, cb *amino.Codec, js bool, v reflect.Value, hooked int) {
	rt := v.Type()
	t.desc = nil
	t.note("JSON %v type %v value %s", js, rt, show(v))
	m := &mirror{js: js, at: -1}
	mt := m.typ(rt)
	mv := reflect.New(mt).Elem()
	m.value(mv, v)
	t.note("mirror type %v value %s", mt, show(mv))
	enc, dec := marshalBare, unmarshalBare
	if js {
		enc, dec = marshalJSON, unmarshalJSON
	}
	want, err := enc(cb, mv.Interface())
	if err != nil {
		if strings.Contains(err.Error(), "multidimensional") {
			t.count("not supported")
			return
		}
		t.failf("the mirror of %v %s: %v", rt, show(v), err)
	}
	bz, err := enc(ca, v.Interface())
	if err != nil {
		t.failf("encoding %v %s: %v", rt, show(v), err)
	}
	t.evaluated(fmt.Sprintf("%v %v %s", js, rt, bz), hooked > 0)
	if !bytes.Equal(bz, want) {
		t.failf("%v %s encodes to %s, its representation to %s", rt, show(v), enctext(js, bz), enctext(js, want))
	}
	t.countN("hooks called for encoding", int64(hooked))
	// decoding
	got, err := dec(ca, bz, rt)
	if err != nil {
		t.failf("decoding %s to %v: %v", enctext(js, bz), rt, err)
	}
	wm, err := dec(cb, bz, mt)
	if err != nil {
		t.failf("decoding %s to the mirror %v: %v", enctext(js, bz), mt, err)
	}
	gm := reflect.New(mt).Elem()
	(&mirror{js: js, at: -1}).value(gm, got)
	if d := c21diff(wm, gm); d != "" {
		t.failf("%s decodes to %s, whose representation is not what its mirror decodes to: %s", enctext(js, bz), show(got), d)
	}
	t.countN("hooks called for decoding", int64(m.n))
	if m.n == 0 {
		return
	}
	// make one fail
	at := t.rng.Intn(m.n)
	pv := clone(v)
	k := at
	h := poisonAt(pv, &k)
	if h == nil {
		t.failf("HARNESS: hook %d of %d not found", at, m.n)
	}
	msg := errEnc.Error()
	if js && h.jdec != "" {
		msg = errJEnc.Error()
	}
	ops := binEncOps
	if js {
		ops = jsonEncOps
	}
	for _, op := range ops {
		var out []byte
		err, _ := try(func() (err error) { out, err = op.fn(ca, pv.Interface()); return })
		if err == nil {
			t.failf("%s of %s succeeds with %s, although the hook of %v fails", op.how, show(pv), enctext(js, out), h.t)
		}
		if !strings.Contains(err.Error(), msg) {
			t.failf("%s of %s fails with %q, not with the hook's error %q", op.how, show(pv), clip(err.Error(), 300), msg)
		}
		if len(out) > 0 {
			t.failf("%s of %s delivers %s with the error of a hook", op.how, show(pv), enctext(js, out))
		}
		if _, panicked := try(func() (err error) { out, err = op.fn(ca, pv.Interface()); return }); panicked != strings.HasPrefix(op.how, "Must") {
			t.failf("%s of %s: panicked %v", op.how, show(pv), panicked)
		}
		t.count("errors of encoding hooks reported")
	}
	// a representation that is refused
	pm := &mirror{js: js, at: at}
	pmv := reflect.New(mt).Elem()
	pv2, _ := try(func() error { pm.value(pmv, v); return nil })
	if pv2 != nil || pm.times != 1 {
		t.count("no failing representation here")
		return
	}
	bad, err := enc(cb, pmv.Interface())
	if err != nil {
		t.failf("the mirror with a poisoned representation: %v", err)
	}
	msg = errDec.Error()
	if js && pm.which.jdec != "" {
		msg = errJDec.Error()
	}
	p := reflect.New(rt)
	lpd := append(uv(uint64(len(bad))), bad...)
	for i, fn := range []func() error{
		func() error {
			if js {
				return ca.UnmarshalJSON(bad, p.Interface())
			}
			return ca.UnmarshalBinaryBare(bad, p.Interface())
		},
		func() error {
			if js {
				ca.MustUnmarshalJSON(bad, p.Interface())
			} else {
				ca.MustUnmarshalBinaryBare(bad, p.Interface())
			}
			return nil
		},
		func() error { return ca.UnmarshalBinaryLengthPrefixed(lpd, p.Interface()) },
		func() error {
			_, err := ca.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lpd), p.Interface(), 0)
			return err
		},
		func() error { ca.MustUnmarshalBinaryLengthPrefixed(lpd, p.Interface()); return nil },
	} {
		if js && i > 1 {
			break
		}
		p.Elem().Set(reflect.Zero(rt))
		err, panicked := try(fn)
		if err == nil {
			t.failf("decoding %s (way %d) gives %s, although the hook of %v fails", enctext(js, bad), i, show(p.Elem()), pm.which.t)
		}
		if !strings.Contains(err.Error(), msg) {
			t.failf("decoding %s (way %d) fails with %q, not with the hook's error %q", enctext(js, bad), i, clip(err.Error(), 300), msg)
		}
		if panicked != (i == 1 || i == 4) {
			t.failf("decoding %s (way %d): panicked %v", enctext(js, bad), i, panicked)
		}
		t.count("errors of decoding hooks reported")
	}
	if t.rng.Intn(3000) == 0 {
		t.sample("%v %s: %s", rt, show(v), enctext(js, bz))
	}
}

func enctext(js bool, b []byte) string {
	if js {
		return string(b)
	}
	return fmt.Sprintf("%x", b)
}

// c21diff: mirrors are compared without telling nil from empty, as the
// representations need not keep them apart.
func c21diff(a, b reflect.Value) string {
	return diff(nilEmpty(a), nilEmpty(b))
}

// nilEmpty turns empty lists and maps into nil ones, and compacts JSON texts.
func nilEmpty(v reflect.Value) reflect.Value {
	v = clone(v)
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == tTime {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
				if v.Elem().Kind() == reflect.Slice && v.Elem().Len() == 0 {
					v.Set(reflect.Zero(v.Type())) // (stands for a list that is one field)
				}
			}
		case reflect.Interface:
			if !v.IsNil() {
				e := addr(v.Elem())
				walk(e)
				v.Set(e)
			}
		case reflect.Slice:
			if v.Len() == 0 {
				v.Set(reflect.Zero(v.Type()))
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if v.Len() == 0 {
				v.Set(reflect.Zero(v.Type()))
			}
			for _, k := range v.MapKeys() {
				e := addr(v.MapIndex(k))
				walk(e)
				v.SetMapIndex(k, e)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(v)
	return v
}

// c21top: at top level, registered or not, through pointers, and in an
// interface.
func c21top(t *T) {
	h := hookKinds[t.idx%len(hookKinds)]
	js := h.json || t.rng.Intn(2) == 0
	g := newGen(t.rng, newUniverse(t.rng))
	g.utf8 = true
	v := addr(reflect.ValueOf(h.fill(t.rng, g)))
	reg := t.rng.Intn(2) == 0 && hookMirror[h.t] != nil
	ca, cb := amino.NewCodec(), amino.NewCodec()
	mt := (&mirror{js: js}).typ(h.t)
	var names map[reflect.Type]string
	if reg {
		ca, cb, names = c21codecs(t.rng)
		mt = hookMirror[h.t]
	}
	_ = names
	m := &mirror{js: js, at: -1}
	mv0 := reflect.New((&mirror{js: js}).typ(h.t)).Elem()
	m.value(mv0, v)
	mv := reflect.New(mt).Elem()
	setMirror(mv, mv0)
	enc, dec := marshalBare, unmarshalBare
	if js {
		enc, dec = marshalJSON, unmarshalJSON
	}
	t.note("JSON %v registered %v type %v value %s", js, reg, h.t, show(v))
	bz, err := enc(ca, v.Interface())
	if err != nil {
		t.failf("encoding %v %s: %v", h.t, show(v), err)
	}
	t.evaluated(fmt.Sprintf("%v %v %v %s", js, reg, h.t, bz), true)
	pbz, err := enc(ca, v.Addr().Interface())
	if err != nil || !bytes.Equal(bz, pbz) {
		t.failf("%v %s encodes to %s, and through a pointer to %s (%v)", h.t, show(v), enctext(js, bz), enctext(js, pbz), err)
	}
	if js || !h.cross { // the frame of others depends on their own kind
		want, err := enc(cb, mv.Interface())
		if err != nil {
			t.failf("encoding the mirror: %v", err)
		}
		if !bytes.Equal(bz, want) {
			t.failf("%v %s encodes to %s, its representation to %s", h.t, show(v), enctext(js, bz), enctext(js, want))
		}
		t.count("top-level encodings compared")
	}
	got, err := dec(ca, bz, h.t)
	if err != nil {
		t.failf("decoding %s to %v: %v", enctext(js, bz), h.t, err)
	}
	gm := reflect.New(mv0.Type()).Elem()
	(&mirror{js: js, at: -1}).value(gm, got)
	if d := c21diff(mv0, gm); d != "" {
		t.failf("%v %s encodes to %s, which decodes to another: %s", h.t, show(v), enctext(js, bz), d)
	}
	t.count("top-level decodings compared")
	// as a map in binary has none, types of that kind are encoded as what represents them
	msg := errEnc.Error()
	if js && h.jdec != "" {
		msg = errJEnc.Error()
	}
	ops := binEncOps
	if js {
		ops = jsonEncOps
	}
	for _, op := range ops {
		o := h.enc
		if t.rng.Intn(2) == 0 {
			o = addr(reflect.ValueOf(h.enc)).Addr().Interface()
		}
		var out []byte
		err, _ := try(func() (err error) { out, err = op.fn(ca, o); return })
		if err == nil || !strings.Contains(err.Error(), msg) || len(out) > 0 {
			t.failf("%s of %s: %s, %v, although its hook fails", op.how, show(addr(reflect.ValueOf(h.enc))), enctext(js, out), err)
		}
		t.count("errors of encoding hooks reported")
	}
	// decoding fails
	if js && h.jdec != "" || !h.cross || js {
		var bad []byte
		if js && h.jdec != "" {
			bad = []byte(h.jdec)
			if reg {
				n, _ := json.Marshal(names[h.t])
				bad = []byte(fmt.Sprintf(`{"type":%s,"value":%s}`, n, h.jdec))
			}
		} else {
			dv := addr(reflect.ValueOf(h.dec))
			x := reflect.New((&mirror{js: js}).typ(dv.Type())).Elem()
			(&mirror{js: js, at: -1, depth: 1}).value(x, dv)
			y := reflect.New(mt).Elem()
			setMirror(y, x)
			if bad, err = enc(cb, y.Interface()); err != nil {
				t.failf("encoding the mirror: %v", err)
			}
		}
		msg = errDec.Error()
		if js && h.jdec != "" {
			msg = errJDec.Error()
		}
		_, err := dec(ca, bad, h.t)
		if err == nil || !strings.Contains(err.Error(), msg) {
			t.failf("decoding %s to %v: %v, although its hook fails", enctext(js, bad), h.t, err)
		}
		t.count("errors of decoding hooks reported")
	}
}
