package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

// Types whose zero value has a representation that is not zero, and which
// refuse a zero representation: where a zero value is not left out, the hooks
// have to be asked for it as for any other. The Q types refuse to be encoded
// as zero values.

type (
	ZStr string
	ZInt int64
	ZI32 int32
	ZU8  uint8
	ZBz  []byte
	ZL   []string
	ZI   []int32
	ZAr  [2]int32
	ZB4  [4]byte             // -> [4]byte
	ZBs  [3]byte             // -> string
	ZAs  [2]string           // -> [2]string
	ZHx  struct{ h [2]byte } // -> bytes
	ZSt  struct {
		n int64
		s string
	}
	ZCh struct{ s ZStr } // -> ZStr's representation's type by way of a struct
	RZ  struct {
		N int64
		S string
	}
	RZC struct {
		N int32
		S ZStr `amino:"write_empty"`
	}
	QStr string
	QInt int64
	QBz  []byte
	QL   []string
	QSt  struct{ N int64 }

	YStr string
	YInt int64
	YBz  []byte
	YL   []string
	YSt  RZ
	YAr  [2]int32
	YB4  [4]byte
	YBs  string
)

func (ZStr) IsH() {}
func (ZInt) IsH() {}
func (ZBz) IsH()  {}
func (ZL) IsH()   {}
func (ZSt) IsH()  {}
func (ZAr) IsH()  {}
func (ZB4) IsH()  {}
func (ZBs) IsH()  {}
func (YB4) IsH()  {}
func (YBs) IsH()  {}
func (YStr) IsH() {}
func (YInt) IsH() {}
func (YBz) IsH()  {}
func (YL) IsH()   {}
func (YSt) IsH()  {}
func (YAr) IsH()  {}

func (z ZStr) MarshalAmino() (string, error) {
	if z == pzEnc {
		return "", errEnc
	}
	return string(z) + "+", nil
}
func (z *ZStr) UnmarshalAmino(s string) error {
	if s == "" {
		return errDec
	}
	*z = ZStr(s[:len(s)-1])
	return nil
}
func (z ZInt) MarshalAmino() (int64, error) {
	if z == -1 {
		return 0, errEnc
	}
	return ^int64(z), nil
}
func (z *ZInt) UnmarshalAmino(i int64) error {
	if i == 0 {
		return errDec
	}
	*z = ZInt(^i)
	return nil
}
func (z ZI32) MarshalAmino() (int32, error) {
	if z == -1 {
		return 0, errEnc
	}
	return ^int32(z), nil
}
func (z *ZI32) UnmarshalAmino(i int32) error {
	if i == 0 {
		return errDec
	}
	*z = ZI32(^i)
	return nil
}
func (z ZU8) MarshalAmino() (uint8, error) {
	if z == 255 {
		return 0, errEnc
	}
	return ^uint8(z), nil
}
func (z *ZU8) UnmarshalAmino(i uint8) error {
	if i == 0 {
		return errDec
	}
	*z = ZU8(^i)
	return nil
}
func (z ZBz) MarshalAmino() ([]byte, error) {
	if string(z) == pzEnc {
		return nil, errEnc
	}
	return append([]byte{9}, z...), nil
}
func (z *ZBz) UnmarshalAmino(b []byte) error {
	if len(b) == 0 {
		return errDec
	}
	*z = nil
	if len(b) > 1 {
		*z = append(ZBz(nil), b[1:]...)
	}
	return nil
}
func (z ZL) MarshalAmino() ([]string, error) {
	if len(z) > 0 && z[0] == pzEnc {
		return nil, errEnc
	}
	return append([]string{"first"}, z...), nil
}
func (z *ZL) UnmarshalAmino(l []string) error {
	if len(l) == 0 {
		return errDec
	}
	*z = nil
	if len(l) > 1 {
		*z = append(ZL(nil), l[1:]...)
	}
	return nil
}
func (z ZI) MarshalAmino() ([]int32, error) {
	if len(z) > 0 && z[0] == 6660 {
		return nil, errEnc
	}
	return append([]int32{7}, z...), nil
}
func (z *ZI) UnmarshalAmino(l []int32) error {
	if len(l) == 0 {
		return errDec
	}
	*z = nil
	if len(l) > 1 {
		*z = append(ZI(nil), l[1:]...)
	}
	return nil
}
func (z ZAr) MarshalAmino() ([2]int32, error) {
	if z[0] == -1 {
		return [2]int32{}, errEnc
	}
	return [2]int32{^z[0], ^z[1]}, nil
}
func (z *ZAr) UnmarshalAmino(a [2]int32) error {
	if a[0] == 0 {
		return errDec
	}
	*z = ZAr{^a[0], ^a[1]}
	return nil
}
func (z ZB4) MarshalAmino() ([4]byte, error) {
	if z[0] == 255 {
		return [4]byte{}, errEnc
	}
	return [4]byte{^z[3], ^z[2], ^z[1], ^z[0]}, nil
}
func (z *ZB4) UnmarshalAmino(a [4]byte) error {
	if a[3] == 0 {
		return errDec
	}
	*z = ZB4{^a[3], ^a[2], ^a[1], ^a[0]}
	return nil
}
func (z ZBs) MarshalAmino() (string, error) {
	if z[0] == 255 {
		return "", errEnc
	}
	return hex.EncodeToString(z[:]), nil
}
func (z *ZBs) UnmarshalAmino(s string) error {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 3 {
		return errDec
	}
	copy(z[:], b)
	return nil
}
func (z ZAs) MarshalAmino() ([2]string, error) {
	if z[0] == pzEnc {
		return [2]string{}, errEnc
	}
	return [2]string{z[1] + "+", z[0]}, nil
}
func (z *ZAs) UnmarshalAmino(a [2]string) error {
	if a[0] == "" {
		return errDec
	}
	*z = ZAs{a[1], a[0][:len(a[0])-1]}
	return nil
}
func (z ZHx) MarshalAmino() ([]byte, error) {
	if z.h[0] == 255 {
		return nil, errEnc
	}
	return []byte{1, z.h[0], z.h[1]}, nil
}
func (z *ZHx) UnmarshalAmino(b []byte) error {
	if len(b) != 3 || b[0] != 1 {
		return errDec
	}
	copy(z.h[:], b[1:])
	return nil
}
func (z ZSt) MarshalAmino() (RZ, error) {
	if z.s == pzEnc {
		return RZ{}, errEnc
	}
	return RZ{^z.n, z.s}, nil
}
func (z *ZSt) UnmarshalAmino(r RZ) error {
	if r.N == 0 {
		return errDec
	}
	*z = ZSt{^r.N, r.S}
	return nil
}
func (z ZCh) MarshalAmino() (RZC, error) {
	if z.s == pzEnc {
		return RZC{}, errEnc
	}
	return RZC{1, z.s}, nil
}
func (z *ZCh) UnmarshalAmino(r RZC) error {
	if r.N == 0 {
		return errDec
	}
	z.s = r.S
	return nil
}
func (z QStr) MarshalAmino() (string, error) {
	if z == "" {
		return "", errEnc
	}
	return rev(string(z)), nil
}
func (z *QStr) UnmarshalAmino(s string) error {
	if s == "" {
		return errDec
	}
	*z = QStr(rev(s))
	return nil
}
func (z QInt) MarshalAmino() (int64, error) {
	if z == 0 {
		return 0, errEnc
	}
	return -int64(z), nil
}
func (z *QInt) UnmarshalAmino(i int64) error {
	if i == 0 {
		return errDec
	}
	*z = QInt(-i)
	return nil
}
func (z QBz) MarshalAmino() ([]byte, error) {
	if len(z) == 0 {
		return nil, errEnc
	}
	return xor(z), nil
}
func (z *QBz) UnmarshalAmino(b []byte) error {
	if len(b) == 0 {
		return errDec
	}
	*z = xor(b)
	return nil
}
func (z QL) MarshalAmino() ([]string, error) {
	if len(z) == 0 {
		return nil, errEnc
	}
	return revs(z), nil
}
func (z *QL) UnmarshalAmino(l []string) error {
	if len(l) == 0 {
		return errDec
	}
	*z = revs(l)
	return nil
}
func (z QSt) MarshalAmino() (RIn, error) {
	if z.N == 0 {
		return RIn{}, errEnc
	}
	return RIn{int32(z.N), 0}, nil
}
func (z *QSt) UnmarshalAmino(r RIn) error {
	if r.X == 0 {
		return errDec
	}
	z.N = int64(r.X)
	return nil
}

var zeroKinds = []*hookKind{
	{t: typeOf[ZStr](), fill: func(r *rand.Rand, g *gen) interface{} { return ZStr(g.str()) }, enc: ZStr(pzEnc), dec: ""},
	{t: typeOf[ZInt](), fill: func(r *rand.Rand, g *gen) interface{} { return ZInt(genUint(r, 60)) }, enc: ZInt(-1), dec: int64(0)},
	{t: typeOf[ZI32](), fill: func(r *rand.Rand, g *gen) interface{} { return ZI32(genUint(r, 30)) }, enc: ZI32(-1), dec: int32(0)},
	{t: typeOf[ZU8](), fill: func(r *rand.Rand, g *gen) interface{} { return ZU8(genUint(r, 7)) }, enc: ZU8(255), dec: uint8(0)},
	{t: typeOf[ZBz](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZBz(g.bytes()) }, enc: ZBz(pzEnc), dec: []byte{}},
	{t: typeOf[ZL](), list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h ZL
		for i := 0; i < r.Intn(3); i++ {
			h = append(h, g.str())
		}
		return h
	}, enc: ZL{pzEnc}, dec: []string{}},
	{t: typeOf[ZI](), list: true, fill: func(r *rand.Rand, g *gen) interface{} {
		var h ZI
		for i := 0; i < r.Intn(3); i++ {
			h = append(h, int32(genInt(r, 12)))
		}
		return h
	}, enc: ZI{6660}, dec: []int32{}},
	{t: typeOf[ZAr](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZAr{int32(genUint(r, 30)), int32(genInt(r, 32))} }, enc: ZAr{-1}, dec: [2]int32{}},
	{t: typeOf[ZB4](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZB4{byte(r.Intn(128)), byte(r.Intn(2))} }, enc: ZB4{255}, dec: [4]byte{}},
	{t: typeOf[ZBs](), list: true, cross: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZBs{byte(r.Intn(128)), byte(r.Intn(256))} }, enc: ZBs{255}, dec: "0"},
	{t: typeOf[ZAs](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZAs{g.str(), g.str()} }, enc: ZAs{pzEnc}, dec: [2]string{}},
	{t: typeOf[ZHx](), list: true, cross: true, fill: func(r *rand.Rand, g *gen) interface{} { return ZHx{[2]byte{byte(r.Intn(128)), byte(r.Intn(256))}} }, enc: ZHx{[2]byte{255}}, dec: []byte{2}},
	{t: typeOf[ZSt](), fill: func(r *rand.Rand, g *gen) interface{} { return ZSt{int64(genUint(r, 60)), g.str()} }, enc: ZSt{s: pzEnc}, dec: RZ{}},
	{t: typeOf[ZCh](), fill: func(r *rand.Rand, g *gen) interface{} { return ZCh{ZStr(g.str())} }, enc: ZCh{pzEnc}, dec: RZC{}},
	{t: typeOf[QStr](), fill: func(r *rand.Rand, g *gen) interface{} { return QStr("q" + g.str()) }, enc: QStr(""), dec: ""},
	{t: typeOf[QInt](), fill: func(r *rand.Rand, g *gen) interface{} { return QInt(1 + genUint(r, 60)) }, enc: QInt(0), dec: int64(0)},
	{t: typeOf[QBz](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return QBz(append([]byte{1}, g.bytes()...)) }, enc: QBz{}, dec: []byte{}},
	{t: typeOf[QL](), list: true, fill: func(r *rand.Rand, g *gen) interface{} { return QL{"q", g.str()} }, enc: QL{}, dec: []string{}},
	{t: typeOf[QSt](), fill: func(r *rand.Rand, g *gen) interface{} { return QSt{1 + int64(genUint(r, 30))} }, enc: QSt{}, dec: RIn{}},
}

// harmless makes fill avoid the values that make a hook fail.
func harmless(h *hookKind) {
	fill := h.fill
	h.fill = func(r *rand.Rand, g *gen) interface{} {
		for {
			o := fill(r, g)
			ok := true
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				v := reflect.ValueOf(o)
				if j, is := clone(v).Addr().Interface().(json.Marshaler); is {
					b, err := j.MarshalJSON()
					if err == nil {
						err = reflect.New(h.t).Interface().(json.Unmarshaler).UnmarshalJSON(b)
					}
					ok = err == nil
				}
				if isMarshaler(h.t) {
					m := callMarshal(v)
					ok = ok && m[1].IsNil() && reflect.New(h.t).MethodByName("UnmarshalAmino").Call(m[:1])[0].IsNil()
				}
			}()
			if ok {
				return o
			}
		}
	}
}

func init() {
	for _, h := range hookKinds {
		harmless(h)
	}
	for _, h := range zeroKinds {
		harmless(h)
		hookByType[h.t] = h
	}
	for h, m := range map[reflect.Type]reflect.Type{
		typeOf[ZStr](): typeOf[YStr](), typeOf[ZInt](): typeOf[YInt](), typeOf[ZBz](): typeOf[YBz](), typeOf[ZL](): typeOf[YL](), typeOf[ZSt](): typeOf[YSt](), typeOf[ZAr](): typeOf[YAr](), typeOf[ZB4](): typeOf[YB4](), typeOf[ZBs](): typeOf[YBs](),
	} {
		hookMirror[h] = m
	}
}

// zeroPlaces are types around t in which a zero value of it is not left out.
func zeroPlaces(t reflect.Type, js bool) (out []reflect.Type) {
	h := hookByType[t]
	if js || !h.cross {
		out = append(out, t)
	}
	we := `amino:"write_empty"`
	for _, tag := range []string{we, we + ` binary:"fixed64"`, we + ` binary:"fixed32"`, we + ` json:"zz"`} {
		out = append(out,
			reflect.StructOf([]reflect.StructField{fld("A", typeOf[int32](), ""), fld("F", t, tag), fld("Z", typeOf[string](), "")}),
			reflect.StructOf([]reflect.StructField{fld("F", reflect.PtrTo(t), tag), fld("G", t, we)}))
	}
	out = append(out, reflect.StructOf([]reflect.StructField{fld("S", reflect.StructOf([]reflect.StructField{fld("F", t, we)}), "")}))
	if k := t.Kind(); js && k != reflect.Uint8 || k >= reflect.Int && k <= reflect.Uint64 && k != reflect.Uint8 { // (packed)
		out = append(out,
			reflect.SliceOf(t), reflect.ArrayOf(2, t),
			reflect.StructOf([]reflect.StructField{fld("F", reflect.SliceOf(t), `json:"x"`), fld("G", reflect.ArrayOf(2, t), "")}))
	}
	if js { // (in binary, a pointer to a zero value in a list comes back as nil)
		out = append(out, reflect.SliceOf(reflect.PtrTo(t)), reflect.MapOf(typeOf[string](), t), reflect.StructOf([]reflect.StructField{fld("F", t, ""), fld("P", reflect.PtrTo(t), `json:"-,"`), fld("O", t, "")}))
	} else if !h.list && t.Kind() == reflect.Struct {
		out = append(out, reflect.StructOf([]reflect.StructField{fld("F", reflect.PtrTo(t), "")}))
	}
	if k := t.Kind(); k == reflect.Array || k == reflect.Struct && reprType(t).Kind() != reflect.Struct || t == typeOf[ZCh]() { // never left out for being zero
		out = append(out, reflect.StructOf([]reflect.StructField{fld("F", t, "")}),
			reflect.StructOf([]reflect.StructField{fld("A", typeOf[int32](), ""), fld("F", t, `binary:"fixed32"`), fld("S", reflect.StructOf([]reflect.StructField{fld("F", t, "")}), "")}))
	}
	if hookMirror[t] != nil {
		out = append(out, reflect.StructOf([]reflect.StructField{fld("I", tIH, "")}))
	}
	return
}

// c21zero: zero values and zero representations.
func c21zero(t *T) {
	h := zeroKinds[t.idx%len(zeroKinds)]
	js := t.idx/len(zeroKinds)%2 == 0
	ps := zeroPlaces(h.t, js)
	rt := ps[t.idx/len(zeroKinds)/2%len(ps)]
	g := newGen(t.rng, newUniverse(t.rng))
	g.utf8 = true
	ca, cb := amino.NewCodec(), amino.NewCodec()
	if rt.Kind() == reflect.Struct && rt.Field(0).Type == tIH {
		ca, cb, _ = c21codecs(t.rng)
	}
	zero := h.t.Name()[0] == 'Z'
	v := reflect.New(rt).Elem()
	n := 0
	var fill func(v reflect.Value)
	fill = func(v reflect.Value) {
		if v.Type() == h.t || v.Type() == tIH {
			n++
			if !zero || t.rng.Intn(3) == 0 {
				v.Set(reflect.ValueOf(h.fill(t.rng, g)))
			} else if v.Type() == tIH {
				v.Set(reflect.Zero(h.t))
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem())
		case reflect.Slice:
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				fill(v.Index(i))
			}
		case reflect.Map:
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < 2; i++ {
				e := reflect.New(v.Type().Elem()).Elem()
				fill(e)
				v.SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), e)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fill(v.Field(i))
			}
		}
	}
	fill(v)
	c21case(t, ca, cb, js, v, n)
	t.count("zero values asked for")
}
