package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// The pool of named types that generated types are built from.

// named kinds
type (
	NInt    int
	NInt8   int8
	NInt16  int16
	NInt32  int32
	NInt64  int64
	NUint   uint
	NUint8  uint8
	NUint16 uint16
	NUint32 uint32
	NUint64 uint64
	NBool   bool
	NStr    string
	NBytes  []byte
	NBytes2 []NUint8
	NArr4   [4]byte
	NArr3n  [3]NUint8
	NInts   []int32
	NStrs   []string
	NLeaves []Leaf
	NFloat  float64
)

type Empty struct{}

type Leaf struct {
	A int32
	B string
}

type LeafP struct {
	P *int64
	Q *Leaf
	R []byte
}

// recursive
type Node struct {
	V    uint16
	Next *Node
	Kids []*Node
	Name string
}

type WithTimes struct {
	T  time.Time
	PT *time.Time
	TS []time.Time
	TP []*time.Time
	TA [2]time.Time
}

type Hidden struct {
	A     int32
	b     int32 //nolint
	C     string
	D     string `json:"-"`
	_     int64
	E     []byte
	inner struct{ X int } //nolint
}

type Embeds struct {
	Leaf
	*LeafP
	X int8
}

// more than 15 fields: two-byte field keys
type Wide struct {
	F01, F02, F03, F04, F05, F06, F07, F08, F09, F10 int32
	F11, F12, F13, F14                               string
	F15                                              []string
	F16                                              uint64
	F17                                              []int64
	F18                                              *Leaf
	F19                                              []Leaf
	F20                                              time.Time
	F21                                              []byte
	F22                                              int64 `binary:"fixed64"`
	F23                                              int8
}

type WideTimes struct {
	T1                             time.Time
	A1, A2, A3, A4, A5, A6, A7, A8 int16
	L                              struct {
		T2 time.Time
		S  []string
	}
	N  WithTimes
	T3 [2]time.Time
	B  []byte
}

// Äß has exported names that are not ASCII.
type Äß struct {
	Äpfel int32
	Ωs    []string
	Жт    time.Time
	É     struct{ Ü uint8 }
	ö     int //nolint
	日     int //nolint
}

// registered, and encodable in fields marked unsafe
type CFloat float64
type CFloat32 float32

type Ifaces struct {
	A I1
	B I2
	C []I1
	D interface{}
	E IA
	F [2]I1
}

// interfaces
type I1 interface{ Is1() }
type I2 interface{ Is2() }
type IA interface{ IsA() } // registered with AlwaysDisambiguate
type INone interface{ IsNone() }

// INever is never registered.
type INever interface{ Is1() }

// concretes
type (
	CSt struct {
		A int64
		S string
	}
	CPtr struct {
		A int64
		L []Leaf
		N *CPtr
	}
	CEmpty  struct{}
	CInt64  int64
	CInt32  int32
	CInt8   int8
	CUint8  uint8
	CUint   uint
	CBool   bool
	CStr    string
	CBytes  []byte
	CArr4   [4]byte
	CStrs   []string
	CInts   []int32
	CLeaves []Leaf
	CLeafPs []*Leaf
	CAr2    [2]int32
	CArSt   [2]Leaf
	CBytess [][]byte
	CIf     struct {
		X I1
		Y []I2
		Z interface{}
	}
	CTimes struct {
		T time.Time
		P *time.Time
	}
	CPOnly struct{ V int32 }  // only the pointer implements the interfaces
	COther struct{ V string } // implements nothing (but interface{})
	CMap   map[string]int32   // JSON only
)

// methods that nobody may call (see methods.go)
func (CInt64) String() string          { return lie }
func (CInt64) Error() string           { return lie }
func (CStr) String() string            { return lie }
func (CSt) Format(s fmt.State, _ rune) { _, _ = s.Write([]byte(lie)) }
func (CSt) IsZero() bool               { return true }
func (CBytes) String() string          { return lie }
func (CStrs) Len() int                 { return 1 }
func (*CPtr) Reset()                   { panic(lie) }
func (*CPtr) String() string           { return lie }

func (CSt) Is1()     {}
func (CSt) Is2()     {}
func (CSt) IsA()     {}
func (CPtr) Is1()    {}
func (CPtr) IsA()    {}
func (CEmpty) Is1()  {}
func (CEmpty) Is2()  {}
func (CEmpty) IsA()  {}
func (CInt64) Is1()  {}
func (CInt64) Is2()  {}
func (CInt64) IsA()  {}
func (CInt32) Is1()  {}
func (CInt8) Is1()   {}
func (CInt8) Is2()   {}
func (CUint8) Is1()  {}
func (CUint) Is2()   {}
func (CBool) Is1()   {}
func (CBool) Is2()   {}
func (CBool) IsA()   {}
func (CStr) Is1()    {}
func (CStr) Is2()    {}
func (CStr) IsA()    {}
func (CBytes) Is1()  {}
func (CBytes) IsA()  {}
func (CArr4) Is1()   {}
func (CArr4) Is2()   {}
func (CStrs) Is1()   {}
func (CStrs) IsA()   {}
func (CInts) Is1()   {}
func (CInts) Is2()   {}
func (CLeaves) Is1() {}
func (CLeaves) Is2() {}
func (CLeafPs) Is1() {}
func (CAr2) Is1()    {}
func (CAr2) Is2()    {}
func (CArSt) Is1()   {}
func (CArSt) IsA()   {}
func (CBytess) Is1() {}
func (CBytess) Is2() {}
func (CIf) Is1()     {}
func (CIf) Is2()     {}
func (CIf) IsA()     {}
func (CTimes) Is1()  {}
func (*CPOnly) Is1() {}
func (*CPOnly) Is2() {}
func (CMap) Is1()    {}

// Types with representations. The zero value always corresponds to the zero
// representation, as an omitted value is not passed to UnmarshalAmino.

type hookErr struct{ msg string }

func (e *hookErr) Error() string { return e.msg }

var errHook = &hookErr{"hook failed"}

const poison = "poison" // a value that makes the hooks fail

// struct -> string
type MStr struct{ X, Y int32 }

func (m MStr) Is1() {}
func (m MStr) IsA() {}
func (m MStr) MarshalAmino() (string, error) {
	if m.X == -666 {
		return "", errHook
	}
	if m.X == 0 && m.Y == 0 {
		return "", nil
	}
	return fmt.Sprintf("%d/%d", m.X, m.Y), nil
}
func (m *MStr) UnmarshalAmino(s string) error {
	if s == "" {
		*m = MStr{}
		return nil
	}
	if s == poison {
		return errHook
	}
	var x, y int32
	if n, err := fmt.Sscanf(s, "%d/%d", &x, &y); n != 2 || err != nil || fmt.Sprintf("%d/%d", x, y) != s || x == -666 {
		return errors.New("bad MStr")
	}
	*m = MStr{x, y}
	return nil
}

// struct -> struct
type MSt struct {
	hi, lo int32
	note   string
}
type MStRepr struct {
	V int64
	N string
}

func (m MSt) Is1() {}
func (m MSt) Is2() {}
func (m MSt) MarshalAmino() (MStRepr, error) {
	if m.note == poison {
		return MStRepr{}, errHook
	}
	return MStRepr{int64(m.hi)<<32 | int64(uint32(m.lo)), m.note}, nil
}
func (m *MSt) UnmarshalAmino(r MStRepr) error {
	if r.N == poison {
		return errHook
	}
	*m = MSt{int32(r.V >> 32), int32(r.V), r.N}
	return nil
}

// Pointer receivers: struct -> struct, list -> list
type (
	MPtr  struct{ A, B int32 }
	MPtrS []string
)

func (m MPtr) Is2() {}
func (m MPtr) IsA() {}
func (m *MPtr) MarshalAmino() (Leaf, error) {
	if m.A == -666 {
		return Leaf{}, errHook
	}
	if *m == (MPtr{}) {
		return Leaf{}, nil
	}
	return Leaf{m.B, fmt.Sprint("p", m.A)}, nil
}
func (m *MPtr) UnmarshalAmino(r Leaf) error {
	if r == (Leaf{}) {
		*m = MPtr{}
		return nil
	}
	x, err := strconv.ParseInt(strings.TrimPrefix(r.B, "p"), 10, 32)
	if err != nil || fmt.Sprint("p", x) != r.B || x == -666 || x == 0 && r.A == 0 {
		return errHook
	}
	*m = MPtr{int32(x), r.A}
	return nil
}
func (m *MPtrS) MarshalAmino() ([]string, error) {
	var out []string
	for _, s := range *m {
		if s == poison {
			return nil, errHook
		}
		out = append(out, "<"+s)
	}
	return out, nil
}
func (m *MPtrS) UnmarshalAmino(r []string) error {
	*m = nil
	for _, s := range r {
		if s == "" || s[0] != '<' || s[1:] == poison {
			return errHook
		}
		*m = append(*m, s[1:])
	}
	return nil
}

// int64 -> int64
type MInt int64

func (m MInt) Is1() {}
func (m MInt) MarshalAmino() (int64, error) {
	if m == 666666 {
		return 0, errHook
	}
	return -int64(m), nil
}
func (m *MInt) UnmarshalAmino(r int64) error {
	if r == -666666 {
		return errHook
	}
	*m = MInt(-r)
	return nil
}

// bytes -> string
type MHex []byte

func (m MHex) Is2() {}
func (m MHex) MarshalAmino() (string, error) {
	if string(m) == poison {
		return "", errHook
	}
	return hex.EncodeToString(m), nil
}
func (m *MHex) UnmarshalAmino(r string) error {
	if r == "" {
		*m = nil
		return nil
	}
	if strings.ToLower(r) != r {
		return errors.New("bad MHex")
	}
	bz, err := hex.DecodeString(r)
	if err != nil {
		return err
	}
	if string(bz) == poison {
		return errHook
	}
	*m = bz
	return nil
}

// struct -> list of structs
type MList struct{ names, vals string }

func (m MList) MarshalAmino() ([]Leaf, error) {
	if m.names == poison {
		return nil, errHook
	}
	var out []Leaf
	if m.names != "" || m.vals != "" {
		out = append(out, Leaf{1, m.names}, Leaf{2, m.vals})
	}
	return out, nil
}
func (m *MList) UnmarshalAmino(r []Leaf) error {
	if len(r) == 0 {
		*m = MList{}
		return nil
	}
	if len(r) != 2 || r[0].A != 1 || r[1].A != 2 || (r[0].B == "" && r[1].B == "") || r[0].B == poison {
		return errHook
	}
	*m = MList{r[0].B, r[1].B}
	return nil
}

// string -> struct
type MPair string

func (m MPair) Is1() {}
func (m MPair) MarshalAmino() (Leaf, error) {
	if m == poison {
		return Leaf{}, errHook
	}
	return Leaf{int32(len(m)), string(m)}, nil
}
func (m *MPair) UnmarshalAmino(r Leaf) error {
	if int(r.A) != len(r.B) || r.B == poison {
		return errHook
	}
	*m = MPair(r.B)
	return nil
}

// list of strings -> string
type MCsv []string

func (m MCsv) MarshalAmino() (string, error) {
	for _, s := range m {
		if s == poison {
			return "", errHook
		}
	}
	if len(m) == 0 {
		return "", nil
	}
	return ";" + strings.Join(m, ";"), nil
}
func (m *MCsv) UnmarshalAmino(r string) error {
	if r == "" {
		*m = nil
		return nil
	}
	if r[0] != ';' {
		return errors.New("bad MCsv")
	}
	*m = strings.Split(r[1:], ";")
	for _, s := range *m {
		if s == poison {
			return errHook
		}
	}
	return nil
}

// Types with their own JSON methods (used in JSON only)

type JStr struct{ v string }

func (j JStr) MarshalJSON() ([]byte, error) {
	if j.v == poison {
		return nil, errHook
	}
	return json.Marshal("j:" + j.v)
}
func (j *JStr) UnmarshalJSON(bz []byte) error {
	var s string
	if err := json.Unmarshal(bz, &s); err != nil {
		return err
	}
	if !strings.HasPrefix(s, "j:") || s == "j:"+poison {
		return errHook
	}
	j.v = s[2:]
	return nil
}

// Like JStr, but the methods are those of the pointer.
type JPtr struct{ V string }

func (j JPtr) Is1() {}
func (j *JPtr) MarshalJSON() ([]byte, error) {
	if j.V == poison {
		return nil, errHook
	}
	return json.Marshal([]string{"p", j.V})
}
func (j *JPtr) UnmarshalJSON(bz []byte) error {
	var s []string
	if err := json.Unmarshal(bz, &s); err != nil {
		return err
	}
	if len(s) != 2 || s[0] != "p" || s[1] == poison {
		return errHook
	}
	j.V = s[1]
	return nil
}

// Types with text methods, which Amino:JSON does not use: not for 64-bit
// integers, nor for the keys of maps.

type (
	TInt  int64
	TUint uint
	TKey  string
)

func (x TInt) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("t%d", int64(x))), nil }
func (x TUint) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("t%d", uint(x))), nil }
func (x TKey) MarshalText() ([]byte, error)  { return []byte("t:" + x), nil }
func (x TKey) MarshalJSON() ([]byte, error)  { return json.Marshal("m:" + string(x)) }
func (x *TInt) UnmarshalText(bz []byte) error {
	_, err := fmt.Sscanf(string(bz), "t%d", (*int64)(x))
	return err
}
func (x *TUint) UnmarshalText(bz []byte) error {
	_, err := fmt.Sscanf(string(bz), "t%d", (*uint)(x))
	return err
}
func (x *TKey) UnmarshalText(bz []byte) error {
	*x = TKey(strings.TrimPrefix(string(bz), "t:"))
	return nil
}
func (x *TKey) UnmarshalJSON(bz []byte) error {
	var s string
	if err := json.Unmarshal(bz, &s); err != nil {
		return err
	}
	*x = TKey(strings.TrimPrefix(s, "m:"))
	return nil
}

type JInt int32

func (j JInt) Is1() {}
func (j JInt) MarshalJSON() ([]byte, error) {
	if j == -666 {
		return nil, errHook
	}
	text := fmt.Sprintf(`{"n": [%d]}`, int32(j))
	switch uint32(j) % 8 { // white space is valid, too
	case 1:
		text += "\n"
	case 2:
		text = " " + text
	case 3:
		text = "\t\r\n" + text + "  \n\n"
	}
	return []byte(text), nil
}
func (j *JInt) UnmarshalJSON(bz []byte) error {
	var s struct{ N []int32 }
	if err := json.Unmarshal(bz, &s); err != nil {
		return err
	}
	if len(s.N) != 1 || s.N[0] == -666 {
		return errHook
	}
	*j = JInt(s.N[0])
	return nil
}

var (
	tTime   = reflect.TypeOf(time.Time{})
	tI1     = reflect.TypeOf((*I1)(nil)).Elem()
	tI2     = reflect.TypeOf((*I2)(nil)).Elem()
	tIA     = reflect.TypeOf((*IA)(nil)).Elem()
	tIJ     = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tAny    = reflect.TypeOf((*interface{})(nil)).Elem()
	tINone  = reflect.TypeOf((*INone)(nil)).Elem()
	tINever = reflect.TypeOf((*INever)(nil)).Elem()
	tBytes  = reflect.TypeOf([]byte(nil))
	tError  = reflect.TypeOf((*error)(nil)).Elem()
)

var ifaceTypes = []reflect.Type{tI1, tI2, tIA, tAny, tIJ}

// What may be registered. jsonOnly ones have no binary encoding.
type concrete struct {
	rt       reflect.Type
	jsonOnly bool
	forcePtr bool
}

var concretes = []concrete{
	{rt: reflect.TypeOf(CSt{})}, {rt: reflect.TypeOf(CPtr{})}, {rt: reflect.TypeOf(CEmpty{})},
	{rt: reflect.TypeOf(CInt64(0))}, {rt: reflect.TypeOf(CInt32(0))}, {rt: reflect.TypeOf(CInt8(0))},
	{rt: reflect.TypeOf(CUint8(0))}, {rt: reflect.TypeOf(CUint(0))}, {rt: reflect.TypeOf(CBool(false))},
	{rt: reflect.TypeOf(CStr(""))}, {rt: reflect.TypeOf(CBytes(nil))}, {rt: reflect.TypeOf(CArr4{})},
	{rt: reflect.TypeOf(CStrs(nil))}, {rt: reflect.TypeOf(CInts(nil))}, {rt: reflect.TypeOf(CLeaves(nil))},
	{rt: reflect.TypeOf(CLeafPs(nil))}, {rt: reflect.TypeOf(CAr2{})}, {rt: reflect.TypeOf(CArSt{})},
	{rt: reflect.TypeOf(CBytess(nil))}, {rt: reflect.TypeOf(CIf{})}, {rt: reflect.TypeOf(CTimes{})},
	{rt: reflect.TypeOf(CPOnly{})}, {rt: reflect.TypeOf(COther{})}, {rt: reflect.TypeOf(MStr{})},
	{rt: reflect.TypeOf(MSt{})}, {rt: reflect.TypeOf(MInt(0))}, {rt: reflect.TypeOf(MHex(nil))},
	{rt: reflect.TypeOf(MPair(""))}, {rt: reflect.TypeOf(JInt(0))}, {rt: reflect.TypeOf(JPtr{})},
	{rt: reflect.TypeOf(MPtr{})},
	{rt: reflect.TypeOf(CMap(nil)), jsonOnly: true},
}
