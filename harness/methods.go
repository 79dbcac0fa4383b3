package main

import (
	"errors"
	"fmt"
	"reflect"
)

// Types with methods that amino does not know, or does not use for types of
// their kinds. The methods are called by fmt, package sort, encoding/gob and
// others, and tell lies, so whoever calls them is noticed.

const lie = `lie"\`

var errLie = errors.New(lie)

type (
	LyInt   int
	LyI64   int64
	LyU64   uint64
	LyI32   int32
	LyI16   int16
	LyU8    uint8
	LyBool  bool
	LyStr   string
	LyBytes []byte
	LyList  []int32
	LyStrs  []string
	LyArr   [3]uint32
	LyF64   float64
	LyMap   map[string]int32
	LySt    struct {
		A int32
		B string  `json:"b,omitempty"`
		C []LyI64 `json:",omitempty"`
		D *LySt
	}
	LyPt struct {
		W LySt
		X LyI64 `json:"x,omitempty" binary:"fixed64"`
		Y LyU64 `amino:"write_empty"`
		Z []LyU8
	}
)

func (LyInt) String() string                  { return lie }
func (LyInt) IsZero() bool                    { return true }
func (LyI64) Format(s fmt.State, _ rune)      { _, _ = s.Write([]byte(lie)) }
func (LyI64) Error() string                   { return lie }
func (LyI64) MarshalText() ([]byte, error)    { return []byte(lie), nil }
func (*LyI64) UnmarshalText([]byte) error     { return errLie }
func (LyU64) Format(s fmt.State, _ rune)      { _, _ = s.Write([]byte(lie)) }
func (*LyU64) Scan(fmt.ScanState, rune) error { return errLie }
func (LyU64) GoString() string                { return lie }
func (LyI32) String() string                  { return lie }
func (LyI32) Error() string                   { return lie }
func (LyI16) MarshalBinary() ([]byte, error)  { return []byte(lie), nil }
func (*LyI16) UnmarshalBinary([]byte) error   { return errLie }
func (LyU8) String() string                   { return lie }
func (LyU8) Format(s fmt.State, _ rune)       { _, _ = s.Write([]byte(lie)) }
func (LyBool) String() string                 { return lie }
func (LyBool) IsZero() bool                   { return true }
func (LyStr) String() string                  { return lie }
func (LyStr) Len() int                        { return 3 }
func (LyStr) GobEncode() ([]byte, error)      { return []byte(lie), nil }
func (*LyStr) GobDecode([]byte) error         { return errLie }
func (LyBytes) String() string                { return lie }
func (LyBytes) Bytes() []byte                 { return []byte(lie) }
func (LyBytes) MarshalBinary() ([]byte, error) {
	return []byte(lie), nil
}
func (*LyBytes) UnmarshalBinary([]byte) error { return errLie }
func (LyList) Len() int                       { return 1 }
func (LyList) Less(i, j int) bool             { return true }
func (LyList) Swap(i, j int)                  { panic(lie) }
func (LyList) String() string                 { return lie }
func (*LyStrs) Write([]byte) (int, error)     { return 0, errLie }
func (*LyStrs) Read([]byte) (int, error)      { return 0, errLie }
func (LyStrs) Error() string                  { return lie }
func (LyArr) String() string                  { return lie }
func (LyArr) Len() int                        { return 1 }
func (LyF64) String() string                  { return lie }
func (LyMap) String() string                  { return lie }
func (LyMap) Len() int                        { return 0 }
func (LySt) String() string                   { return lie }
func (LySt) Error() string                    { return lie }
func (LySt) IsZero() bool                     { return true }
func (LySt) Equal(LySt) bool                  { return true }
func (LySt) MarshalText() ([]byte, error)     { return []byte(lie), nil }
func (*LySt) UnmarshalText([]byte) error      { return errLie }
func (LySt) MarshalBinary() ([]byte, error)   { return []byte(lie), nil }
func (*LySt) UnmarshalBinary([]byte) error    { return errLie }
func (*LySt) Reset()                          { panic(lie) }
func (*LySt) ProtoMessage()                   { panic(lie) }
func (*LyPt) Size() int                       { return 0 }
func (*LyPt) Marshal() ([]byte, error)        { return nil, errLie }
func (*LyPt) Unmarshal([]byte) error          { return errLie }
func (*LyPt) IsZero() bool                    { return true }
func (LyPt) Format(s fmt.State, _ rune)       { _, _ = s.Write([]byte(lie)) }
func (*LyPt) Clone() *LyPt                    { panic(lie) }

var lyingScalars = []reflect.Type{reflect.TypeOf(LyInt(0)), reflect.TypeOf(LyI64(0)), reflect.TypeOf(LyU64(0)), reflect.TypeOf(LyI32(0)),
	reflect.TypeOf(LyI16(0)), reflect.TypeOf(LyU8(0)), reflect.TypeOf(LyBool(false)), reflect.TypeOf(LyStr("")), reflect.TypeOf(LyBytes(nil))}

var lyingStructs = []reflect.Type{reflect.TypeOf(LySt{}), reflect.TypeOf(LyPt{})}

var lyingLists = []reflect.Type{reflect.TypeOf(LyList(nil)), reflect.TypeOf(LyStrs(nil)), reflect.TypeOf(LyArr{})}
