// Code generated by mkproto.py; DO NOT EDIT.

package main

import "time"

type PA0 struct {
}

type PM0 struct {
	XXX_unrecognized []byte
}

func (m *PM0) Reset()         { *m = PM0{} }
func (m *PM0) String() string { return "" }
func (*PM0) ProtoMessage()    {}

type PA1 struct {
	F1  []NStr
	F2  []*time.Time
	F3  time.Time
	F4  []NBytes
	F5  [][4]byte
	F6  [][]byte
	F7  int64
	F8  []NStr
	F9  [2]string
	F10 uint64    `binary:"fixed64"`
	F11 []float64 `amino:"unsafe"`
	F12 []float32 `amino:"unsafe"`
}

type PM1 struct {
	F1               []string  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               []*PTime  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               *PTime    `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               [][]byte  `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               [][]byte  `protobuf:"bytes,5,rep,name=F5,proto3"`
	F6               [][]byte  `protobuf:"bytes,6,rep,name=F6,proto3"`
	F7               int64     `protobuf:"varint,7,opt,name=F7,proto3"`
	F8               []string  `protobuf:"bytes,8,rep,name=F8,proto3"`
	F9               []string  `protobuf:"bytes,9,rep,name=F9,proto3"`
	F10              uint64    `protobuf:"fixed64,10,opt,name=F10,proto3"`
	F11              []float64 `protobuf:"fixed64,11,rep,packed,name=F11,proto3"`
	F12              []float32 `protobuf:"fixed32,12,rep,packed,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM1) Reset()         { *m = PM1{} }
func (m *PM1) String() string { return "" }
func (*PM1) ProtoMessage()    {}

type PA2 struct {
	F1  []NInt64 `binary:"fixed64"`
	F2  []PA2
	F3  []uint64 `binary:"fixed64"`
	F4  PA1
	F5  []uint32 `binary:"fixed32"`
	F6  [3]int32 `binary:"fixed32"`
	F7  []int64  `binary:"fixed64"`
	F8  []int32  `binary:"fixed32"`
	F9  string
	F10 []NInt8
	F11 *PA2
	F12 []uint
	F13 []NBool
	F14 []NUint64
	F15 [1]NInt8
	F16 [4]byte
	F17 []int32
	F18 [1]NInt32
	F19 []bool
	F20 int
}

type PM2 struct {
	F1               []int64  `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               []*PM2   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []uint64 `protobuf:"fixed64,3,rep,packed,name=F3,proto3"`
	F4               *PM1     `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               []uint32 `protobuf:"fixed32,5,rep,packed,name=F5,proto3"`
	F6               []int32  `protobuf:"fixed32,6,rep,packed,name=F6,proto3"`
	F7               []int64  `protobuf:"fixed64,7,rep,packed,name=F7,proto3"`
	F8               []int32  `protobuf:"fixed32,8,rep,packed,name=F8,proto3"`
	F9               string   `protobuf:"bytes,9,opt,name=F9,proto3"`
	F10              []int32  `protobuf:"zigzag32,10,rep,packed,name=F10,proto3"`
	F11              *PM2     `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              []uint64 `protobuf:"varint,12,rep,packed,name=F12,proto3"`
	F13              []bool   `protobuf:"varint,13,rep,packed,name=F13,proto3"`
	F14              []uint64 `protobuf:"varint,14,rep,packed,name=F14,proto3"`
	F15              []int32  `protobuf:"zigzag32,15,rep,packed,name=F15,proto3"`
	F16              []byte   `protobuf:"bytes,16,opt,name=F16,proto3"`
	F17              []int32  `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18              []int32  `protobuf:"varint,18,rep,packed,name=F18,proto3"`
	F19              []bool   `protobuf:"varint,19,rep,packed,name=F19,proto3"`
	F20              int64    `protobuf:"varint,20,opt,name=F20,proto3"`
	XXX_unrecognized []byte
}

func (m *PM2) Reset()         { *m = PM2{} }
func (m *PM2) String() string { return "" }
func (*PM2) ProtoMessage()    {}

type PA3 struct {
	F1 []uint
	F2 NInt64 `binary:"fixed64"`
}

type PM3 struct {
	F1               []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               int64    `protobuf:"fixed64,2,opt,name=F2,proto3"`
	XXX_unrecognized []byte
}

func (m *PM3) Reset()         { *m = PM3{} }
func (m *PM3) String() string { return "" }
func (*PM3) ProtoMessage()    {}

type PA4 struct {
	F1 []uint64
	F2 []uint32
	F3 []NInt64 `binary:"fixed64"`
	F4 []uint16
	F5 []uint64
	F6 uint64
	F7 [1]int
	F8 []int64
}

type PM4 struct {
	F1               []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3               []int64  `protobuf:"fixed64,3,rep,packed,name=F3,proto3"`
	F4               []uint32 `protobuf:"varint,4,rep,packed,name=F4,proto3"`
	F5               []uint64 `protobuf:"varint,5,rep,packed,name=F5,proto3"`
	F6               uint64   `protobuf:"varint,6,opt,name=F6,proto3"`
	F7               []int64  `protobuf:"varint,7,rep,packed,name=F7,proto3"`
	F8               []int64  `protobuf:"varint,8,rep,packed,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM4) Reset()         { *m = PM4{} }
func (m *PM4) String() string { return "" }
func (*PM4) ProtoMessage()    {}

type PA5 struct {
	F1  NBytes
	F2  []int32
	F3  []int16
	F4  []int8
	F5  NBytes
	F6  int16
	F7  [4]byte
	F8  []byte
	F9  [4]byte
	F10 NStr
	F11 string
	F12 float64 `amino:"unsafe"`
}

type PM5 struct {
	F1               []byte  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3               []int32 `protobuf:"zigzag32,3,rep,packed,name=F3,proto3"`
	F4               []int32 `protobuf:"zigzag32,4,rep,packed,name=F4,proto3"`
	F5               []byte  `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7               []byte  `protobuf:"bytes,7,opt,name=F7,proto3"`
	F8               []byte  `protobuf:"bytes,8,opt,name=F8,proto3"`
	F9               []byte  `protobuf:"bytes,9,opt,name=F9,proto3"`
	F10              string  `protobuf:"bytes,10,opt,name=F10,proto3"`
	F11              string  `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              float64 `protobuf:"fixed64,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM5) Reset()         { *m = PM5{} }
func (m *PM5) String() string { return "" }
func (*PM5) ProtoMessage()    {}

type PA6 struct {
	F1 float32 `amino:"unsafe"`
	F2 NInt64  `binary:"fixed64"`
}

type PM6 struct {
	F1               float32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2               int64   `protobuf:"fixed64,2,opt,name=F2,proto3"`
	XXX_unrecognized []byte
}

func (m *PM6) Reset()         { *m = PM6{} }
func (m *PM6) String() string { return "" }
func (*PM6) ProtoMessage()    {}

type PA7 struct {
	F1  uint64 `binary:"fixed64"`
	F2  uint32 `binary:"fixed32"`
	F3  int64  `binary:"fixed64"`
	F4  int32  `binary:"fixed32"`
	F5  NBool
	F6  NUint64
	F7  NInt8
	F8  NInt32
	F9  bool
	F10 []int16
	F11 [3]float64 `amino:"unsafe"`
	F12 uint
}

type PM7 struct {
	F1               uint64    `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2               uint32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3               int64     `protobuf:"fixed64,3,opt,name=F3,proto3"`
	F4               int32     `protobuf:"fixed32,4,opt,name=F4,proto3"`
	F5               bool      `protobuf:"varint,5,opt,name=F5,proto3"`
	F6               uint64    `protobuf:"varint,6,opt,name=F6,proto3"`
	F7               int32     `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8               int32     `protobuf:"varint,8,opt,name=F8,proto3"`
	F9               bool      `protobuf:"varint,9,opt,name=F9,proto3"`
	F10              []int32   `protobuf:"zigzag32,10,rep,packed,name=F10,proto3"`
	F11              []float64 `protobuf:"fixed64,11,rep,packed,name=F11,proto3"`
	F12              uint64    `protobuf:"varint,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM7) Reset()         { *m = PM7{} }
func (m *PM7) String() string { return "" }
func (*PM7) ProtoMessage()    {}

type PA8 struct {
	F1 [3]*time.Time
}

type PM8 struct {
	F1               []*PTime `protobuf:"bytes,1,rep,name=F1,proto3"`
	XXX_unrecognized []byte
}

func (m *PM8) Reset()         { *m = PM8{} }
func (m *PM8) String() string { return "" }
func (*PM8) ProtoMessage()    {}

type PA9 struct {
	F1 uint64
	F2 [2]NBytes
}

type PM9 struct {
	F1               uint64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	XXX_unrecognized []byte
}

func (m *PM9) Reset()         { *m = PM9{} }
func (m *PM9) String() string { return "" }
func (*PM9) ProtoMessage()    {}

type PA10 struct {
	F1 []byte
	F2 []*time.Time
	F3 []*PA7
}

type PM10 struct {
	F1               []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               []*PTime `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []*PM7   `protobuf:"bytes,3,rep,name=F3,proto3"`
	XXX_unrecognized []byte
}

func (m *PM10) Reset()         { *m = PM10{} }
func (m *PM10) String() string { return "" }
func (*PM10) ProtoMessage()    {}

type PA11 struct {
	F1 uint32
	F2 uint16
	F3 uint8
	F4 int
	F5 int64
}

type PM11 struct {
	F1               uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               uint32 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               uint32 `protobuf:"varint,3,opt,name=F3,proto3"`
	F4               int64  `protobuf:"varint,4,opt,name=F4,proto3"`
	F5               int64  `protobuf:"varint,5,opt,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM11) Reset()         { *m = PM11{} }
func (m *PM11) String() string { return "" }
func (*PM11) ProtoMessage()    {}

type PA12 struct {
	F1  int32
	F2  [1]*time.Time
	F3  int16
	F4  int8
	F5  []int64 `binary:"fixed64"`
	F6  []NInt32
	F7  int64 `binary:"fixed64"`
	F8  []int8
	F9  *PA4
	F10 NInt8
	F11 []float32 `amino:"unsafe"`
	F12 *PA8
}

type PM12 struct {
	F1               int32     `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               []*PTime  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               int32     `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4               int32     `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5               []int64   `protobuf:"fixed64,5,rep,packed,name=F5,proto3"`
	F6               []int32   `protobuf:"varint,6,rep,packed,name=F6,proto3"`
	F7               int64     `protobuf:"fixed64,7,opt,name=F7,proto3"`
	F8               []int32   `protobuf:"zigzag32,8,rep,packed,name=F8,proto3"`
	F9               *PM4      `protobuf:"bytes,9,opt,name=F9,proto3"`
	F10              int32     `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11              []float32 `protobuf:"fixed32,11,rep,packed,name=F11,proto3"`
	F12              *PM8      `protobuf:"bytes,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM12) Reset()         { *m = PM12{} }
func (m *PM12) String() string { return "" }
func (*PM12) ProtoMessage()    {}

type PA13 struct {
	F1 []NInt64 `binary:"fixed64"`
	F2 uint64
}

type PM13 struct {
	F1               []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
	XXX_unrecognized []byte
}

func (m *PM13) Reset()         { *m = PM13{} }
func (m *PM13) String() string { return "" }
func (*PM13) ProtoMessage()    {}

type PA14 struct {
	F1 [3]uint64 `binary:"fixed64"`
	F2 *PA0
	F3 uint64
	F4 [4]byte
	F5 int64 `binary:"fixed64"`
	F6 []uint64
}

type PM14 struct {
	F1               []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               *PM0     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               uint64   `protobuf:"varint,3,opt,name=F3,proto3"`
	F4               []byte   `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               int64    `protobuf:"fixed64,5,opt,name=F5,proto3"`
	F6               []uint64 `protobuf:"varint,6,rep,packed,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM14) Reset()         { *m = PM14{} }
func (m *PM14) String() string { return "" }
func (*PM14) ProtoMessage()    {}

type PA15 struct {
	F1 int
	F2 uint8
	F3 []int8
	F4 []*time.Time
	F5 []byte
	F6 int32
}

type PM15 struct {
	F1               int64    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               uint32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []int32  `protobuf:"zigzag32,3,rep,packed,name=F3,proto3"`
	F4               []*PTime `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []byte   `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               int32    `protobuf:"varint,6,opt,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM15) Reset()         { *m = PM15{} }
func (m *PM15) String() string { return "" }
func (*PM15) ProtoMessage()    {}

type PA16 struct {
	F1  string
	F2  int32
	F3  float64 `amino:"unsafe"`
	F4  [1]PA2
	F5  []int32 `binary:"fixed32"`
	F6  []bool
	F7  int64
	F8  [2]time.Time
	F9  int64
	F10 []*PA10
	F11 PA14
	F12 []NBytes
}

type PM16 struct {
	F1               string   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               int32    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               float64  `protobuf:"fixed64,3,opt,name=F3,proto3"`
	F4               []*PM2   `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []int32  `protobuf:"fixed32,5,rep,packed,name=F5,proto3"`
	F6               []bool   `protobuf:"varint,6,rep,packed,name=F6,proto3"`
	F7               int64    `protobuf:"varint,7,opt,name=F7,proto3"`
	F8               []*PTime `protobuf:"bytes,8,rep,name=F8,proto3"`
	F9               int64    `protobuf:"varint,9,opt,name=F9,proto3"`
	F10              []*PM10  `protobuf:"bytes,10,rep,name=F10,proto3"`
	F11              *PM14    `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              [][]byte `protobuf:"bytes,12,rep,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM16) Reset()         { *m = PM16{} }
func (m *PM16) String() string { return "" }
func (*PM16) ProtoMessage()    {}

type PA17 struct {
	F1 []time.Time
}

type PM17 struct {
	F1               []*PTime `protobuf:"bytes,1,rep,name=F1,proto3"`
	XXX_unrecognized []byte
}

func (m *PM17) Reset()         { *m = PM17{} }
func (m *PM17) String() string { return "" }
func (*PM17) ProtoMessage()    {}

type PA18 struct {
	F1  [1]bool
	F2  [1][4]byte
	F3  *PA15
	F4  *PA5
	F5  float32   `amino:"unsafe"`
	F6  [1]uint32 `binary:"fixed32"`
	F7  string
	F8  float32 `amino:"unsafe"`
	F9  []int64 `binary:"fixed64"`
	F10 uint32  `binary:"fixed32"`
	F11 NInt64  `binary:"fixed64"`
	F12 [][4]byte
	F13 []time.Time
	F14 []NStr
	F15 int16
	F16 []*PA8
	F17 uint32   `binary:"fixed32"`
	F18 float32  `amino:"unsafe"`
	F19 [3]int64 `binary:"fixed64"`
	F20 []*PA14
}

type PM18 struct {
	F1               []bool   `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               *PM15    `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               *PM5     `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               float32  `protobuf:"fixed32,5,opt,name=F5,proto3"`
	F6               []uint32 `protobuf:"fixed32,6,rep,packed,name=F6,proto3"`
	F7               string   `protobuf:"bytes,7,opt,name=F7,proto3"`
	F8               float32  `protobuf:"fixed32,8,opt,name=F8,proto3"`
	F9               []int64  `protobuf:"fixed64,9,rep,packed,name=F9,proto3"`
	F10              uint32   `protobuf:"fixed32,10,opt,name=F10,proto3"`
	F11              int64    `protobuf:"fixed64,11,opt,name=F11,proto3"`
	F12              [][]byte `protobuf:"bytes,12,rep,name=F12,proto3"`
	F13              []*PTime `protobuf:"bytes,13,rep,name=F13,proto3"`
	F14              []string `protobuf:"bytes,14,rep,name=F14,proto3"`
	F15              int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16              []*PM8   `protobuf:"bytes,16,rep,name=F16,proto3"`
	F17              uint32   `protobuf:"fixed32,17,opt,name=F17,proto3"`
	F18              float32  `protobuf:"fixed32,18,opt,name=F18,proto3"`
	F19              []int64  `protobuf:"fixed64,19,rep,packed,name=F19,proto3"`
	F20              []*PM14  `protobuf:"bytes,20,rep,name=F20,proto3"`
	XXX_unrecognized []byte
}

func (m *PM18) Reset()         { *m = PM18{} }
func (m *PM18) String() string { return "" }
func (*PM18) ProtoMessage()    {}

type PA19 struct {
	F1 []PA18
	F2 uint32 `binary:"fixed32"`
	F3 [][4]byte
	F4 NInt8
	F5 []time.Time
	F6 int32
}

type PM19 struct {
	F1               []*PM18  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               uint32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3               [][]byte `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5               []*PTime `protobuf:"bytes,5,rep,name=F5,proto3"`
	F6               int32    `protobuf:"varint,6,opt,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM19) Reset()         { *m = PM19{} }
func (m *PM19) String() string { return "" }
func (*PM19) ProtoMessage()    {}

type PA20 struct {
	F1 []*PA4
	F2 []PA3
	F3 []string
	F4 bool
	F5 []NBool
}

type PM20 struct {
	F1               []*PM4   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               []*PM3   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []string `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               bool     `protobuf:"varint,4,opt,name=F4,proto3"`
	F5               []bool   `protobuf:"varint,5,rep,packed,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM20) Reset()         { *m = PM20{} }
func (m *PM20) String() string { return "" }
func (*PM20) ProtoMessage()    {}

type PA21 struct {
	F1 uint
	F2 time.Time
	F3 [][4]byte
	F4 NBytes
}

type PM21 struct {
	F1               uint64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               *PTime   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               [][]byte `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []byte   `protobuf:"bytes,4,opt,name=F4,proto3"`
	XXX_unrecognized []byte
}

func (m *PM21) Reset()         { *m = PM21{} }
func (m *PM21) String() string { return "" }
func (*PM21) ProtoMessage()    {}

type PA22 struct {
	F1 [1]float64 `amino:"unsafe"`
	F2 []NStr
	F3 uint16
	F4 int
	F5 PA19
	F6 PA9
}

type PM22 struct {
	F1               []float64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               []string  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               uint32    `protobuf:"varint,3,opt,name=F3,proto3"`
	F4               int64     `protobuf:"varint,4,opt,name=F4,proto3"`
	F5               *PM19     `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               *PM9      `protobuf:"bytes,6,opt,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM22) Reset()         { *m = PM22{} }
func (m *PM22) String() string { return "" }
func (*PM22) ProtoMessage()    {}

type PA23 struct {
	F1 [][]byte
	F2 []*PA11
	F3 [3]int32
	F4 time.Time
	F5 uint16
}

type PM23 struct {
	F1               [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               []*PM11  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []int32  `protobuf:"varint,3,rep,packed,name=F3,proto3"`
	F4               *PTime   `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               uint32   `protobuf:"varint,5,opt,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM23) Reset()         { *m = PM23{} }
func (m *PM23) String() string { return "" }
func (*PM23) ProtoMessage()    {}

type PA24 struct {
	F1 NInt32
	F2 NBytes
	F3 []int32 `binary:"fixed32"`
	F4 bool
}

type PM24 struct {
	F1               int32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []int32 `protobuf:"fixed32,3,rep,packed,name=F3,proto3"`
	F4               bool    `protobuf:"varint,4,opt,name=F4,proto3"`
	XXX_unrecognized []byte
}

func (m *PM24) Reset()         { *m = PM24{} }
func (m *PM24) String() string { return "" }
func (*PM24) ProtoMessage()    {}

type PA25 struct {
	F1 []time.Time
	F2 [2]uint64
	F3 bool
	F4 []int16
	F5 *PA18
}

type PM25 struct {
	F1               []*PTime `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3               bool     `protobuf:"varint,3,opt,name=F3,proto3"`
	F4               []int32  `protobuf:"zigzag32,4,rep,packed,name=F4,proto3"`
	F5               *PM18    `protobuf:"bytes,5,opt,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM25) Reset()         { *m = PM25{} }
func (m *PM25) String() string { return "" }
func (*PM25) ProtoMessage()    {}

type PA26 struct {
	F1 uint32 `binary:"fixed32"`
	F2 *PA26
	F3 []uint64
	F4 uint32 `binary:"fixed32"`
	F5 *PA25
}

type PM26 struct {
	F1               uint32   `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2               *PM26    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []uint64 `protobuf:"varint,3,rep,packed,name=F3,proto3"`
	F4               uint32   `protobuf:"fixed32,4,opt,name=F4,proto3"`
	F5               *PM25    `protobuf:"bytes,5,opt,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM26) Reset()         { *m = PM26{} }
func (m *PM26) String() string { return "" }
func (*PM26) ProtoMessage()    {}

type PA27 struct {
	F1 *PA0
	F2 []PA23
	F3 NBytes
	F4 string
	F5 []NUint64
	F6 NBytes
	F7 float64 `amino:"unsafe"`
	F8 uint32  `binary:"fixed32"`
}

type PM27 struct {
	F1               *PM0     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               []*PM23  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []byte   `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               string   `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               []uint64 `protobuf:"varint,5,rep,packed,name=F5,proto3"`
	F6               []byte   `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               float64  `protobuf:"fixed64,7,opt,name=F7,proto3"`
	F8               uint32   `protobuf:"fixed32,8,opt,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM27) Reset()         { *m = PM27{} }
func (m *PM27) String() string { return "" }
func (*PM27) ProtoMessage()    {}

type PA28 struct {
	F1 []int16
}

type PM28 struct {
	F1               []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	XXX_unrecognized []byte
}

func (m *PM28) Reset()         { *m = PM28{} }
func (m *PM28) String() string { return "" }
func (*PM28) ProtoMessage()    {}

type PA29 struct {
	F1 NBytes
	F2 []byte
	F3 NStr
	F4 []string
	F5 []PA16
}

type PM29 struct {
	F1               []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               string   `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               []string `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []*PM16  `protobuf:"bytes,5,rep,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM29) Reset()         { *m = PM29{} }
func (m *PM29) String() string { return "" }
func (*PM29) ProtoMessage()    {}

type PA30 struct {
	F1 [4]byte
	F2 int32 `binary:"fixed32"`
	F3 []uint32
	F4 [3]uint
}

type PM30 struct {
	F1               []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3               []uint32 `protobuf:"varint,3,rep,packed,name=F3,proto3"`
	F4               []uint64 `protobuf:"varint,4,rep,packed,name=F4,proto3"`
	XXX_unrecognized []byte
}

func (m *PM30) Reset()         { *m = PM30{} }
func (m *PM30) String() string { return "" }
func (*PM30) ProtoMessage()    {}

type PA31 struct {
	F1 []int64
	F2 []int32
	F3 []NBool
}

type PM31 struct {
	F1               []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3               []bool  `protobuf:"varint,3,rep,packed,name=F3,proto3"`
	XXX_unrecognized []byte
}

func (m *PM31) Reset()         { *m = PM31{} }
func (m *PM31) String() string { return "" }
func (*PM31) ProtoMessage()    {}

type PA32 struct {
	F1 [4]byte
}

type PM32 struct {
	F1               []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	XXX_unrecognized []byte
}

func (m *PM32) Reset()         { *m = PM32{} }
func (m *PM32) String() string { return "" }
func (*PM32) ProtoMessage()    {}

type PA33 struct {
	F1 *PA27
	F2 PA7
	F3 time.Time
	F4 bool
	F5 []PA33
	F6 []*PA24
}

type PM33 struct {
	F1               *PM27   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               *PM7    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               *PTime  `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               bool    `protobuf:"varint,4,opt,name=F4,proto3"`
	F5               []*PM33 `protobuf:"bytes,5,rep,name=F5,proto3"`
	F6               []*PM24 `protobuf:"bytes,6,rep,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM33) Reset()         { *m = PM33{} }
func (m *PM33) String() string { return "" }
func (*PM33) ProtoMessage()    {}

type PA34 struct {
	F1 []*PA9
	F2 PA0
	F3 [3]*PA8
}

type PM34 struct {
	F1               []*PM9 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               *PM0   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []*PM8 `protobuf:"bytes,3,rep,name=F3,proto3"`
	XXX_unrecognized []byte
}

func (m *PM34) Reset()         { *m = PM34{} }
func (m *PM34) String() string { return "" }
func (*PM34) ProtoMessage()    {}

type PA35 struct {
	F1 []string
}

type PM35 struct {
	F1               []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	XXX_unrecognized []byte
}

func (m *PM35) Reset()         { *m = PM35{} }
func (m *PM35) String() string { return "" }
func (*PM35) ProtoMessage()    {}

type PA36 struct {
	F1 []NBytes
	F2 *PA22
	F3 []uint32
	F4 []*PA11
	F5 []PA30
}

type PM36 struct {
	F1               [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               *PM22    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []uint32 `protobuf:"varint,3,rep,packed,name=F3,proto3"`
	F4               []*PM11  `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []*PM30  `protobuf:"bytes,5,rep,name=F5,proto3"`
	XXX_unrecognized []byte
}

func (m *PM36) Reset()         { *m = PM36{} }
func (m *PM36) String() string { return "" }
func (*PM36) ProtoMessage()    {}

type PA37 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 PA28
	F3 []PA1
	F4 [2]*PA23
	F5 NStr
	F6 []NInt64 `binary:"fixed64"`
	F7 []uint16
	F8 uint32
}

type PM37 struct {
	F1               []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               *PM28    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []*PM1   `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []*PM23  `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               string   `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               []int64  `protobuf:"fixed64,6,rep,packed,name=F6,proto3"`
	F7               []uint32 `protobuf:"varint,7,rep,packed,name=F7,proto3"`
	F8               uint32   `protobuf:"varint,8,opt,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM37) Reset()         { *m = PM37{} }
func (m *PM37) String() string { return "" }
func (*PM37) ProtoMessage()    {}

type PA38 struct {
	F1 []int64 `binary:"fixed64"`
	F2 time.Time
	F3 NBytes
	F4 int64 `binary:"fixed64"`
	F5 []PA7
	F6 time.Time
	F7 uint64 `binary:"fixed64"`
	F8 int32
}

type PM38 struct {
	F1               []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2               *PTime  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []byte  `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               int64   `protobuf:"fixed64,4,opt,name=F4,proto3"`
	F5               []*PM7  `protobuf:"bytes,5,rep,name=F5,proto3"`
	F6               *PTime  `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               uint64  `protobuf:"fixed64,7,opt,name=F7,proto3"`
	F8               int32   `protobuf:"varint,8,opt,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM38) Reset()         { *m = PM38{} }
func (m *PM38) String() string { return "" }
func (*PM38) ProtoMessage()    {}

type PA39 struct {
	F1 [2]NUint64
	F2 int32
	F3 []PA3
	F4 [2]NInt32
	F5 bool
	F6 int8
}

type PM39 struct {
	F1               []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               int32    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []*PM3   `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []int32  `protobuf:"varint,4,rep,packed,name=F4,proto3"`
	F5               bool     `protobuf:"varint,5,opt,name=F5,proto3"`
	F6               int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM39) Reset()         { *m = PM39{} }
func (m *PM39) String() string { return "" }
func (*PM39) ProtoMessage()    {}

type PA40 struct {
	F1 []byte
	F2 int64
	F3 []byte
	F4 int32
	F5 NStr
	F6 string
	F7 []string
	F8 NBytes
}

type PM40 struct {
	F1               []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               int64    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []byte   `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               int32    `protobuf:"varint,4,opt,name=F4,proto3"`
	F5               string   `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               string   `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               []string `protobuf:"bytes,7,rep,name=F7,proto3"`
	F8               []byte   `protobuf:"bytes,8,opt,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM40) Reset()         { *m = PM40{} }
func (m *PM40) String() string { return "" }
func (*PM40) ProtoMessage()    {}

type PA41 struct {
	F1  []PA5
	F2  int8
	F3  [1]*time.Time
	F4  []*PA38
	F5  PA6
	F6  PA12
	F7  uint32 `binary:"fixed32"`
	F8  []time.Time
	F9  [4]byte
	F10 []float64 `amino:"unsafe"`
	F11 time.Time
	F12 int32
}

type PM41 struct {
	F1               []*PM5    `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               int32     `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3               []*PTime  `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []*PM38   `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               *PM6      `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               *PM12     `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               uint32    `protobuf:"fixed32,7,opt,name=F7,proto3"`
	F8               []*PTime  `protobuf:"bytes,8,rep,name=F8,proto3"`
	F9               []byte    `protobuf:"bytes,9,opt,name=F9,proto3"`
	F10              []float64 `protobuf:"fixed64,10,rep,packed,name=F10,proto3"`
	F11              *PTime    `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              int32     `protobuf:"varint,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM41) Reset()         { *m = PM41{} }
func (m *PM41) String() string { return "" }
func (*PM41) ProtoMessage()    {}

type PA42 struct {
	F1 []NUint64
	F2 uint16
	F3 []*time.Time
	F4 [3]int32 `binary:"fixed32"`
	F5 time.Time
	F6 []NInt8
}

type PM42 struct {
	F1               []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               uint32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []*PTime `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []int32  `protobuf:"fixed32,4,rep,packed,name=F4,proto3"`
	F5               *PTime   `protobuf:"bytes,5,opt,name=F5,proto3"`
	F6               []int32  `protobuf:"zigzag32,6,rep,packed,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM42) Reset()         { *m = PM42{} }
func (m *PM42) String() string { return "" }
func (*PM42) ProtoMessage()    {}

type PA43 struct {
	F1  NStr
	F2  bool
	F3  int64 `binary:"fixed64"`
	F4  [4]byte
	F5  int
	F6  uint16
	F7  []int32 `binary:"fixed32"`
	F8  []uint64
	F9  *PA23
	F10 *PA32
	F11 *PA25
	F12 []PA14
	F13 []*PA23
	F14 uint64  `binary:"fixed64"`
	F15 float32 `amino:"unsafe"`
	F16 NStr
	F17 []byte
	F18 time.Time
	F19 int64
	F20 []time.Time
}

type PM43 struct {
	F1               string   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2               bool     `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               int64    `protobuf:"fixed64,3,opt,name=F3,proto3"`
	F4               []byte   `protobuf:"bytes,4,opt,name=F4,proto3"`
	F5               int64    `protobuf:"varint,5,opt,name=F5,proto3"`
	F6               uint32   `protobuf:"varint,6,opt,name=F6,proto3"`
	F7               []int32  `protobuf:"fixed32,7,rep,packed,name=F7,proto3"`
	F8               []uint64 `protobuf:"varint,8,rep,packed,name=F8,proto3"`
	F9               *PM23    `protobuf:"bytes,9,opt,name=F9,proto3"`
	F10              *PM32    `protobuf:"bytes,10,opt,name=F10,proto3"`
	F11              *PM25    `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              []*PM14  `protobuf:"bytes,12,rep,name=F12,proto3"`
	F13              []*PM23  `protobuf:"bytes,13,rep,name=F13,proto3"`
	F14              uint64   `protobuf:"fixed64,14,opt,name=F14,proto3"`
	F15              float32  `protobuf:"fixed32,15,opt,name=F15,proto3"`
	F16              string   `protobuf:"bytes,16,opt,name=F16,proto3"`
	F17              []byte   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18              *PTime   `protobuf:"bytes,18,opt,name=F18,proto3"`
	F19              int64    `protobuf:"varint,19,opt,name=F19,proto3"`
	F20              []*PTime `protobuf:"bytes,20,rep,name=F20,proto3"`
	XXX_unrecognized []byte
}

func (m *PM43) Reset()         { *m = PM43{} }
func (m *PM43) String() string { return "" }
func (*PM43) ProtoMessage()    {}

type PA44 struct {
	F1  []NUint64
	F2  [3]PA37
	F3  []*PA20
	F4  int32 `binary:"fixed32"`
	F5  int
	F6  time.Time
	F7  *PA29
	F8  *PA21
	F9  []*time.Time
	F10 *PA22
	F11 []NUint64
	F12 uint64
}

type PM44 struct {
	F1               []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2               []*PM37  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               []*PM20  `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               int32    `protobuf:"fixed32,4,opt,name=F4,proto3"`
	F5               int64    `protobuf:"varint,5,opt,name=F5,proto3"`
	F6               *PTime   `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               *PM29    `protobuf:"bytes,7,opt,name=F7,proto3"`
	F8               *PM21    `protobuf:"bytes,8,opt,name=F8,proto3"`
	F9               []*PTime `protobuf:"bytes,9,rep,name=F9,proto3"`
	F10              *PM22    `protobuf:"bytes,10,opt,name=F10,proto3"`
	F11              []uint64 `protobuf:"varint,11,rep,packed,name=F11,proto3"`
	F12              uint64   `protobuf:"varint,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM44) Reset()         { *m = PM44{} }
func (m *PM44) String() string { return "" }
func (*PM44) ProtoMessage()    {}

type PA45 struct {
	F1  [1]*time.Time
	F2  uint16
	F3  uint32 `binary:"fixed32"`
	F4  [][4]byte
	F5  []float32 `amino:"unsafe"`
	F6  NInt32
	F7  uint8
	F8  [4]byte
	F9  []time.Time
	F10 []string
	F11 PA4
	F12 []int32 `binary:"fixed32"`
}

type PM45 struct {
	F1               []*PTime  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               uint32    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               uint32    `protobuf:"fixed32,3,opt,name=F3,proto3"`
	F4               [][]byte  `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []float32 `protobuf:"fixed32,5,rep,packed,name=F5,proto3"`
	F6               int32     `protobuf:"varint,6,opt,name=F6,proto3"`
	F7               uint32    `protobuf:"varint,7,opt,name=F7,proto3"`
	F8               []byte    `protobuf:"bytes,8,opt,name=F8,proto3"`
	F9               []*PTime  `protobuf:"bytes,9,rep,name=F9,proto3"`
	F10              []string  `protobuf:"bytes,10,rep,name=F10,proto3"`
	F11              *PM4      `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              []int32   `protobuf:"fixed32,12,rep,packed,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM45) Reset()         { *m = PM45{} }
func (m *PM45) String() string { return "" }
func (*PM45) ProtoMessage()    {}

type PA46 struct {
	F1 NBool
	F2 NBool
	F3 []NStr
	F4 []PA34
	F5 []uint32
	F6 *PA41
	F7 uint
	F8 []int8
}

type PM46 struct {
	F1               bool     `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               bool     `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []string `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               []*PM34  `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               []uint32 `protobuf:"varint,5,rep,packed,name=F5,proto3"`
	F6               *PM41    `protobuf:"bytes,6,opt,name=F6,proto3"`
	F7               uint64   `protobuf:"varint,7,opt,name=F7,proto3"`
	F8               []int32  `protobuf:"zigzag32,8,rep,packed,name=F8,proto3"`
	XXX_unrecognized []byte
}

func (m *PM46) Reset()         { *m = PM46{} }
func (m *PM46) String() string { return "" }
func (*PM46) ProtoMessage()    {}

type PA47 struct {
	F1  [3]*PA8
	F2  uint
	F3  []*PA27
	F4  [][4]byte
	F5  int64 `binary:"fixed64"`
	F6  []NBytes
	F7  uint32
	F8  *PA11
	F9  uint
	F10 *PA43
	F11 NStr
	F12 *time.Time
}

type PM47 struct {
	F1               []*PM8   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2               uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3               []*PM27  `protobuf:"bytes,3,rep,name=F3,proto3"`
	F4               [][]byte `protobuf:"bytes,4,rep,name=F4,proto3"`
	F5               int64    `protobuf:"fixed64,5,opt,name=F5,proto3"`
	F6               [][]byte `protobuf:"bytes,6,rep,name=F6,proto3"`
	F7               uint32   `protobuf:"varint,7,opt,name=F7,proto3"`
	F8               *PM11    `protobuf:"bytes,8,opt,name=F8,proto3"`
	F9               uint64   `protobuf:"varint,9,opt,name=F9,proto3"`
	F10              *PM43    `protobuf:"bytes,10,opt,name=F10,proto3"`
	F11              string   `protobuf:"bytes,11,opt,name=F11,proto3"`
	F12              *PTime   `protobuf:"bytes,12,opt,name=F12,proto3"`
	XXX_unrecognized []byte
}

func (m *PM47) Reset()         { *m = PM47{} }
func (m *PM47) String() string { return "" }
func (*PM47) ProtoMessage()    {}

type PA48 struct {
	F1 int64 `binary:"fixed64"`
	F2 time.Time
	F3 []int64 `binary:"fixed64"`
	F4 PA13
}

type PM48 struct {
	F1               int64   `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2               *PTime  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3               []int64 `protobuf:"fixed64,3,rep,packed,name=F3,proto3"`
	F4               *PM13   `protobuf:"bytes,4,opt,name=F4,proto3"`
	XXX_unrecognized []byte
}

func (m *PM48) Reset()         { *m = PM48{} }
func (m *PM48) String() string { return "" }
func (*PM48) ProtoMessage()    {}

type PA49 struct {
	F1 uint16
	F2 []NStr
	F3 PA0
	F4 int32 `binary:"fixed32"`
	F5 uint
	F6 [1]uint
}

type PM49 struct {
	F1               uint32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2               []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3               *PM0     `protobuf:"bytes,3,opt,name=F3,proto3"`
	F4               int32    `protobuf:"fixed32,4,opt,name=F4,proto3"`
	F5               uint64   `protobuf:"varint,5,opt,name=F5,proto3"`
	F6               []uint64 `protobuf:"varint,6,rep,packed,name=F6,proto3"`
	XXX_unrecognized []byte
}

func (m *PM49) Reset()         { *m = PM49{} }
func (m *PM49) String() string { return "" }
func (*PM49) ProtoMessage()    {}

var protoPairs = []protoPair{
	{PA0{}, &PM0{}},
	{PA1{}, &PM1{}},
	{PA2{}, &PM2{}},
	{PA3{}, &PM3{}},
	{PA4{}, &PM4{}},
	{PA5{}, &PM5{}},
	{PA6{}, &PM6{}},
	{PA7{}, &PM7{}},
	{PA8{}, &PM8{}},
	{PA9{}, &PM9{}},
	{PA10{}, &PM10{}},
	{PA11{}, &PM11{}},
	{PA12{}, &PM12{}},
	{PA13{}, &PM13{}},
	{PA14{}, &PM14{}},
	{PA15{}, &PM15{}},
	{PA16{}, &PM16{}},
	{PA17{}, &PM17{}},
	{PA18{}, &PM18{}},
	{PA19{}, &PM19{}},
	{PA20{}, &PM20{}},
	{PA21{}, &PM21{}},
	{PA22{}, &PM22{}},
	{PA23{}, &PM23{}},
	{PA24{}, &PM24{}},
	{PA25{}, &PM25{}},
	{PA26{}, &PM26{}},
	{PA27{}, &PM27{}},
	{PA28{}, &PM28{}},
	{PA29{}, &PM29{}},
	{PA30{}, &PM30{}},
	{PA31{}, &PM31{}},
	{PA32{}, &PM32{}},
	{PA33{}, &PM33{}},
	{PA34{}, &PM34{}},
	{PA35{}, &PM35{}},
	{PA36{}, &PM36{}},
	{PA37{}, &PM37{}},
	{PA38{}, &PM38{}},
	{PA39{}, &PM39{}},
	{PA40{}, &PM40{}},
	{PA41{}, &PM41{}},
	{PA42{}, &PM42{}},
	{PA43{}, &PM43{}},
	{PA44{}, &PM44{}},
	{PA45{}, &PM45{}},
	{PA46{}, &PM46{}},
	{PA47{}, &PM47{}},
	{PA48{}, &PM48{}},
	{PA49{}, &PM49{}},
}
