package main

import (
	"reflect"
	"time"
)

// Types of one name, which are different types: local ones of functions. What
// is remembered about a type must not be found again for its namesakes.

func twin1() reflect.Type {
	type Twin struct {
		A int32
		B string
	}
	return reflect.TypeOf(Twin{})
}

func twin2() reflect.Type {
	type Twin struct {
		B string `json:"b"`
		A int32  `amino:"write_empty"`
	}
	return reflect.TypeOf(Twin{})
}

func twin3() reflect.Type {
	type Twin struct {
		A int32 `binary:"fixed32" json:"a,omitempty"`
		B string
		C []string
	}
	return reflect.TypeOf(Twin{})
}

func twin4() reflect.Type {
	type Twin struct {
		A []int32
		B time.Time
	}
	return reflect.TypeOf(Twin{})
}

func twin5() reflect.Type {
	type Twin struct {
		A int64 `binary:"fixed64"`
		B *Leaf
		D []Leaf `json:"B2"`
	}
	return reflect.TypeOf(Twin{})
}

func twinL1() reflect.Type {
	type TwinL []int32
	return reflect.TypeOf(TwinL{})
}

func twinL2() reflect.Type {
	type TwinL []string
	return reflect.TypeOf(TwinL{})
}

func twinL3() reflect.Type {
	type TwinL []Leaf
	return reflect.TypeOf(TwinL{})
}

func twinS1() reflect.Type {
	type TwinS int32
	return reflect.TypeOf(TwinS(0))
}

func twinS2() reflect.Type {
	type TwinS string
	return reflect.TypeOf(TwinS(""))
}

var twinStructs = []reflect.Type{twin1(), twin2(), twin3(), twin4(), twin5(),
	reflect.StructOf([]reflect.StructField{fld("T1", twin1(), ""), fld("T2", twin2(), ""), fld("T3", reflect.PtrTo(twin3()), ""), fld("T4", twin4(), ""), fld("T5", reflect.SliceOf(twin5()), "")}),
	reflect.StructOf([]reflect.StructField{fld("T5", twin5(), ""), fld("L2", twinL2(), ""), fld("L1", twinL1(), ""), fld("S2", twinS2(), ""), fld("S1", twinS1(), ""), fld("T1", reflect.SliceOf(twin1()), ""), fld("L3", twinL3(), ""), fld("T3", twin3(), "")})}
var twinLists = []reflect.Type{twinL1(), twinL2(), twinL3()}
