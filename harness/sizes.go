package main

import (
	"reflect"
	"strings"
)

// sizeList has lengths around the limits of varints and of common buffers.
var sizeList = func() (out []int) {
	for _, n := range []int{16, 32, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1024, 2048, 4095, 4096, 8192, 1<<14 - 1, 1 << 14, 1 << 15, 1<<16 - 1, 1 << 16, 1 << 17, 1<<20 - 1, 1 << 20} {
		for d := -4; d <= 2; d++ {
			out = append(out, n+d)
		}
	}
	for d := -12; d <= 1; d++ {
		out = append(out, 1<<21+d)
	}
	return append(out, 1<<21+77777, 1<<22+5)
}()

// sizeCases: contents of sizeList[idx] bytes, in several types.
func sizeCases(t *T, js bool, fn func(b *bcase)) {
	u := newUniverse(t.rng)
	r := t.rng
	n := sizeList[t.idx%len(sizeList)]
	mk := func(v interface{}) {
		fn(&bcase{u: u, s: &spec{u: u}, g: newGen(r, u), cdc: u.cdc, t: reflect.TypeOf(v), v: addr(reflect.ValueOf(v))})
	}
	bz := make([]byte, n)
	r.Read(bz)
	str := strings.Repeat("abcdefg,\u00e9 ", n/11+1)[:n]
	if js {
		str = strings.Repeat("abcdefg,é ", n/11+1)[:n]
		str = strings.ToValidUTF8(str, "?")
	}
	mk(bz)
	mk(str)
	type inner struct {
		A int64
		B []byte
		C string
	}
	if n > 1<<17 && t.c.scale <= 1 {
		mk(struct {
			X int8
			I inner
			L []string
		}{1, inner{5, bz, "c"}, []string{"", str, "x"}})
		return
	}
	mk(inner{-1, nil, str})
	mk(inner{7, bz, ""})
	mk(struct {
		X *inner
		Y string
	}{&inner{7, bz, ""}, str})
	mk([]inner{{}, {3, bz, "x"}, {0, nil, str}})
	mk([]string{"", str, "x"})
	mk([][]byte{bz, {1}, bz})
	ints := make([]int32, n)
	for i := range ints {
		ints[i] = int32(bz[i] & 0x7f)
	}
	if n <= 1<<16 {
		mk(struct{ P []int32 }{ints})
		mk(ints)
	}
	for _, it := range u.iorder {
		for _, o := range []interface{}{CBytes(bz), CStr(str), &CSt{3, str}} {
			ri := u.byType[deref(reflect.TypeOf(o))]
			if ri == nil || !implements(ri.rt, it) {
				continue
			}
			v := reflect.New(reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), ""), fld("F", it, ""), fld("Z", reflect.TypeOf(""), "")})).Elem()
			v.Field(1).Set(reflect.ValueOf(o))
			v.Field(2).SetString("z")
			fn(&bcase{u: u, s: &spec{u: u}, g: newGen(r, u), cdc: u.cdc, t: v.Type(), v: v})
		}
	}
}
