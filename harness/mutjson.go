package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
)

func (n *jnode) clone() *jnode {
	c := *n
	c.arr = nil
	for _, e := range n.arr {
		c.arr = append(c.arr, e.clone())
	}
	c.keys = append([]string(nil), n.keys...)
	return &c
}

func jall(n *jnode, out []*jnode) []*jnode {
	out = append(out, n)
	for _, e := range n.arr {
		out = jall(e, out)
	}
	return out
}

var evilNums = []string{"0", "-0", "1", "-1", "1.0", "1.5", "1e2", "1E2", "1e-2", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
	"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"1e400", "-1e400", "3.5e38", "1e39", "1e-500", "99999999999999999999999999", "0.1", "1e1", "10e-1"}

var evilStrs = []string{"", "0", "1", "-1", "00", "01", "+1", "-0", "1.0", "1e2", " 1", "1 ", "\n1", "0x1", "1_0", "１", "null", "true", "\"", "\"1\"", "NaN", "Infinity", "inf",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "340282366920938463463374607431768211456",
	"AA==", "AA", "AA=", "A", "AAA", "AAAA", "AA==AA==", "AQI=", "AQJ=", "_-8=", "+/8=", "A\nA==", "====", "*",
	"2018-01-01T00:00:00Z", "2018-01-01T00:00:00", "2018-01-01T00:00:00+01:00", "2018-01-01T00:00:00+00:00", "2018-01-01T00:00:00-00:00", "2018-13-01T00:00:00Z", "2018-02-30T00:00:00Z", "2018-01-01T24:00:00Z", "2018-01-01T23:59:60Z",
	"2018-01-01 00:00:00Z", "2018-1-1T0:0:0Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "10000-01-01T00:00:00Z", "2018-01-01T00:00:00.Z", "2018-01-01T00:00:00,5Z", "2018-01-01T00:00:00.1234567890Z", "2018-01-01t00:00:00z", "Z", "2018-01-01T00:00Z",
	"j:", "j:x", "1/2", "x/y", ";", ";;", "7a", "7A", "a", "poison"}

var evilRaw = []string{"", " ", "{", "}", "[", "]", "\"", "\"\"\"", "nul", "NULL", "nan", "{}", "[]", "[[]]", "[null]", "[{}]", `{"":null}`, `{"type":"","value":null}`, `{"type":null,"value":null}`, `{"type":"x"}`, `{"value":1}`, `{"type":1,"value":1}`,
	`"\u`, `"\ud800"`, "\"\xff\"", "[1,]", "{,}", `{"a"}`, `{"a":}`, `{"a":1,}`, "1 2", "null null", "-", "01", ".5", "5.", "\x00", "//", "'a'", "[1 2]", "\ufeff1", "tru", "true1", "\"a\nb\""}

// mutateJSON changes the tree. names are registered names.
func mutateJSON(r *rand.Rand, n *jnode, names []string) *jnode {
	n = n.clone()
	for k := 1 + r.Intn(2); k > 0; k-- {
		all := jall(n, nil)
		x := all[r.Intn(len(all))]
		if r.Intn(2) == 0 { // leaves are what mostly matters
			for i := 0; i < 4 && x.arr != nil; i++ {
				x = all[r.Intn(len(all))]
			}
		}
		switch r.Intn(15) {
		case 0, 1:
			*x = *jnum(evilNums[r.Intn(len(evilNums))])
		case 2, 3:
			*x = *jstr(evilStrs[r.Intn(len(evilStrs))])
		case 4:
			*x = *[]*jnode{{kind: jNull}, {kind: jBool, b: true}, {kind: jBool}, {kind: jArr}, {kind: jObj}, jstr(""), jnum("0")}[r.Intn(7)]
		case 5: // quoted <-> unquoted
			if x.kind == jNum {
				x.kind = jStr
			} else if x.kind == jStr && reInt.MatchString(x.s) {
				x.kind = jNum
			}
		case 6: // one entry less
			if len(x.arr) > 0 {
				i := r.Intn(len(x.arr))
				x.arr = append(append([]*jnode{}, x.arr[:i]...), x.arr[i+1:]...)
				if x.kind == jObj {
					x.keys = append(append([]string{}, x.keys[:i]...), x.keys[i+1:]...)
				}
			}
		case 7: // one entry more
			if x.kind == jArr {
				e := &jnode{kind: jNull}
				if len(x.arr) > 0 {
					e = x.arr[r.Intn(len(x.arr))].clone()
				}
				x.arr = append(x.arr, e)
			} else if x.kind == jObj {
				x.set(fmt.Sprintf("unknown%d", r.Intn(1000)), all[r.Intn(len(all))].clone())
			}
		case 8: // another name
			if len(x.keys) > 0 {
				i := r.Intn(len(x.keys))
				switch r.Intn(3) {
				case 0:
					x.keys[i] += "x"
				case 1:
					x.keys[i] = strings.ToLower(x.keys[i])
				default:
					x.keys[i] = strings.ToUpper(x.keys[i])
				}
			}
		case 9: // swap with another node
			y := all[r.Intn(len(all))]
			*x = *y.clone()
		case 10: // wrap
			c := x.clone()
			switch r.Intn(3) {
			case 0:
				*x = jnode{kind: jArr, arr: []*jnode{c}}
			case 1:
				nm := "unregistered"
				if len(names) > 0 {
					nm = names[r.Intn(len(names))]
				}
				*x = *wrapper(nm, c)
			default:
				*x = jnode{kind: jObj, keys: []string{"A"}, arr: []*jnode{c}}
			}
		case 11: // unwrap
			if len(x.arr) > 0 {
				*x = *x.arr[r.Intn(len(x.arr))].clone()
			}
		case 12: // another type in a wrapper
			var ws []*jnode
			for _, y := range all {
				if y.kind == jObj && y.get("type") != nil {
					ws = append(ws, y)
				}
			}
			if len(ws) > 0 {
				y := ws[r.Intn(len(ws))]
				switch r.Intn(5) {
				case 0, 1, 2:
					if len(names) > 0 {
						*y.get("type") = *jstr(names[r.Intn(len(names))])
					}
				case 3:
					if ty := y.get("type"); ty.kind == jStr && ty.s != "" && r.Intn(2) == 0 {
						*ty = *jstr(nearName(r, ty.s))
						break
					}
					*y.get("type") = *[]*jnode{jstr(""), {kind: jNull}, jnum("1"), jstr("nobody"), {kind: jArr}}[r.Intn(5)]
				default:
					y.keys, y.arr = y.keys[:1], y.arr[:1]
				}
			}
		case 13: // reorder
			if len(x.arr) > 1 {
				i, j := r.Intn(len(x.arr)), r.Intn(len(x.arr))
				x.arr[i], x.arr[j] = x.arr[j], x.arr[i]
				if x.kind == jObj {
					x.keys[i], x.keys[j] = x.keys[j], x.keys[i]
				}
			}
		case 14: // change a little
			if x.kind == jStr && len(x.s) > 0 {
				i := r.Intn(len(x.s))
				x.s = x.s[:i] + string([]byte{"0Zz=9 +-/:.\"e"[r.Intn(13)]}) + x.s[i+1:]
			} else if x.kind == jNum {
				x.s = evilNums[r.Intn(len(evilNums))]
			}
		}
	}
	return n
}

// nearName changes a name a little; it may be another registered name by chance.
func nearName(r *rand.Rand, name string) string {
	rs := []rune(name)
	switch k := r.Intn(8); {
	case k == 0:
		return name + []string{" ", "/", "x", "\x00", "é", "0"}[r.Intn(6)]
	case k == 1:
		return []string{" ", "/", "x", "\x00", "é", "0"}[r.Intn(6)] + name
	case k == 2 && len(rs) > 1:
		return string(rs[:len(rs)-1])
	case k == 3 && len(rs) > 1:
		return string(rs[1:])
	case k == 4:
		if l := strings.ToLower(name); l != name && r.Intn(2) == 0 {
			return l
		}
		return strings.ToUpper(name)
	case k == 5: // one letter in the other case
		i := r.Intn(len(rs))
		for j := range rs {
			c := &rs[(i+j)%len(rs)]
			if u := unicode.ToUpper(*c); u != *c {
				*c = u
				break
			} else if l := unicode.ToLower(*c); l != *c {
				*c = l
				break
			}
		}
		return string(rs)
	case k == 6:
		return name + "/" + name
	default: // the last path element
		return name[strings.LastIndex(name, "/")+1:] + "/"
	}
}
