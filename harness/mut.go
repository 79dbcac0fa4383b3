package main

import (
	"math/rand"
)

// Mutations of encodings: of the bytes, and of the tree of fields that they
// are (so that lengths stay right around a change deep inside).

type wnode struct {
	num  uint32
	cl   int
	b    []byte // value without its length
	kids []*wnode
	// how it is written
	keyPad int // extra bytes in the key
	lenPad int
	lenAdd int // lie about the length
}

// wparse parses b as fields; which may be an accident.
func wparse(b []byte, depth int) ([]*wnode, bool) {
	var out []*wnode
	for len(b) > 0 {
		num, cl, n, err := getKey(b)
		if err != nil || num == 0 {
			return nil, false
		}
		b = b[n:]
		w := &wnode{num: num, cl: cl}
		switch cl {
		case wVarint:
			_, n, err := getUv(b)
			if err != nil {
				return nil, false
			}
			w.b, b = b[:n], b[n:]
		case w8, w4:
			k := 8
			if cl == w4 {
				k = 4
			}
			if len(b) < k {
				return nil, false
			}
			w.b, b = b[:k], b[k:]
		case wBytes:
			c, n, err := getLp(b)
			if err != nil {
				return nil, false
			}
			w.b, b = c, b[n:]
			if depth > 0 && len(c) > 1 {
				if k, ok := wparse(c, depth-1); ok {
					w.kids = k
				}
			}
		default:
			return nil, false
		}
		out = append(out, w)
	}
	return out, true
}

func padUv(u uint64, pad int) []byte {
	b := uv(u)
	for ; pad > 0 && len(b) < 10; pad-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func wwrite(ws []*wnode) []byte {
	var out []byte
	for _, w := range ws {
		out = append(out, padUv(uint64(w.num)<<3|uint64(w.cl&7), w.keyPad)...)
		b := w.b
		if w.kids != nil {
			b = wwrite(w.kids)
		}
		if w.cl == wBytes {
			out = append(out, padUv(uint64(len(b)+w.lenAdd), w.lenPad)...)
		}
		out = append(out, b...)
	}
	return out
}

// all lists of fields in the tree
func wlists(ws *[]*wnode, out []*[]*wnode) []*[]*wnode {
	out = append(out, ws)
	for _, w := range *ws {
		if w.kids != nil {
			out = wlists(&w.kids, out)
		}
	}
	return out
}

var evilVarints = [][]byte{
	{0}, {1}, {2}, {0x7f}, {0x80, 0}, {0x80, 1}, {0x81, 0}, {0xff, 0x7f}, {0xff, 0xff, 3}, {0x80, 0x80, 4},
	{0xff, 0xff, 0xff, 0xff, 7}, {0xff, 0xff, 0xff, 0xff, 0xf}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0x80, 0x80, 0x80, 0x80, 8},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1},
	{0x80}, {0xff}, {0xff, 0xff},
	{0xc0, 0x84, 0x3d}, {0x80, 0x80, 0x80, 0x80, 0xf8, 0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xff, 0xf7, 0xff, 0xff, 0xff, 0xff, 1},
	{0x80, 0x94, 0xeb, 0xdc, 3}, {0xff, 0x93, 0xeb, 0xdc, 3}, {0xff, 0xdf, 0xff, 0xff, 0x7f},
}

// mutateTree changes the fields that b consists of; skip bytes are left alone
// at the beginning (prefixes).
func mutateTree(r *rand.Rand, b []byte) []byte {
	skip := 0
	ws, ok := wparse(b, 5)
	if !ok || r.Intn(8) == 0 {
		for _, k := range []int{4, 8} {
			if len(b) > k {
				if w2, ok2 := wparse(b[k:], 5); ok2 {
					ws, ok, skip = w2, true, k
					break
				}
			}
		}
	}
	if !ok || len(ws) == 0 {
		return mutateBytes(r, b)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		ls := wlists(&ws, nil)
		l := ls[r.Intn(len(ls))]
		if r.Intn(2) == 0 {
			l = ls[0]
		}
		if len(*l) == 0 {
			continue
		}
		i := r.Intn(len(*l))
		w := (*l)[i]
		switch r.Intn(19) {
		case 0: // drop
			*l = append(append([]*wnode{}, (*l)[:i]...), (*l)[i+1:]...)
		case 1: // repeat
			*l = append(append(append([]*wnode{}, (*l)[:i+1]...), w), (*l)[i+1:]...)
		case 2: // swap
			j := r.Intn(len(*l))
			(*l)[i], (*l)[j] = (*l)[j], (*l)[i]
		case 3:
			w.num++
		case 4:
			if w.num > 0 {
				w.num--
			}
		case 5:
			w.num = []uint32{0, 1, 2, 3, 15, 16, 17, 1<<29 - 1, uint32(r.Intn(40))}[r.Intn(9)]
		case 6: // another wire type, the payload as it is
			w.cl = []int{0, 1, 2, 5, 3, 4, 6, 7}[r.Intn(8)]
		case 7: // another wire type with a payload that fits
			w.cl = []int{0, 1, 2, 5}[r.Intn(4)]
			w.kids = nil
			switch w.cl {
			case wVarint:
				w.b = uv(uint64(r.Intn(300)))
			case w8:
				w.b = le(uint64(r.Intn(300)), 8)
			case w4:
				w.b = le(uint64(r.Intn(300)), 4)
			default:
				w.b = []byte{8, byte(r.Intn(4))}[:r.Intn(3)]
			}
		case 8:
			w.keyPad = 1 + r.Intn(3)
		case 9:
			w.lenPad = 1 + r.Intn(3)
		case 10:
			w.lenAdd = r.Intn(5) - 2
		case 11: // value
			if w.cl == wVarint {
				w.b = evilVarints[r.Intn(len(evilVarints))]
			} else if w.kids == nil {
				w.b = mutateBytes(r, w.b)
			}
		case 12: // empty
			w.kids, w.b = nil, nil
			if w.cl != wBytes {
				w.b = []byte{0}
			}
		case 13: // a new field
			nw := &wnode{num: uint32(1 + r.Intn(25)), cl: []int{0, 1, 2, 5}[r.Intn(4)]}
			nw.b = make([]byte, []int{1, 8, 2, 0, 0, 4}[nw.cl])
			r.Read(nw.b)
			if nw.cl == wVarint {
				nw.b = evilVarints[r.Intn(len(evilVarints))]
			}
			j := r.Intn(len(*l) + 1)
			if r.Intn(2) == 0 {
				j = len(*l)
				nw.num = (*l)[j-1].num + uint32(r.Intn(3))
			}
			*l = append(append(append([]*wnode{}, (*l)[:j]...), nw), (*l)[j:]...)
		case 14: // contents from elsewhere in the tree
			m := *ls[r.Intn(len(ls))]
			if len(m) > 0 && w.cl == wBytes {
				o := m[r.Intn(len(m))]
				w.kids = nil
				w.b = wwrite([]*wnode{o})
			}
		case 15: // trailing bytes inside
			if w.cl == wBytes {
				c := w.b
				if w.kids != nil {
					c = wwrite(w.kids)
				}
				w.kids = nil
				w.b = append(append([]byte{}, c...), []byte{0, 1, 8, 10, 0xff}[r.Intn(5)])
			}
		case 16: // one byte less inside
			if w.cl == wBytes {
				c := w.b
				if w.kids != nil {
					c = wwrite(w.kids)
				}
				if len(c) > 0 {
					w.kids, w.b = nil, c[:len(c)-1]
				}
			}
		case 17: // move
			o := *l
			*l = append(append([]*wnode{}, o[:i]...), o[i+1:]...)
			j := r.Intn(len(*l) + 1)
			*l = append(append(append([]*wnode{}, (*l)[:j]...), w), (*l)[j:]...)
		case 18: // lists: one element more or less
			if w.kids == nil && w.cl == wBytes {
				if r.Intn(2) == 0 {
					w.b = append(append([]byte{}, w.b...), w.b...)
				} else {
					w.b = w.b[:len(w.b)/2]
				}
			}
		}
	}
	return append(append([]byte{}, b[:skip]...), wwrite(ws)...)
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(11) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b, byte(r.Intn(256)))
		case 2:
			if len(b) > 0 {
				b[i] ^= 1 << uint(r.Intn(8))
			}
		case 3:
			if len(b) > 0 {
				b[i] = byte(r.Intn(256))
			}
		case 4:
			b = append(b[:i:i], append([]byte{[]byte{0, 1, 8, 10, 0x80, 0xff}[r.Intn(6)]}, b[i:]...)...)
		case 5:
			if len(b) > 0 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 6:
			e := evilVarints[r.Intn(len(evilVarints))]
			j := i + 1
			if j > len(b) {
				j = len(b)
			}
			b = append(append(append([]byte{}, b[:i]...), e...), b[j:]...)
		case 7:
			if len(b) > 0 {
				b[i]++
			}
		case 8:
			if len(b) > 0 {
				b[i]--
			}
		case 9: // repeat a piece
			j := i + r.Intn(len(b)-i+1)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 10:
			if len(b) > 0 {
				j := r.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			}
		}
	}
	return b
}

// hostile makes an input that was an encoding once.
func hostile(r *rand.Rand, encs [][]byte) []byte {
	var b []byte
	if len(encs) > 0 {
		b = encs[r.Intn(len(encs))]
	}
	switch r.Intn(12) {
	case 0:
		b = make([]byte, r.Intn(40))
		r.Read(b)
		return b
	case 1:
		if len(encs) > 1 { // two encodings in one
			o := encs[r.Intn(len(encs))]
			i, j := r.Intn(len(b)+1), r.Intn(len(o)+1)
			return append(append([]byte{}, b[:i]...), o[j:]...)
		}
	case 2: // just evil varints
		var out []byte
		for n := r.Intn(8); n > 0; n-- {
			out = append(out, evilVarints[r.Intn(len(evilVarints))]...)
		}
		return out
	case 3, 4, 5:
		return mutateBytes(r, b)
	case 6: // small keys and lengths
		out := make([]byte, r.Intn(14))
		for i := range out {
			out[i] = []byte{0, 1, 2, 3, 4, 8, 9, 10, 13, 16, 18, 21, 26, 0x80}[r.Intn(14)]
		}
		return out
	case 7:
		return mutateBytes(r, mutateTree(r, b))
	}
	return mutateTree(r, b)
}

// within places b in a larger buffer, with bytes after it that look plausible,
// and spare capacity, so that reading on would go unnoticed by Go.
func within(r *rand.Rand, b []byte) []byte {
	buf := make([]byte, len(b)+40)
	for i := range buf {
		buf[i] = []byte{0, 1, 8, 10, 1, 2}[r.Intn(6)]
	}
	copy(buf, b)
	return buf[:len(b)]
}
