package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&check{id: "C25", run: c25,
		rule:  "the tool is built from the working tree and run: on encodings of random values, on all sequences of two and many of three boundary pieces (keys, wire types, varints, lengths that are true, cut off or lying), on every prefix of encodings, on mutated encodings, random bytes and long inputs, in upper and lower case hex, and with --color and --concrete-name; its output is parsed and compared with an independent reading of the input as a sequence of fields; distinct = distinct inputs, non-trivial = those with at least one whole field, or names whose hash has zeros to skip",
		assum: []string{"the input fits into an argument (64 kB of hex); arguments that are not hexadecimal are outside of the property"}})
}

// pfield is a field as the tool is expected to show it.
type pfield struct {
	key  []byte
	num  uint64
	cl   int
	val  []byte // with the length prefix
	lenN int    // size of the length prefix
	ok   bool   // the value is there
}

// c25read reads as many fields as there are. rest is where it stops; whole
// means that nothing is left. If the key of the last field is fine and its
// value is not, the field is there without ok.
func c25read(b []byte) (fs []pfield, rest int, whole bool) {
	for {
		if rest == len(b) {
			return fs, rest, true
		}
		u, n := binary.Uvarint(b[rest:])
		if n <= 0 || u>>3 > 1<<29-1 {
			return
		}
		f := pfield{key: b[rest : rest+n], num: u >> 3, cl: int(u & 7)}
		v := b[rest+n:]
		m := -1
		switch f.cl {
		case wVarint:
			if _, n := binary.Uvarint(v); n > 0 {
				m = n
			}
		case w8:
			if len(v) >= 8 {
				m = 8
			}
		case w4:
			if len(v) >= 4 {
				m = 4
			}
		case wBytes:
			if l, n := binary.Uvarint(v); n > 0 && l <= uint64(len(v)-n) {
				m, f.lenN = n+int(l), n
			}
		}
		if m < 0 {
			return append(fs, f), rest, false
		}
		f.val, f.ok = v[:m], true
		fs = append(fs, f)
		rest += n + m
	}
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func c25exec(t *T, args ...string) string {
	for try := 0; ; try++ {
		cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(cx, *flagAux, args...)
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		err := cmd.Run()
		late := cx.Err() != nil
		cancel()
		t.count("runs")
		if late {
			t.failf("aminoscan does not end within 60 s")
		}
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			if try < 3 {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			panic(inconclusive(fmt.Sprintf("cannot run aminoscan: %v", err)))
		}
		if err != nil {
			t.failf("aminoscan fails: %v\n%s", err, clip(errOut.String(), 2000))
		}
		if errOut.Len() > 0 {
			t.failf("aminoscan writes to its standard error: %s", clip(errOut.String(), 2000))
		}
		return out.String()
	}
}

func hexOf(r *rand.Rand, b []byte) string {
	s := hex.EncodeToString(b)
	if r.Intn(2) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

var typ3Names = map[int]string{wVarint: "(U)Varint", w8: "8Byte", wBytes: "ByteLength", w4: "4Byte"}

// c25scan runs the scanner on b and judges what it prints.
func c25scan(t *T, b []byte) {
	t.desc = nil
	t.note("input %x", b)
	raw := c25exec(t, hexOf(t.rng, b))
	t.note("output:\n%s", clip(ansi.ReplaceAllString(raw, ""), 3000))
	fs, rest, whole := c25read(b)
	lines := strings.Split(strings.TrimSuffix(raw, "\n"), "\n")
	plain := make([]string, len(lines))
	for i, l := range lines {
		plain[i] = ansi.ReplaceAllString(l, "")
	}
	i := 0
	next := func(what string) string {
		if i >= len(plain) {
			t.failf("the output ends before %s", what)
		}
		i++
		return strings.TrimSpace(plain[i-1])
	}
	if l := next("the title"); !strings.Contains(l, "Root Struct") {
		t.failf("the first line is %q", l)
	}
	up := func(b []byte) string { return strings.ToUpper(hex.EncodeToString(b)) }
	for _, f := range fs {
		name, known := typ3Names[f.cl]
		l := next(fmt.Sprintf("field %d", f.num))
		pre := fmt.Sprintf("%s @%d ", up(f.key), f.num)
		if !strings.HasPrefix(l, pre) || known && l != pre+name {
			t.failf("line %q for the key %x: number %d, wire type %d %s", l, f.key, f.num, f.cl, name)
		}
		t.count("keys shown")
		if !f.ok {
			break
		}
		l = next(fmt.Sprintf("the value of field %d", f.num))
		want := up(f.val)
		switch f.cl {
		case wVarint:
			u, _ := binary.Uvarint(f.val)
			z, _ := binary.Varint(f.val)
			want += fmt.Sprintf(" (i64:%d u64:%d)", z, u)
		case wBytes:
			want += fmt.Sprintf(" (%d bytes)", len(f.val)-f.lenN)
		}
		if l != want {
			t.failf("line %q instead of %q for the value of field %d", clip(l, 300), clip(want, 300), f.num)
		}
		t.count("values shown: " + name)
	}
	if l := next("the end line"); !strings.Contains(l, "Root Struct END") {
		t.failf("line %q instead of the end of the struct after %d fields", clip(l, 300), len(fs))
	}
	l := next("the bytes")
	// all bytes, how many were parsed, and the error
	hx := up(b)
	if !strings.HasPrefix(l, hx) || len(l) > len(hx) && l[len(hx)] != ' ' {
		if len(b) > 0 {
			t.failf("the bytes shown at the end are not the input: %q", clip(l, 1000))
		}
	}
	after := strings.SplitN(strings.TrimSpace(l[len(hx):]), " ", 2)
	n, err := strconv.Atoi(after[0])
	if err != nil || len(after) != 2 {
		t.failf("last line without a count and an error: %q", clip(l, 1000))
	}
	if whole != (after[1] == "<nil>") {
		t.failf("reported error %q, and the input is well-formed: %v", after[1], whole)
	}
	okN := n == rest
	if len(fs) > 0 && !fs[len(fs)-1].ok {
		okN = okN || n == rest+len(fs[len(fs)-1].key)
	}
	if !okN {
		t.failf("reported %d bytes as parsed, the first field that is not well-formed is at %d", n, rest)
	}
	// what is left over is red, and nothing else is
	if red := "\x1b[31m" + up(b[n:]) + "\x1b[0m"; !strings.Contains(lines[i-1], red) || strings.Count(lines[i-1], "\x1b[31m") != 1 {
		t.failf("%d bytes were parsed, and the rest %X is not marked as such: %q", n, b[n:], clip(lines[i-1], 1000))
	}
	if i != len(plain) {
		t.failf("more output: %q", plain[i])
	}
	if whole {
		t.count("well-formed")
	} else {
		t.count("not well-formed")
		if rest < len(b) && len(fs) > 0 && !fs[len(fs)-1].ok {
			t.count("stopped in a value")
		} else {
			t.count("stopped at a key")
		}
	}
	t.evaluated("scan"+string(b), len(fs) > 0)
	t.sample("%d bytes, %d fields, error %s", len(b), len(fs), after[1])
}

func c25color(t *T, b []byte) {
	t.desc = nil
	t.note("colour %x", b)
	flag := []string{"--color", "-color", "--color=true"}[t.rng.Intn(3)]
	raw := strings.TrimSuffix(c25exec(t, flag, hexOf(t.rng, b)), "\n")
	want := ""
	for _, x := range b {
		if x > 0x20 && x < 0x7f {
			want += "\x1b[32m" + string(rune(x)) + "\x1b[0m"
		} else {
			want += fmt.Sprintf("\x1b[34m%02X\x1b[0m", x)
		}
	}
	if raw != want {
		t.failf("--color shows %q, not %q", clip(raw, 1500), clip(want, 1500))
	}
	t.count("coloured")
	t.evaluated("color"+string(b), len(b) > 1)
}

func c25name(t *T, name string) {
	t.desc = nil
	t.note("name %q", name)
	args := []string{"--concrete-name", name}
	if t.rng.Intn(2) == 0 {
		args = []string{"-concrete-name=" + name}
	}
	out := c25exec(t, args...)
	d, p := specDisfix(name)
	want := fmt.Sprintf("Disamb bytes: %X\nPrefix bytes: %X\n", d[:], p[:])
	if out != want {
		t.failf("--concrete-name %q prints %q, not %q", name, out, want)
	}
	t.count("names")
	t.evaluated("name"+name, true)
}

// pieces that an input can consist of
func c25pieces() (out [][]byte) {
	out = append(out, []byte{})
	nums := []uint64{0, 1, 2, 15, 16, 2047, 2048, 1<<29 - 1, 1 << 29, 1<<32 + 1, 1<<61 - 1}
	for _, n := range nums {
		for cl := uint64(0); cl < 8; cl++ {
			out = append(out, uv(n<<3|cl))
		}
	}
	out = append(out, evilVarints...)
	for _, n := range []int{0, 1, 3, 7, 8, 127, 128} {
		out = append(out, lp(bytes.Repeat([]byte{0x41}, n)))
	}
	out = append(out, make([]byte, 3), make([]byte, 4), make([]byte, 7), make([]byte, 8), bytes.Repeat([]byte{0xff}, 4), bytes.Repeat([]byte{0xff}, 8))
	// one byte more than there is, and lengths that overflow an int
	out = append(out, []byte{5, 1, 2, 3, 4}, []byte{0xff, 0xff, 0xff, 0xff, 7, 1}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 0})
	return
}

func c25(c *ctx) {
	if *flagAux == "" {
		panic(inconclusive("no aminoscan binary"))
	}
	pieces := c25pieces()
	// a whole field, key and value, and then a piece; and two pieces
	c.run("pieces", len(pieces), func(t *T) {
		a := pieces[t.idx]
		c25scan(t, a)
		c25scan(t, append(append([]byte{}, key(1, wVarint)...), a...))
		c25scan(t, append(append([]byte{}, key(2, wBytes)...), a...))
		c25scan(t, append(append([]byte{}, key(3, w8)...), a...))
		c25scan(t, append(append([]byte{}, key(4, w4)...), a...))
		c25scan(t, append(append([]byte{}, append(key(5, wBytes), lp([]byte("abc"))...)...), a...))
		for i := 0; i < 8; i++ {
			b := append([]byte{}, a...)
			for n := 1 + t.rng.Intn(4); n > 0; n-- {
				b = append(b, pieces[t.rng.Intn(len(pieces))]...)
			}
			c25scan(t, b)
		}
	})
	c.run("one and two bytes", 256, func(t *T) {
		c25scan(t, []byte{byte(t.idx)})
		for i := 0; i < c.n(4) && i < 256; i++ {
			b := byte(t.rng.Intn(256))
			if c.tier == "thorough" {
				b = byte(i)
			}
			c25scan(t, []byte{byte(t.idx), b})
		}
	})
	c.run("encodings", c.n(300), func(t *T) {
		var encs [][]byte
		randomCases(t, genOpts{}, 2, 2, func(b *bcase) {
			bz, err := marshalBare(b.cdc, b.in())
			if err != nil || len(bz) > 20000 {
				return
			}
			if ri := b.u.byType[deref(b.t)]; ri != nil && t.rng.Intn(4) > 0 {
				bz = bz[4:]
			}
			encs = append(encs, bz)
			c25scan(t, bz)
			if n := len(bz); n > 0 {
				c25scan(t, bz[:t.rng.Intn(n)])
			}
		})
		for i := 0; i < 5; i++ {
			if b := hostile(t.rng, encs); len(b) < 30000 {
				c25scan(t, b)
			}
		}
	})
	c.run("prefixes", c.n(10), func(t *T) {
		var b []byte
		for i := 0; i < 6; i++ {
			f := pieces[1+t.rng.Intn(88)]
			b = append(b, uv(uint64(1+t.rng.Intn(3000))<<3|[]uint64{0, 1, 2, 5}[t.rng.Intn(4)])...)
			b = append(b, lp(f)...)
		}
		// fields by construction
		b = b[:0]
		for i := 0; i < 6; i++ {
			cl := []int{wVarint, w8, wBytes, w4}[t.rng.Intn(4)]
			b = append(b, key(uint32(1+t.rng.Intn(3000)), cl)...)
			switch cl {
			case wVarint:
				b = append(b, padUv(t.rng.Uint64()>>uint(t.rng.Intn(64)), t.rng.Intn(3))...)
			case w8:
				b = append(b, le(t.rng.Uint64(), 8)...)
			case w4:
				b = append(b, le(t.rng.Uint64(), 4)...)
			case wBytes:
				x := make([]byte, t.rng.Intn(20))
				t.rng.Read(x)
				b = append(b, lp(x)...)
			}
		}
		for i := 0; i <= len(b); i++ {
			c25scan(t, b[:i])
		}
	})
	c.run("long", c.n(12), func(t *T) {
		n := 1000 + t.rng.Intn(29000)
		b := []byte{}
		switch t.idx % 4 {
		case 0: // one field
			b = append(key(1, wBytes), lp(make([]byte, n))...)
		case 1: // many small ones
			for len(b) < n/4 {
				b = append(b, 0x08, byte(t.rng.Intn(128)))
			}
		case 2:
			b = make([]byte, n)
			t.rng.Read(b)
		case 3: // one byte missing
			b = append(key(1, wBytes), lp(make([]byte, n))...)
			b = b[:len(b)-1]
		}
		c25scan(t, b)
		c25color(t, b)
	})
	c.run("colour", c.n(60), func(t *T) {
		var b []byte
		switch t.idx {
		case 0:
			for i := 0; i < 256; i++ {
				b = append(b, byte(i))
			}
		default:
			b = make([]byte, 1+t.rng.Intn(60))
			for i := range b {
				b[i] = []byte{byte(t.rng.Intn(256)), byte(0x1f + t.rng.Intn(0x62)), 0x20, 0x7e, 0x7f, 0x1b, '[', '0'}[t.rng.Intn(8)]
			}
		}
		c25color(t, b)
	})
	names := append([]string{"a", "-", "-x", "com.tendermint/x", "Name with spaces", "ünïcode", "\x01\xff", strings.Repeat("long", 3000), "8801", "--color"}, c25mined()...)
	c.run("names", len(names)+c.n(30), func(t *T) {
		if t.idx < len(names) {
			c25name(t, names[t.idx])
			return
		}
		b := make([]byte, 1+t.rng.Intn(30))
		for i := range b {
			b[i] = byte(1 + t.rng.Intn(255))
		}
		c25name(t, string(b))
	})
	c.run("usage", 1, func(t *T) {
		for _, args := range [][]string{{}, {"--help"}, {"-h"}, {"--color"}, {"--color", ""}} {
			c := exec.Command(*flagAux, args...)
			bz, _ := c.CombinedOutput()
			if !strings.Contains(string(bz), "sage") || strings.Contains(string(bz), "panic") {
				t.failf("aminoscan %v prints %q", args, bz)
			}
		}
		t.evaluated("usage", true)
	})
}

func c25mined() (out []string) {
	for _, g := range minedGroups {
		out = append(out, g[0])
	}
	for _, g := range minedDisamb {
		out = append(out, g...)
	}
	return append(out, minedZeros...)
}
