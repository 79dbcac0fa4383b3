package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// A case is identified by (property, seed, phase, index): everything random in
// it is drawn from a generator seeded with these, so that it can be replayed.

type violation struct {
	Phase  string `json:"phase"`
	Case   int    `json:"case"`
	What   string `json:"what"`
	Detail string `json:"detail"`
}

// ctx collects what the monitors of one property saw in this process.
type ctx struct {
	prop  string
	tier  string
	seed  int64
	scale float64 // multiplies the number of cases

	onlyPhase string
	onlyCase  int // -1: all
	workers   int

	journal *os.File
	phaseNo int

	mtx      sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viols    []violation
	known    []string
	notes    []string

	aborted int32 // enough violations were seen
}

const journalSlot = 128

func newCtx(prop, tier string, seed int64) *ctx {
	c := &ctx{prop: prop, tier: tier, seed: seed, onlyCase: -1, scale: 1,
		counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	c.workers = runtime.NumCPU()
	if c.workers > 8 {
		c.workers = 8
	}
	if tier == "thorough" {
		c.scale = 20
	}
	return c
}

// n scales a number of cases with the tier.
// The cheap properties get more of them in the quick tier (the thorough one
// takes as long as it takes).
func (c *ctx) n(quick int) int {
	f := c.scale
	if q, ok := cheap[c.prop]; ok && c.tier != "thorough" {
		f *= q
	}
	return int(float64(quick) * f)
}

var cheap = map[string]float64{"C01": 3, "C02": 4, "C03": 4, "C04": 3, "C05": 3, "C06": 5, "C08": 5, "C10": 8, "C11": 3, "C13": 1.5, "C15": 1.5, "C16": 3, "C17": 8, "C18": 8, "C19": 4, "C20": 2, "C21": 2, "C25": 1.5, "C27": 5, "C28": 4, "C29": 3}

// T is what one case sees.
type T struct {
	c     *ctx
	phase string
	idx   int
	rng   *rand.Rand
	desc  []string // what is being tested, for the report
	fail  bool

	counts map[string]int64
}

type caseAbort struct{}

func seedOf(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64())
}

// note attaches a description to the report of a failing case.
func (t *T) note(format string, args ...interface{}) {
	t.desc = append(t.desc, fmt.Sprintf(format, args...))
}

func (t *T) count(what string) { t.counts[what]++ }
func (t *T) countN(what string, n int64) {
	t.counts[what] += n
}

// failf reports a violation, and ends the case.
func (t *T) failf(format string, args ...interface{}) {
	t.errorf(format, args...)
	panic(caseAbort{})
}

// errorf reports a violation, and goes on.
func (t *T) errorf(format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	if t.fail {
		return // one per case
	}
	t.fail = true
	t.c.mtx.Lock()
	if len(t.c.viols) < 50 {
		t.c.viols = append(t.c.viols, violation{t.phase, t.idx, clip(what, 4000), clip(strings.Join(t.desc, "\n"), 20000)})
	}
	if len(t.c.viols) >= 5 {
		atomic.StoreInt32(&t.c.aborted, 1)
	}
	t.c.mtx.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("… (%d more bytes)", len(s)-n)
	}
	return s
}

// evaluated records a case that a monitor judged. key identifies it, and
// trivial ones do not count as distinct_nontrivial.
func (t *T) evaluated(key string, nontrivial bool) {
	t.counts["evaluations"]++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	t.c.mtx.Lock()
	if len(t.c.distinct) < 8e6 { // enough; it is a lower bound then
		t.c.distinct[h.Sum64()] = struct{}{}
	}
	t.c.mtx.Unlock()
}

func (t *T) sample(format string, args ...interface{}) {
	t.c.mtx.Lock()
	if len(t.c.samples) < 12 {
		t.c.samples = append(t.c.samples, clip(fmt.Sprintf("[%s #%d] ", t.phase, t.idx)+fmt.Sprintf(format, args...), 600))
	}
	t.c.mtx.Unlock()
}

func (c *ctx) wants(phase string) bool { return c.onlyPhase == "" || c.onlyPhase == phase }

// run runs n cases of a phase on the workers.
func (c *ctx) run(phase string, n int, fn func(t *T)) { c.runW(phase, n, c.workers, fn) }

func (c *ctx) runW(phase string, n, workers int, fn func(t *T)) {
	c.phaseNo++
	if !c.wants(phase) {
		return
	}
	if c.onlyCase >= 0 {
		c.runCase(phase, c.onlyCase, 0, fn)
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for atomic.LoadInt32(&c.aborted) == 0 {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				c.runCase(phase, i, w, fn)
			}
		}(w)
	}
	wg.Wait()
}

func (c *ctx) runCase(phase string, i, w int, fn func(t *T)) {
	t := &T{c: c, phase: phase, idx: i, counts: map[string]int64{}}
	t.rng = rand.New(rand.NewSource(seedOf(c.prop, c.seed, phase, i)))
	c.journalBegin(phase, i, w)
	defer c.journalEnd(w)
	defer func() {
		c.mtx.Lock()
		for k, v := range t.counts {
			c.counts[k] += v
		}
		c.counts["cases:"+phase]++
		c.mtx.Unlock()
	}()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				return
			}
			if ip, ok := r.(inconclusive); ok {
				panic(ip)
			}
			t.fail = false
			t.errorf("panic outside of a guarded call: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	fn(t)
}

type inconclusive string

func (c *ctx) journalBegin(phase string, i, w int) {
	if c.journal == nil {
		return
	}
	var b [journalSlot]byte
	b[0] = 1
	binary.LittleEndian.PutUint64(b[8:], uint64(i))
	b[16] = byte(len(phase))
	copy(b[17:], phase)
	_, _ = c.journal.WriteAt(b[:], int64(w)*journalSlot)
}

func (c *ctx) journalEnd(w int) {
	if c.journal == nil {
		return
	}
	var b [1]byte
	_, _ = c.journal.WriteAt(b[:], int64(w)*journalSlot)
}

type slot struct {
	busy  bool
	phase string
	idx   int
}

func readJournal(path string) (slots []slot) {
	bz, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for len(bz) >= journalSlot {
		b := bz[:journalSlot]
		bz = bz[journalSlot:]
		s := slot{busy: b[0] == 1, idx: int(binary.LittleEndian.Uint64(b[8:]))}
		n := int(b[16])
		if 17+n <= journalSlot {
			s.phase = string(b[17 : 17+n])
		}
		slots = append(slots, s)
	}
	return
}

func sortedCounts(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return out
}

// trace is where a panic came from. Most are expected, and never printed.
type trace []uintptr

func (t trace) String() string {
	var b strings.Builder
	fs := runtime.CallersFrames(t)
	for {
		f, more := fs.Next()
		fmt.Fprintf(&b, "%s\n\t%s:%d\n", f.Function, f.File, f.Line)
		if !more {
			return b.String()
		}
	}
}

// guard runs fn and returns the panic value, if any, with the stack.
func guard(fn func()) (pv interface{}, stack trace) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			pv = r
			stack = make(trace, 40)
			stack = stack[:runtime.Callers(3, stack)]
		}
	}()
	fn()
	return nil, nil
}
