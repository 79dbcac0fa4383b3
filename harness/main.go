package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The supervisor: starts itself as a child that runs the workload under the
// monitors, watches it, and turns what it reports (or how it dies) into a
// verdict: exit 0 held, exit 1 violated, exit 3 inconclusive.

type check struct {
	id    string
	rule  string // how cases are made and what makes one non-trivial
	assum []string
	run   func(c *ctx)
}

var checks = map[string]*check{}

func register(ch *check) { checks[ch.id] = ch }

type childResult struct {
	Done     bool             `json:"done"`
	Counts   map[string]int64 `json:"counts"`
	Distinct int              `json:"distinct"`
	Samples  []string         `json:"samples"`
	Viols    []violation      `json:"viols"`
	Known    []string         `json:"known"`
	Notes    []string         `json:"notes"`
}

var (
	flagProp    = flag.String("prop", "", "property")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagSeed    = flag.Int64("seed", 1, "seed")
	flagPhase   = flag.String("phase", "", "only this phase (replay)")
	flagCase    = flag.Int("case", -1, "only this case (replay)")
	flagChild   = flag.Bool("child", false, "internal")
	flagDir     = flag.String("dir", "", "scratch directory")
	flagVerif   = flag.String("verif", "", "/verif")
	flagScale   = flag.Float64("scale", 0, "override the case scale")
	flagRace    = flag.Bool("race", false, "built with -race: look for reports")
	flagAux     = flag.String("aminoscan", "", "path of the aminoscan binary")
	flagWorkers = flag.Int("workers", 0, "number of workers")
	flagDeep    = flag.String("deep", "", "internal")
	flagSelf    = flag.Bool("self", false, "self checks of the harness")
)

func main() {
	flag.Parse()
	if *flagDeep != "" {
		deepMain(*flagDeep)
		return
	}
	if *flagSelf {
		selfCheck()
		return
	}
	ch := checks[*flagProp]
	if ch == nil {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("unknown property", *flagProp, "of", ids)
		os.Exit(3)
	}
	if *flagChild {
		child(ch)
		return
	}
	os.Exit(supervise(ch))
}

func child(ch *check) {
	c := newCtx(ch.id, *flagTier, *flagSeed)
	c.onlyPhase, c.onlyCase = *flagPhase, *flagCase
	if *flagScale > 0 {
		c.scale = *flagScale
	}
	if *flagWorkers > 0 {
		c.workers = *flagWorkers
	}
	f, err := os.OpenFile(filepath.Join(*flagDir, "journal"), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	c.journal = f
	ch.run(c)
	res := childResult{Done: true, Counts: c.counts, Distinct: len(c.distinct), Samples: c.samples, Viols: c.viols, Known: c.known, Notes: c.notes}
	bz, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(filepath.Join(*flagDir, "result.json"), bz, 0o644)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
}

// outcome of one child process
type outcome struct {
	res     *childResult
	exit    int
	killed  string // why we killed it
	slots   []slot // cases in progress at the end
	output  string
	races   []string
	stalled *slot
}

const (
	overallLimit = 14 * time.Minute
	memLimit     = 12 << 30
)

var began = time.Now()

// runChild runs a child to its end, or kills it if it stalls, or uses too much memory.
func runChild(dir string, phase string, idx int, solo bool, onStall func(slot) bool) outcome {
	_ = os.MkdirAll(dir, 0o755)
	jpath := filepath.Join(dir, "journal")
	_ = os.Remove(jpath)
	_ = os.Remove(filepath.Join(dir, "result.json"))
	if old, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(old) > 0 {
		for _, f := range old {
			_ = os.Remove(f)
		}
	}
	args := []string{"-child", "-prop", *flagProp, "-tier", *flagTier, "-seed", strconv.FormatInt(*flagSeed, 10), "-dir", dir,
		"-verif", *flagVerif, "-aminoscan", *flagAux}
	if *flagScale > 0 {
		args = append(args, "-scale", fmt.Sprint(*flagScale))
	}
	if *flagWorkers > 0 {
		args = append(args, "-workers", fmt.Sprint(*flagWorkers))
	}
	if phase != "" {
		args = append(args, "-phase", phase)
	}
	if idx >= 0 {
		args = append(args, "-case", strconv.Itoa(idx))
	}
	cmd := exec.Command(os.Args[0], args...)
	outf, err := os.Create(filepath.Join(dir, "output"))
	if err != nil {
		return outcome{exit: 3, output: err.Error()}
	}
	cmd.Stdout, cmd.Stderr = outf, outf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 log_path="+filepath.Join(dir, "race")+" exitcode=0", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var o outcome
	if err := cmd.Start(); err != nil {
		return outcome{exit: 3, output: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func(why string) {
		o.killed = why
		o.slots = busySlots(jpath)
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	type watch struct {
		s     slot
		since time.Time
		cpu   float64
		asked bool
	}
	watches := map[int]*watch{}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	start := time.Now()
	ended := false
	for !ended {
		select {
		case err := <-done:
			ended = true
			if err != nil {
				o.exit = 1
				if ee, ok := err.(*exec.ExitError); ok {
					o.exit = ee.ExitCode()
					if o.exit < 0 {
						o.exit = 128
					}
				}
			}
		case <-tick.C:
			if o.killed != "" {
				continue
			}
			if rss(cmd.Process.Pid) > memLimit {
				kill("memory")
				continue
			}
			if time.Since(began) > overallLimit {
				kill("time")
				continue
			}
			cpu := cpuSeconds(cmd.Process.Pid)
			if solo {
				w := watches[0]
				if w == nil {
					w = &watch{since: time.Now(), cpu: cpu}
					watches[0] = w
				}
				// CPU time, so that a loaded machine does not matter; or no progress at all.
				if cpu > 120 || (time.Since(start) > 90*time.Second && cpu < 5) {
					kill("hang")
				}
				continue
			}
			for i, s := range readJournal(jpath) {
				w := watches[i]
				if w == nil || !s.busy || w.s != s {
					watches[i] = &watch{s: s, since: time.Now()}
					continue
				}
				if !w.asked && time.Since(w.since) > 40*time.Second {
					w.asked = true
					if onStall != nil && onStall(s) {
						s := s
						o.stalled = &s
						kill("hang")
						break
					}
				}
				// It does not hang alone, but here: perhaps a deadlock.
				if w.asked && time.Since(w.since) > 150*time.Second {
					s := s
					o.stalled = &s
					o.slots = busySlots(jpath)
					o.killed = "stall"
					_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT) // prints all stacks
					time.AfterFunc(10*time.Second, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
					break
				}
			}
		}
	}
	outf.Close()
	if o.killed == "" && o.exit != 0 {
		o.slots = busySlots(jpath)
	}
	bz, _ := os.ReadFile(filepath.Join(dir, "output"))
	o.output = string(bz)
	if bz, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		var r childResult
		if json.Unmarshal(bz, &r) == nil && r.Done {
			o.res = &r
		}
	}
	if fs, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(fs) > 0 {
		for _, f := range fs {
			bz, _ := os.ReadFile(f)
			for _, blk := range strings.Split(string(bz), "==================") {
				if strings.Contains(blk, "WARNING: DATA RACE") {
					o.races = append(o.races, strings.TrimSpace(blk))
				}
			}
		}
	}
	return o
}

func busySlots(path string) (out []slot) {
	for _, s := range readJournal(path) {
		if s.busy {
			out = append(out, s)
		}
	}
	return
}

func rss(pid int) int64 {
	bz, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(bz))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpuSeconds(pid int) float64 {
	bz, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(bz)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

var lockWait = regexp.MustCompile(`^goroutine \d+ [^\[\n]*\[(sync\.[^\],]*|semacquire), \d+ minutes`)

// deadlocked finds the goroutines, in a dump of all, that have been waiting for a
// lock of a codec for more than a minute.
func deadlocked(dump string) (out string) {
	for _, g := range strings.Split(dump, "\n\n") {
		if i := strings.Index(g, "goroutine "); i >= 0 {
			g = g[i:]
		}
		if lockWait.MatchString(g) && strings.Contains(g, "go-amino.(*Codec)") {
			out += g + "\n\n"
		}
	}
	return clip(out, 20000)
}

func supervise(ch *check) int {
	dir := filepath.Join(*flagDir, "main")
	solo := func(s slot, n int) outcome {
		return runChild(filepath.Join(*flagDir, fmt.Sprintf("solo%d", n)), s.phase, s.idx, true, nil)
	}
	nsolo := 0
	onStall := func(s slot) bool {
		nsolo++
		o := solo(s, nsolo)
		return o.killed == "hang"
	}
	var viols []violation
	replaying := *flagPhase != "" || *flagCase >= 0
	o := runChild(dir, *flagPhase, *flagCase, *flagCase >= 0, onStall)
	if o.res != nil {
		viols = append(viols, o.res.Viols...)
	}
	if o.res == nil || o.exit != 0 || o.killed != "" {
		switch {
		case o.killed == "hang" && o.stalled != nil:
			viols = append(viols, violation{o.stalled.phase, o.stalled.idx, "the call does not return", tail(o.output)})
		case o.killed == "hang":
			viols = append(viols, violation{*flagPhase, *flagCase, "the call does not return", tail(o.output)})
		case o.killed == "stall" && deadlocked(o.output) != "":
			viols = append(viols, violation{o.stalled.phase, o.stalled.idx, "deadlock: a call waits for a lock of the codec for minutes", deadlocked(o.output)})
		case o.killed == "time" || o.killed == "stall" || o.exit == 3:
			fmt.Println("INCONCLUSIVE:", o.killed, tail(o.output))
			return 3
		default:
			// It died (or was about to take all memory): find the case.
			found := false
			for _, s := range o.slots {
				if replaying && *flagCase >= 0 {
					break
				}
				nsolo++
				so := solo(s, nsolo)
				if so.res == nil || so.exit != 0 || so.killed != "" {
					viols = append(viols, violation{s.phase, s.idx, "the process dies: " + so.killed + " " + crashLine(so.output), tail(so.output)})
					found = true
					break
				}
				if len(so.res.Viols) > 0 {
					viols = append(viols, so.res.Viols...)
					found = true
					break
				}
			}
			if !found {
				// Not one case alone (interference), or a replay: run it again as a whole.
				nsolo++
				again := o
				if !(replaying && *flagCase >= 0) {
					again = runChild(filepath.Join(*flagDir, "again"), *flagPhase, *flagCase, false, onStall)
				}
				if again.res == nil || again.exit != 0 || again.killed != "" {
					ph, ix := *flagPhase, *flagCase
					if len(o.slots) > 0 {
						ph = o.slots[0].phase
					}
					viols = append(viols, violation{ph, ix, "the process dies: " + again.killed + " " + crashLine(again.output), tail(again.output)})
				} else {
					fmt.Println("INCONCLUSIVE: the workload died once and not again:", o.killed, crashLine(o.output))
					fmt.Println(tail(o.output))
					return 3
				}
			}
		}
	}
	for _, r := range o.races {
		viols = append(viols, violation{"race", -1, "data race", r})
		if len(viols) > 20 {
			break
		}
	}
	if *flagRace {
		fmt.Printf("race detector reports: %d\n", len(o.races))
	}
	if o.res != nil {
		for _, k := range o.res.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.id, k)
		}
		for _, n := range o.res.Notes {
			fmt.Println("note:", n)
		}
		fmt.Println(strings.Join(sortedCounts(o.res.Counts), " "), "distinct_nontrivial="+strconv.Itoa(o.res.Distinct))
	}
	if !replaying {
		writeEvidence(ch, o, viols)
	}
	if o.res != nil && o.res.Counts["evaluations"] == 0 && len(viols) == 0 && !replaying {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 3
	}
	if len(viols) > 0 {
		printed := map[string]bool{}
		for i, v := range viols {
			if i >= 5 {
				break
			}
			path := writeReplay(ch, v, i)
			if i == 0 {
				fmt.Printf("--- %s #%d: %s\n%s\n", v.Phase, v.Case, v.What, v.Detail)
			}
			if !printed[path] {
				fmt.Printf("VIOLATION property=%s replay=%s\n", ch.id, path)
			}
			printed[path] = true
		}
		return 1
	}
	fmt.Printf("%s held on everything explored (%.1fs)\n", ch.id, time.Since(began).Seconds())
	return 0
}

func crashLine(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n…\n" + s[len(s)-3000:]
	}
	return s
}

func writeReplay(ch *check, v violation, i int) string {
	dir := filepath.Join(*flagVerif, "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", ch.id, i))
	cmd := fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s", *flagSeed, ch.id, *flagTier)
	if v.Phase != "" && v.Phase != "race" {
		cmd += " -phase " + v.Phase
		if v.Case >= 0 {
			cmd += fmt.Sprintf(" -case %d", v.Case)
		}
	}
	s := fmt.Sprintf("property: %s\nreplay (in /verif): %s\nphase: %s\ncase: %d\n\n%s\n\n%s\n", ch.id, cmd, v.Phase, v.Case, v.What, v.Detail)
	_ = os.WriteFile(path, []byte(s), 0o644)
	return path
}

func writeEvidence(ch *check, o outcome, viols []violation) {
	cov := map[string]interface{}{"rule": ch.rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": []string{}}
	if o.res != nil {
		cov["evaluations"] = o.res.Counts["evaluations"]
		cov["distinct_nontrivial"] = o.res.Distinct
		cov["samples"] = o.res.Samples
		obs := map[string]int64{}
		for k, v := range o.res.Counts {
			if k != "evaluations" {
				obs[k] = v
			}
		}
		cov["observed"] = obs
	}
	if *flagRace {
		cov["race_reports"] = len(o.races)
	}
	ev := map[string]interface{}{
		"property": ch.id, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(began).Seconds(), "violations": len(viols),
		"assumptions": append([]string{"held on the executions observed in this run only; nothing is claimed about inputs that were not generated"}, ch.assum...),
	}
	bz, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*flagVerif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, ch.id+".json"), append(bz, '\n'), 0o644)
}
