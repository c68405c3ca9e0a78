package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/mjarkk/yarql/verifsim"
)

type runOpts struct {
	prop, tier    string
	seed          uint64
	from, n       int
	shard, shards int
	out           string
	secs          float64
	verbose, all  bool
	dir           string
	race          string
	raceLog       string
}

// Found is a violation as a shard reports it and as a replay file holds it.
type Found struct {
	Property  string    `json:"property"`
	Class     string    `json:"class"`
	Violation string    `json:"violation"`
	BaseSeed  uint64    `json:"base_seed"`
	Tier      string    `json:"tier"`
	Index     int       `json:"index"`
	Race      bool      `json:"race,omitempty"`   // needs the race detector's build
	Prefix    *prefix   `json:"prefix,omitempty"` // the runs before it in the same process matter
	Original  *origin   `json:"original,omitempty"`
	Scenario  *Scenario `json:"scenario"`
}

type prefix struct {
	From   int `json:"from"`
	Shard  int `json:"shard"`
	Shards int `json:"shards"`
}

type origin struct {
	Steps    int `json:"steps"`
	Bytes    int `json:"bytes"`
	MinBytes int `json:"minimised_bytes"`
	Tried    int `json:"candidates_tried"`
}

// Report is what a shard reports.
type Report struct {
	Runs, Nontriv   int
	Requests, Calls int64
	Steps, MaxSteps int64
	SimTime         int64
	Switches        int64
	Prints, Scheds  []uint64
	Probes          map[string]int64
	Digest          uint64
	Head            []uint64 // digests of the first runs
	Found           []*Found
	Samples         []*Scenario
	Secs            float64
	Slowest         float64
	SlowestIndex    int
}

func scenarioSeed(base uint64, i int) uint64 { return base<<32 + uint64(i) }

// draw makes the scenario of a run; it went through JSON, so that a replay file is exact.
func draw(prop string, base uint64, i int, tier string) *Scenario {
	sc := scenarioFor(prop, scenarioSeed(base, i), tier)
	b, err := json.Marshal(sc)
	if err != nil {
		harnessFail("%v", err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		harnessFail("%v", err)
	}
	return c
}

var lastProgress int64

// watchdog ends the process when one run takes far too long.
func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(time.Second)
			if t := atomic.LoadInt64(&lockedSince); t != 0 {
				if statements() != atomic.LoadInt64(&lockedAt) {
					atomic.StoreInt64(&lockedSince, 0)
				} else if realNow()-t > 6e9 {
					fmt.Fprintln(os.Stderr, "fatal error: the only thread waits for a lock - deadlock!")
					buf := make([]byte, 1<<16)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(2)
				}
			}
			t := atomic.LoadInt64(&lastProgress)
			if t != 0 && realNow()-t > int64(limit) {
				fmt.Fprintln(os.Stderr, "WATCHDOG: a run does not end")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
}

//go:norace
func statements() int64 { return verifsim.Count }

// realNow is the machine's clock; the simulated one replaces time.Now during requests.
func realNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptr(&ts)), 0)
	return ts.Nano()
}

func cmdRun(o *runOpts) int {
	if !raceBuild {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	rep := &Report{SlowestIndex: -1}
	prints, scheds := map[uint64]bool{}, map[uint64]bool{}
	var pf *os.File
	if o.out != "" {
		var err error
		if pf, err = os.Create(o.out + ".at"); err != nil {
			harnessFail("%v", err)
		}
	}
	start := realNow()
	watchdog(100 * time.Second)
	for i := o.from; i < o.from+o.n; i++ {
		if i%o.shards != o.shard {
			continue
		}
		if o.secs > 0 && float64(realNow()-start) > o.secs*1e9 {
			break
		}
		t0 := realNow()
		atomic.StoreInt64(&lastProgress, t0)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		sc := draw(o.prop, o.seed, i, o.tier)
		res := runScenario(sc)
		rep.Runs++
		rep.Requests += res.Requests
		rep.Calls += res.Calls
		rep.Steps += res.Steps
		if res.MaxSteps > rep.MaxSteps {
			rep.MaxSteps = res.MaxSteps
		}
		rep.SimTime += res.SimTime
		rep.Switches += res.Switches
		rep.Digest = mix(rep.Digest, res.Digest)
		if len(rep.Head) < 12 {
			rep.Head = append(rep.Head, res.Digest)
		}
		if res.Nontriv {
			rep.Nontriv++
			prints[mix(res.Print, res.Sched)] = true
			if len(rep.Samples) < 2 && len(sc.Steps)+len(sc.Workers) < 6 && len(sc.json()) < 6000 {
				rep.Samples = append(rep.Samples, sc)
			}
		}
		if res.Switches > 0 {
			scheds[res.Sched] = true
		}
		if d := float64(realNow()-t0) / 1e9; d > rep.Slowest {
			rep.Slowest, rep.SlowestIndex = d, i
		}
		if res.Violation != "" {
			v := res.Violation
			if res.Class == "race" {
				v += raceText(o.raceLog)
			}
			rep.Found = append(rep.Found, &Found{Property: o.prop, Class: res.Class, Violation: v, BaseSeed: o.seed, Tier: o.tier, Index: i,
				Race: raceBuild, Prefix: &prefix{o.from, o.shard, o.shards}, Scenario: sc})
			if o.verbose {
				fmt.Println("run", i, res.Class, cl(res.Violation, 1500))
			}
			if !o.all {
				break
			}
		}
	}
	rep.Secs = float64(realNow()-start) / 1e9
	rep.Probes = mainWorker.probes
	for p := range prints {
		rep.Prints = append(rep.Prints, p)
	}
	for p := range scheds {
		rep.Scheds = append(rep.Scheds, p)
	}
	if o.out != "" {
		b, _ := json.Marshal(rep)
		if err := os.WriteFile(o.out, b, 0o644); err != nil {
			harnessFail("%v", err)
		}
		return 0
	}
	fmt.Printf("%s runs %d violations %d nontrivial %d distinct %d schedules %d requests %d calls %d digest %x secs %.1f slowest %.2f (%d)\n",
		o.prop, rep.Runs, len(rep.Found), rep.Nontriv, len(prints), len(scheds), rep.Requests, rep.Calls, rep.Digest, rep.Secs, rep.Slowest, rep.SlowestIndex)
	return 0
}

func raceText(prefix string) string {
	if prefix == "" {
		return ""
	}
	b, err := os.ReadFile(prefix + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return ""
	}
	// the shortest description: the code positions of the first report
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "/repo/") {
			keep = append(keep, strings.Split(l, " by ")[0])
		}
		if len(keep) > 14 || len(keep) > 0 && strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return ": " + strings.Join(keep, "; ")
}

func loadFound(file string) *Found {
	b, err := os.ReadFile(file)
	if err != nil {
		harnessFail("%v", err)
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil {
		harnessFail("%s: %v", file, err)
	}
	if f.Scenario == nil {
		harnessFail("%s holds no scenario", file)
	}
	return f
}

// cmdReplay runs a replay file: 1 = the violation is there, 0 = it is not.
func cmdReplay(o *runOpts, file string) int {
	if !raceBuild {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	f := loadFound(file)
	watchdog(150 * time.Second)
	atomic.StoreInt64(&lastProgress, realNow())
	if f.Race && !raceBuild {
		fmt.Println("note: this violation was found with the race detector's build")
	}
	if f.Prefix != nil {
		for i := f.Prefix.From; i < f.Index; i++ {
			if i%f.Prefix.Shards == f.Prefix.Shard {
				atomic.StoreInt64(&lastProgress, realNow())
				runScenario(draw(f.Property, f.BaseSeed, i, f.Tier))
			}
		}
	}
	if o.verbose {
		show = true
	}
	res := runScenario(f.Scenario)
	if res.Violation == "" {
		fmt.Printf("no violation (digest %x)\n", res.Digest)
		return 0
	}
	if res.Class == "race" {
		res.Violation += raceText(o.raceLog)
	}
	fmt.Printf("class %s digest %x\n%s\n", res.Class, res.Digest, res.Violation)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1
}

// ---- the check ----

// budget is how many runs a quick check makes.
var budget = map[string]int{
	"C01": 24000, "C02": 26000, "C03": 16000, "C04": 16000, "C05": 26000, "C06": 32000, "C07": 96000, "C08": 96000, "C09": 80000,
	"C10": 48000, "C11": 72000, "C12": 72000, "C13": 90000, "C14": 16000, "C15": 32000, "C16": 90000, "C17": 20000, "C18": 288,
}

type shard struct {
	cmd  *exec.Cmd
	out  string
	race bool
	k    int
	err  error
	log  string
}

const shardsPerCheck = 8

func cmdCheck(o *runOpts) int {
	start := time.Now()
	if budget[o.prop] == 0 {
		harnessFail("no property %q", o.prop)
	}
	self, err := os.Executable()
	if err != nil {
		harnessFail("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verifsim-")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(tmp)
	n, secs := budget[o.prop], 240.0
	if o.tier == "thorough" {
		n, secs = 1<<30, 600
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			harnessFail("VERIF_SECS: %v", err)
		}
		n, secs = 1<<30, f
	}
	fmt.Printf("%s: seed %d, tier %s\n", o.prop, o.seed, o.tier)
	var shards []*shard
	launch := func(bin, prop string, k, of, from, n int, secs float64, race bool) *shard {
		s := &shard{out: filepath.Join(tmp, fmt.Sprintf("s%d-%d-%v", from, k, race)), race: race, k: k}
		s.cmd = exec.Command(bin, "run", "-prop", prop, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n),
			"-shard", fmt.Sprint(k), "-shards", fmt.Sprint(of), "-secs", fmt.Sprint(secs), "-out", s.out, "-racelog", s.out+".race")
		s.cmd.Env = append(os.Environ(), "GORACE=log_path="+s.out+".race halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
		lf, err := os.Create(s.out + ".log")
		if err != nil {
			harnessFail("%v", err)
		}
		s.cmd.Stdout, s.cmd.Stderr = lf, lf
		s.log = s.out + ".log"
		if err := s.cmd.Start(); err != nil {
			harnessFail("%v", err)
		}
		lf.Close()
		return s
	}
	plain := shardsPerCheck
	if o.race != "" {
		plain = 4
	}
	for k := 0; k < plain; k++ {
		shards = append(shards, launch(self, o.prop, k, plain, 0, n, secs, false))
	}
	raceFrom := 1 << 28
	if o.race != "" {
		rn := n / 4
		if n == 1<<30 {
			rn = n / 8
		}
		for k := 0; k < 4; k++ {
			shards = append(shards, launch(o.race, o.prop, k, 4, raceFrom, rn, secs, true))
		}
	}
	for _, s := range shards {
		s.err = s.cmd.Wait()
	}
	total := &Report{Probes: map[string]int64{}}
	prints, scheds := map[uint64]bool{}, map[uint64]bool{}
	var found []*Found
	var raceRuns int
	var reps []*Report
	for _, s := range shards {
		rep := &Report{}
		if s.err == nil {
			b, err := os.ReadFile(s.out)
			if err != nil {
				harnessFail("%v", err)
			}
			if err := json.Unmarshal(b, rep); err != nil {
				harnessFail("%v", err)
			}
		} else {
			f := crashed(o, s, self, tmp)
			if f == nil {
				return 3
			}
			found = append(found, f)
			continue
		}
		reps = append(reps, rep)
		total.Runs += rep.Runs
		if s.race {
			raceRuns += rep.Runs
		}
		total.Nontriv += rep.Nontriv
		total.Requests += rep.Requests
		total.Calls += rep.Calls
		total.Steps += rep.Steps
		total.SimTime += rep.SimTime
		total.Switches += rep.Switches
		total.Secs += rep.Secs
		if rep.MaxSteps > total.MaxSteps {
			total.MaxSteps = rep.MaxSteps
		}
		for k, v := range rep.Probes {
			total.Probes[k] += v
		}
		for _, p := range rep.Prints {
			prints[p] = true
		}
		for _, p := range rep.Scheds {
			scheds[p] = true
		}
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, rep.Samples...)
		}
		found = append(found, rep.Found...)
	}
	sort.SliceStable(found, func(i, j int) bool { return found[i].Index < found[j].Index })

	// is a run a function of its seed? the first runs again, in a new process
	same := 0
	if len(found) == 0 {
		again := launch(self, o.prop, 0, plain, 0, 12*plain, 60, false)
		// a second output name is not needed: the first report was read
		if err := again.cmd.Wait(); err != nil {
			b, _ := os.ReadFile(again.log)
			fmt.Fprintf(os.Stderr, "%s", b)
			harnessFail("second execution: %v", err)
		}
		rep := &Report{}
		b, _ := os.ReadFile(again.out)
		if err := json.Unmarshal(b, rep); err != nil {
			harnessFail("%v", err)
		}
		for i := range rep.Head {
			if i >= len(reps[0].Head) {
				break
			}
			if rep.Head[i] == reps[0].Head[i] {
				same++
			} else {
				fmt.Printf("note: run %d took another course the second time\n", i*plain)
			}
		}
	}

	var replay string
	if len(found) > 0 {
		f := found[0]
		replay, err = report(o, f, self, tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			return 3
		}
	}
	writeEvidence(o, total, len(prints), len(scheds), raceRuns, same, len(found), time.Since(start).Seconds())
	fmt.Printf("%s: %d runs, %d requests, %d callbacks, %d distinct nontrivial runs, %.0f s\n", o.prop, total.Runs, total.Requests, total.Calls, len(prints), time.Since(start).Seconds())
	if replay != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, replay)
		return 1
	}
	return 0
}

// crashed finds out what ended a shard.
func crashed(o *runOpts, s *shard, self, tmp string) *Found {
	log, _ := os.ReadFile(s.log)
	at, err := os.ReadFile(s.out + ".at")
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS: shard %d did not start: %v\n%s\n", s.k, s.err, cl(string(log), 4000))
		return nil
	}
	i, err := strconv.Atoi(strings.TrimSpace(string(at)))
	var ee *exec.ExitError
	if err != nil || !errors.As(s.err, &ee) || ee.ExitCode() == 3 {
		fmt.Fprintf(os.Stderr, "HARNESS: shard %d: %v\n%s\n", s.k, s.err, cl(string(log), 4000))
		return nil
	}
	f := &Found{Property: o.prop, Class: "crash", BaseSeed: o.seed, Tier: o.tier, Index: i, Race: s.race, Scenario: drawElsewhere(o, i, self)}
	f.Violation = "the process ends: " + ee.Error() + ": " + firstLines(string(log))
	return f
}

// drawElsewhere draws a scenario in a new process: this one has not registered the enums.
func drawElsewhere(o *runOpts, i int, self string) *Scenario {
	b, err := exec.Command(self, "draw", "-prop", o.prop, "-seed", strconv.FormatUint(o.seed, 10), "-from", strconv.Itoa(i), "-tier", o.tier).Output()
	sc := &Scenario{}
	if err == nil {
		err = json.Unmarshal(b, sc)
	}
	if err != nil {
		harnessFail("drawing run %d: %v", i, err)
	}
	return sc
}

func firstLines(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime: ") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "WATCHDOG") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "\t/repo") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 12 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// tryFile replays a file in a new process: 1 = violation, 0 = none, other = the process died.
func tryFile(bin, file string, limit time.Duration, raceLog string) (code int, class string, out string) {
	c := exec.Command(bin, "replay", "-racelog", raceLog, file)
	c.Env = append(os.Environ(), "GORACE=log_path="+raceLog+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
	var b strings.Builder
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		harnessFail("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return 4, "crash", "no end within " + limit.String()
	}
	code = 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		harnessFail("%v", err)
	}
	for _, l := range strings.Split(b.String(), "\n") {
		if strings.HasPrefix(l, "class ") {
			class = strings.Fields(l)[1]
		}
	}
	if code != 0 && code != 1 {
		class = "crash"
	}
	return code, class, b.String()
}

func (f *Found) save(file string) {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		harnessFail("%v", err)
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		harnessFail("%v", err)
	}
}

// report confirms a violation in a new process, minimises it and writes the replay file.
func report(o *runOpts, f *Found, self, tmp string) (string, error) {
	bin := self
	if f.Race {
		bin = o.race
	}
	fmt.Printf("run %d: %s: %s\n", f.Index, f.Class, cl(f.Violation, 1200))
	dir := filepath.Join(o.dir, "replays")
	os.MkdirAll(dir, 0o755)
	final := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", o.prop, o.seed, f.Index))
	pre := f.Prefix
	f.Prefix = nil
	f.save(final)
	limit := 170 * time.Second
	raceLog := filepath.Join(tmp, "confirm.race")
	code, class, out := tryFile(bin, final, limit, raceLog)
	if code == 3 {
		return "", errors.New("the simulator fails: " + cl(out, 4000))
	}
	if code == 0 {
		// it depends on what ran before in the same process
		if pre == nil {
			pre = &prefix{0, f.Index % shardsPerCheck, shardsPerCheck}
		}
		f.Prefix = pre
		f.save(final)
		code, class, out = tryFile(bin, final, 10*time.Minute, raceLog)
		if code == 0 || code == 3 {
			return "", fmt.Errorf("run %d does not repeat itself: %s", f.Index, f.Violation)
		}
		f.Class = class
		f.save(final)
		return final, nil
	}
	f.Class = class
	if f.Violation == "" || code != 1 {
		f.Violation = "the process ends: " + firstLines(out)
	}
	f.save(final)
	// minimise
	min := filepath.Join(tmp, "min.json")
	c := exec.Command(bin, "minimise", "-secs", "45", "-racelog", raceLog+".min", final, min)
	c.Env = append(os.Environ(), "GORACE=log_path="+raceLog+".min halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=none")
	c.Stderr = os.Stderr
	if err := c.Start(); err == nil {
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			c.Process.Kill()
			<-done
		}
	}
	if _, err := os.Stat(min); err == nil {
		if code, cls, _ := tryFile(bin, min, limit, raceLog); code == 1 && cls == class || code != 0 && code != 3 && class == "crash" {
			m := loadFound(min)
			m.save(final)
			fmt.Printf("minimised from %d to %d bytes: %s\n", m.Original.Bytes, m.Original.MinBytes, cl(m.Violation, 1200))
		}
	}
	return final, nil
}

func writeEvidence(o *runOpts, t *Report, distinct, scheds, raceRuns, same, violations int, wall float64) {
	faults, reach := map[string]int64{}, map[string]int64{}
	for k, v := range t.Probes {
		switch {
		case strings.HasPrefix(k, "fault."), strings.HasPrefix(k, "net."), strings.HasPrefix(k, "async."), strings.HasPrefix(k, "ctx."):
			faults[k] = v
		default:
			reach[k] = v
		}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(t.Runs) / wall * 3600
	}
	cov := map[string]interface{}{
		"evaluations":                    t.Runs,
		"distinct_nontrivial":            distinct,
		"rule":                           rules[o.prop],
		"samples":                        t.Samples,
		"runs_per_hour":                  int64(perHour),
		"requests_served":                t.Requests,
		"callbacks_into_user_code":       t.Calls,
		"library_statements_executed":    t.Steps,
		"most_statements_in_one_request": t.MaxSteps,
		"simulated_seconds":              float64(t.SimTime) / 1e9,
		"faults_injected":                faults,
		"conditions_reached":             reach,
		"nontrivial_runs":                t.Nontriv,
		"runs_repeated_with_equal_digest_in_a_new_process": same,
		"real_code": []string{"every package of /repo that a server runs: yarql, bytecode, bytecode/cache, helpers (instrumented copies of the working tree's files, made at build time)", "github.com/valyala/fastjson, encoding/json, reflect and the rest of the Go runtime"},
		"stubs":     []string{"the application (Go types, resolvers, directives, Go contexts, form files), scripted by the simulator", "time.Now/Since (simulated clock)", "the runtime's random map order (seeded)", "HTTP and multipart parsing: the bytes are handed to HandleRequest directly"},
	}
	if len(t.Samples) == 0 {
		cov["samples"] = []interface{}{}
	}
	if o.prop == "C04" {
		cov["distinct_interleavings"] = scheds
		cov["context_switches"] = t.Switches
		cov["runs_under_the_race_detector"] = raceRuns
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": assumptions[o.prop],
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		harnessFail("%v", err)
	}
	os.MkdirAll(o.dir, 0o755)
	if err := os.WriteFile(filepath.Join(o.dir, o.prop+".json"), append(b, '\n'), 0o644); err != nil {
		harnessFail("%v", err)
	}
}
