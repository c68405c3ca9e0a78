package main

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"sync/atomic"
	"time"

	"github.com/mjarkk/yarql/verifsim"
)

// The simulator's kernel: the clock, the accounting of the library's
// statements, asynchronous faults, and the scheduler of simulated threads.
// Exactly one simulated thread runs at any time.

const never = math.MaxInt64

var baseWall int64 = 1_600_000_000_000_000_000 // 2020-09-13, UTC

// worker is a simulated thread.
type worker struct {
	id      int
	goid    uint64
	run     *reqRun
	count   int64 // library statements, saved while another worker runs
	next    int64
	wall    int64
	mono    int64
	clock   bool
	preempt int64 // value of verifsim.Count at which the scheduler takes over
	done    bool
	probes  map[string]int64
	depth   int // >0: inside a callback
	rnd     uint64
	watch   bool // look for changes of package-level memory before every statement
}

var mainWorker = &worker{id: -1, preempt: never, probes: map[string]int64{}}
var cur = mainWorker

//go:norace
func current() *worker { return cur }

//go:norace
func currentRun() *reqRun { return cur.run }

//go:norace
func simMono() int64 { return time.VerifMono }

//go:norace
func advance(ns int64) { time.VerifMono += ns; time.VerifWall += ns }

//go:norace
func jumpWall(ns int64) { time.VerifWall += ns }

func probe(name string) { current().probes[name]++ }
func probeN(name string, n int64) {
	current().probes[name] += n
}

// harnessFail stops the simulator: something outside of the code under test is wrong.
func harnessFail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	buf := make([]byte, 1<<14)
	os.Stderr.Write(buf[:runtime.Stack(buf, false)])
	os.Exit(3)
}

// fuelPanic aborts a request that does not finish.
type fuelPanic struct{ steps int64 }

// libState is what a callback has to put back when it returns to the library.
type libState struct {
	next int64
	rnd  uint64
}

//go:norace
func leaveLib() libState {
	if sched != nil && sched.blocked > 0 {
		sched.reclaim()
	}
	s := libState{verifsim.Next, runtime.VerifRandState}
	verifsim.Next = idle()
	cur.depth++
	syncOff()
	return s
}

//go:norace
func enterLib(s libState) {
	if sched != nil && sched.blocked > 0 {
		sched.reclaim()
	}
	syncOn()
	cur.depth--
	runtime.VerifRandState = s.rnd
	if r := cur.run; r != nil {
		r.setNext()
	} else {
		verifsim.Next = s.next
		if sched != nil && sched.blocked > 0 {
			verifsim.Next = 0
		}
	}
}

// idle is the next statement to be called at while no request is being executed:
// none, but a worker that blocked in the library has to be noticed when it goes on.
//
//go:norace
func idle() int64 {
	if sched != nil && sched.blocked > 0 {
		return 0
	}
	return never
}

// setNext computes at which statement the simulator wants to be called.
//
//go:norace
func (r *reqRun) setNext() {
	n := r.fuel
	if r.nact < len(r.acts) && int64(r.acts[r.nact].At) < n {
		n = int64(r.acts[r.nact].At)
	}
	if cur.preempt < n {
		n = cur.preempt
	}
	if cur.watch {
		n = 0
	}
	if cur.depth > 0 {
		n = never
	}
	if sched != nil && sched.blocked > 0 {
		n = 0
	}
	verifsim.Next = n
}

// slow is called by the library's instrumentation.
//
//go:norace
func slow(site int) {
	if sched != nil && sched.blocked > 0 {
		sched.reclaim()
	}
	w := cur
	r := w.run
	if r == nil {
		verifsim.Next = idle()
		return
	}
	if w.depth > 0 {
		// a callback uses the library; only called because a worker is blocked
		r.setNext()
		return
	}
	if w.watch {
		checkHot(site)
		if verifsim.Count > 100_000 {
			w.watch = false
		}
	}
	c := verifsim.Count
	for r.nact < len(r.acts) && int64(r.acts[r.nact].At) <= c {
		a := r.acts[r.nact]
		r.nact++
		verifsim.Next = idle()
		w.depth++
		r.stepAct(a)
		w.depth--
	}
	if c >= r.fuel {
		verifsim.Next = idle()
		r.outOfFuel = true
		panic(fuelPanic{c})
	}
	if sched != nil && (c >= w.preempt || site == verifsim.Target && r.outer == nil && w.depth == 0) {
		sched.preempted(w)
	}
	r.setNext()
}

// stepAct is an act of the environment that strikes between two statements of the library.
func (r *reqRun) stepAct(a Act) {
	probe("async." + a.Do)
	switch a.Do {
	case "cancel":
		c := r.curCtx()
		if c == nil || c.err != nil {
			return
		}
		r.do(a, nil)
		r.cancelAt = r.returned
		probe("async.cancel.effective")
	case "sleep":
		r.sleep(a.N)
	case "wall":
		jumpWall(a.N)
	default:
		harnessFail("step act %q", a.Do)
	}
}

// sleep lets simulated time pass; contexts whose deadline it reaches end.
func (r *reqRun) sleep(ns int64) {
	advance(ns)
	for _, c := range r.ctxs {
		if c != nil && c.deadline != 0 {
			c.check()
		}
	}
}

// begin makes r the current request of this worker.
func (r *reqRun) begin(fuel int64) {
	r.cancelAt = -1
	r.fuel = fuel
	r.nact = 0
	r.acts = nil
	for _, a := range r.plan {
		if a.Step {
			r.acts = append(r.acts, a)
		}
	}
	sort.SliceStable(r.acts, func(i, j int) bool { return r.acts[i].At < r.acts[j].At })
	r.enter()
}

//go:norace
func (r *reqRun) enter() {
	if sched != nil && sched.blocked > 0 {
		sched.reclaim()
	}
	w := cur
	r.outer, r.outerCount = w.run, verifsim.Count
	r.outerNext = verifsim.Next
	r.outerWall, r.outerMono, r.outerClock = time.VerifWall, time.VerifMono, time.VerifClock
	r.outerDepth, w.depth = w.depth, 0
	w.run = r
	time.VerifWall = baseWall
	time.VerifClock = true
	r.t0 = time.VerifMono
	if r.outer == nil {
		verifsim.Count = 0
	} else {
		// a nested request: its own accounting
		verifsim.Count = 0
		r.savedPreempt = w.preempt
		w.preempt = never
	}
	r.setNext()
}

// end hands the worker back.
//
//go:norace
func (r *reqRun) end() {
	if sched != nil && sched.blocked > 0 {
		sched.reclaim()
	}
	w := cur
	r.done = true
	r.steps = verifsim.Count
	verifsim.Next = idle()
	w.run = r.outer
	w.depth = r.outerDepth
	time.VerifWall, time.VerifClock = r.outerWall, r.outerClock
	if r.outer != nil {
		verifsim.Count = r.outerCount
		verifsim.Next = r.outerNext
		if sched != nil && sched.blocked > 0 {
			verifsim.Next = 0
		}
		time.VerifMono = r.outerMono
		w.preempt = r.savedPreempt
	} else if sched != nil {
		// the scheduler counts across requests
		if w.preempt != never {
			w.preempt -= r.steps
			if w.preempt < 0 {
				w.preempt = 0
			}
		}
	}
}

// ---- simulated threads ----

// Switch is one scheduling decision: after Gap more statements of the running
// thread (or, with Call, at its next callback) thread To gets to run.
type Switch struct {
	Gap  int64 `json:"g,omitempty"`
	To   int   `json:"t"`
	Call bool  `json:"c,omitempty"`
	// with Pick or Site, at the running thread's next execution of a certain statement
	Pick uint64 `json:"p,omitempty"` // chooses one of the statements that the requests execute
	Site int    `json:"s,omitempty"` // the statement chosen, plus 1
}

type scheduler struct {
	workers   []*worker
	list      []Switch
	pos       int
	stuck     int   // turns in a row that were given away without progress
	stuckAt   int64 // and the statements executed until then
	turn      int   // id of the running worker
	blocked   int   // workers that lost their turn because they block in the library
	isBlock   []bool
	switches  int64
	lockWaits int64  // turns given away at a lock
	points    uint64 // fingerprint of the interleaving
}

var sched *scheduler

// maybeYield is a scheduling point in a callback.
//
//go:norace
func (s *scheduler) maybeYield(kind string) {
	w := cur
	if w.id < 0 || s.pos >= len(s.list) || !s.list[s.pos].Call || w.run == nil || w.run.outer != nil {
		return
	}
	s.preempted(w)
}

//go:norace
func (s *scheduler) runnable(to int) int {
	n := len(s.workers)
	for i := 0; i < n; i++ {
		k := (to + i) % n
		if !s.workers[k].done && !s.isBlock[k] {
			return k
		}
	}
	for i := 0; i < n; i++ {
		if !s.workers[i].done {
			return i
		}
	}
	return -1
}

// arm sets the running worker's next preemption.
//
//go:norace
func (s *scheduler) arm(w *worker) {
	w.preempt = never
	verifsim.Target = -1
	if s.pos < len(s.list) && s.list[s.pos].Site > 0 {
		verifsim.Target = s.list[s.pos].Site - 1
	} else if s.pos < len(s.list) && !s.list[s.pos].Call {
		w.preempt = verifsim.Count + s.list[s.pos].Gap
	}
}

// preempted carries out the next decision.
//
//go:norace
func (s *scheduler) preempted(w *worker) {
	if s.pos >= len(s.list) {
		w.preempt = never
		verifsim.Target = -1
		return
	}
	d := s.list[s.pos]
	s.pos++
	to := d.To
	if d.Site > 0 {
		to = w.id + 1 + d.To // always another one
	}
	to = s.runnable(to % len(s.workers))
	s.points = mix(s.points, uint64(w.id)<<40^uint64(to)<<32^uint64(verifsim.Count))
	if to < 0 || to == w.id {
		s.arm(w)
		return
	}
	s.switches++
	s.handoff(w, to)
}

// handoff parks w and runs worker to; it returns when w runs again.
//
//go:norace
func (s *scheduler) handoff(w *worker, to int) {
	w.count, w.next, w.rnd = verifsim.Count, verifsim.Next, runtime.VerifRandState
	w.wall, w.mono, w.clock = time.VerifWall, time.VerifMono, time.VerifClock
	s.turn = to
	s.wait(w)
}

// wait spins until it is w's turn. There is one processor, so spinning is
// yielding; it creates no happens-before edges the code under test does not have.
//
//go:norace
func (s *scheduler) wait(w *worker) {
	var last int64 = -1
	lastTurn := -1
	spins := 0
	for s.turn != w.id {
		runtime.Gosched()
		if verifsim.Count != last || s.turn != lastTurn {
			last, lastTurn, spins = verifsim.Count, s.turn, 0
			continue
		}
		spins++
		if spins > 20000 && s.turn >= 0 && s.firstWaiting() == w.id {
			// the running worker blocks on a lock another worker holds
			b := s.workers[s.turn]
			if s.isBlock[s.turn] {
				// it got the turn because nobody else could run; it has not run yet
				s.turn = w.id
				continue
			}
			b.count, b.next, b.rnd = verifsim.Count, verifsim.Next, runtime.VerifRandState
			b.wall, b.mono, b.clock = time.VerifWall, time.VerifMono, time.VerifClock
			s.isBlock[s.turn] = true
			s.blocked++
			s.turn = w.id
		}
	}
	s.resume(w)
}

//go:norace
func (s *scheduler) firstWaiting() int {
	for i, w := range s.workers {
		if i != s.turn && !w.done && !s.isBlock[i] {
			return i
		}
	}
	return -1
}

//go:norace
func (s *scheduler) resume(w *worker) {
	if s.isBlock[w.id] {
		s.isBlock[w.id] = false
		s.blocked--
	}
	cur = w
	verifsim.Count = w.count
	runtime.VerifRandState = w.rnd
	time.VerifWall, time.VerifMono, time.VerifClock = w.wall, w.mono, w.clock
	s.arm(w)
	if w.run != nil {
		w.run.setNext()
	} else {
		verifsim.Next = never
	}
	if s.blocked > 0 {
		verifsim.Next = 0
	}
}

// reclaim is called when a statement is executed while some worker is blocked:
// if it is that worker, it waits for its turn.
//
//go:norace
func (s *scheduler) reclaim() {
	id := runtime.VerifGoid()
	if cur.goid == id {
		return
	}
	for _, w := range s.workers {
		if w.goid == id {
			// it runs again; from now on it can be scheduled
			s.isBlock[w.id] = false
			s.blocked--
			s.wait(w)
			return
		}
	}
}

// lockWait is called when the running worker has to wait for a lock: the next
// worker runs.
//
//go:norace
func lockWait() bool {
	s := sched
	w := cur
	if s == nil && w.run != nil {
		// nobody else is there to give the lock back, unless the library has goroutines of its own
		atomic.StoreInt64(&lockedSince, realNow())
		atomic.StoreInt64(&lockedAt, verifsim.Count)
	}
	if s == nil || w.id < 0 || runtime.VerifGoid() != w.goid {
		return false
	}
	total := verifsim.Count
	n := len(s.workers)
	for i, o := range s.workers {
		if i != w.id {
			total += o.count
			if o.done {
				total += 1 << 32
			}
		}
	}
	if total != s.stuckAt {
		s.stuck, s.stuckAt = 0, total
	}
	s.stuck++
	if s.stuck > 4*n+4 {
		os.Stderr.WriteString("fatal error: all threads wait for locks - deadlock!\n")
		os.Exit(2)
	}
	for i := 1; i < n; i++ {
		to := (w.id + i) % n
		if !s.workers[to].done {
			s.lockWaits++
			s.handoff(w, to)
			return true
		}
	}
	os.Stderr.WriteString("fatal error: the only thread waits for a lock - deadlock!\n")
	os.Exit(2)
	return false
}

func init() { runtime.VerifSem = lockWait }

// lockedSince is when the only simulated thread began to wait for a lock, at which statement.
var lockedSince, lockedAt int64

// finish ends worker w and lets another one run.
//
//go:norace
func (s *scheduler) finish(w *worker) {
	w.done = true
	if s.pos < len(s.list) && s.list[s.pos].Site > 0 {
		s.pos++ // the statement was not reached
	}
	to := 0
	if s.pos < len(s.list) {
		to = s.list[s.pos].To
	}
	s.turn = s.runnable(to)
	if s.turn < 0 {
		s.turn = -2
	}
}

// runWorkers runs the given functions as simulated threads.
func runWorkers(list []Switch, fns []func()) *scheduler {
	s := &scheduler{list: list, turn: -1, isBlock: make([]bool, len(fns))}
	for i := range fns {
		s.workers = append(s.workers, &worker{id: i, next: never, preempt: never, mono: simMono(), wall: baseWall, probes: map[string]int64{}})
	}
	join := make(chan int, len(fns))
	setSched(s)
	for i := range fns {
		w, f := s.workers[i], fns[i]
		go func() {
			workerMain(s, w, f)
			join <- 1
		}()
	}
	startSched(s)
	for range fns {
		<-join
	}
	var mono int64
	for _, w := range s.workers {
		if w.mono > mono {
			mono = w.mono
		}
		for k, v := range w.probes {
			mainWorker.probes[k] += v
		}
	}
	endSched(mono)
	return s
}

func workerMain(s *scheduler, w *worker, f func()) {
	setGoid(w)
	s.waitQuiet(w)
	f()
	saveClock(w)
	s.finish(w)
}

//go:norace
func saveClock(w *worker) {
	if sched.blocked > 0 {
		sched.reclaim()
	}
	w.mono = time.VerifMono
}

//go:norace
func setGoid(w *worker) { w.goid = runtime.VerifGoid() }

//go:norace
func (s *scheduler) waitQuiet(w *worker) {
	for s.turn != w.id {
		if s.turn == -1 {
			runtime.Gosched()
			continue
		}
		s.wait(w)
		return
	}
	s.resume(w)
}

//go:norace
func setSched(s *scheduler) { sched = s }

//go:norace
func startSched(s *scheduler) {
	// every worker has to be parked before the first one runs
	for {
		ok := true
		for _, w := range s.workers {
			if w.goid == 0 {
				ok = false
			}
		}
		if ok {
			break
		}
		runtime.Gosched()
	}
	to := 0
	if len(s.list) > 0 {
		to = s.list[0].To
	}
	s.turn = s.runnable(to)
}

//go:norace
func endSched(mono int64) {
	sched = nil
	verifsim.Target = -1
	cur = mainWorker
	verifsim.Next = never
	time.VerifMono = mono
	time.VerifClock = false
}

// setMapSeed decides the order of every map iteration that follows.
//
//go:norace
func setMapSeed(n uint64) { runtime.VerifRandState = n }
