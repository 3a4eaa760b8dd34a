//go:build go1.21

// Package verifsim is a deterministic simulator for the concurrency, clock, CPU count, map order
// and file I/O of Go code that was rewritten to call it (see /verif/rewrite).
//
// Exactly one task (a real goroutine) runs at any moment. At every yield point and every
// synchronisation operation the running task may hand the baton to another one; which one is
// decided by a seeded PRNG (record mode) or by a list of decisions (replay mode). Decisions are
// addressed by (task path, local step of that task), so that removing one from the list leaves
// the meaning of the others intact: that is what makes a trace minimisable.
//
// Everything here is compiled without race instrumentation and hands the baton over with race
// synchronisation disabled: the scheduler adds no happens-before edges, only the simulated
// synchronisation operations do. So under -race the detector sees the program's own ordering.
package verifsim

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// ---------------------------------------------------------------- decisions

// Kinds of decision.
const (
	KSwitch = "switch" // at a yield point: run task C next
	KBlock  = "block"  // the task blocked or ended: run task C next
	KSelect = "select" // pick the C-th ready case
	KMap    = "map"    // iterate the map in the permutation of seed C
	KClock  = "clock"  // step the wall clock by C ns
	KStall  = "stall"  // monotonic time advances by C ns here (stalled machine)
	KIO     = "io"     // file operation outcome, see fs.go
	KPool   = "pool"   // the pool drops an object
)

// Decision is one non-default choice of a run.
type Decision struct {
	Task string `json:"task"`         // path of the deciding task
	N    int64  `json:"n"`            // its local step
	Kind string `json:"kind"`         //
	C    int64  `json:"c"`            // number (kinds other than switch and block)
	To   string `json:"to,omitempty"` // path of the chosen task (switch, block)
	Note string `json:"note,omitempty"`
}

const (
	kSwitch = iota
	kBlock
	kSelect
	kMap
	kClock
	kStall
	kIO
	kPool
	nKinds
)

var kindNames = [nKinds]string{KSwitch, KBlock, KSelect, KMap, KClock, KStall, KIO, KPool}

type dec struct {
	task uint64 // key of the deciding task
	n    int64
	kind int
	c    int64
	to   uint64
	note string
}

// ---------------------------------------------------------------- tasks

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	key    uint64
	path   string
	nchild int
	idx    int // creation order
	wake   chan struct{}
	local  int64 // local steps before the current quantum
	state  int
	killed bool
	waitOn unsafe.Pointer
	why    string
	prio   uint64
	victim bool
	until  int64 // sleeping until this monotonic time (with sleeping)
	sleep  bool
	poll   func() bool
	sw     []dec // replay: this task's switch decisions, by n
	swCur  int
	ot     []dec // replay: its other decisions
	otCur  int
	acc    unsafe.Pointer // to acquire on resume
}

// Strategy kinds.
const (
	SSeq    = iota // no preemption, lowest task first
	SRandom        // preempt after geometrically distributed quanta, uniform choice
	SPCT           // random priorities with D priority change points
	SStarve        // like SRandom, but one task runs only when nothing else can
	SOps           // switch only at synchronisation operations
	SLast          // newest task first, no other preemption
	NStrategies
)

var StrategyNames = [...]string{"seq", "random", "pct", "starve", "ops", "newest-first"}

// Config of a run.
type Config struct {
	Seed      uint64 // of all decisions (record mode)
	Strategy  int
	MeanQ     int64 // mean quantum in steps
	POp       int   // probability in 1/256 of a switch at a synchronisation operation
	D         int   // priority change points (SPCT)
	Horizon   int64 // steps over which change points are spread
	Victim    int   // SStarve: creation index of the starved task
	NumCPU    int
	MaxProcs  int
	MaxSteps  int64
	Tick      int64 // ns of simulated time per step
	Wall0     int64 // initial wall clock, unix ns
	PClock    int   // probability in 1/256 of a wall-clock jump at a clock reading
	PStall    int   // probability in 1/4096 of a stall at a scheduling decision
	PMap      int   // probability in 1/256 that a map iteration is shuffled
	PPool     int   // probability in 1/256 that a pool drops an object
	IO        IOConfig
	Replay    bool
	Decisions []Decision
	Trace     bool // record events with their source position
}

// Result of a run.
type Result struct {
	Steps     int64
	Tasks     int
	Switches  int64
	SimTime   int64 // ns of simulated monotonic time
	Hash      uint64
	Decisions []Decision
	Panic     string // a task panicked (a real process would have crashed)
	PanicVal  interface{}
	PanicTask string
	Deadlock  string // blocked tasks, if nothing could run before the main task ended
	StepLimit bool
	Leaked    []string // library tasks still blocked after everything else ended
	OpenFiles int      // files opened and not closed by the end
	Races     int
	Faults    [nKinds]int64
	IOFaults  [nIOFaults]int64
	Events    []Event
	Trace     []string
}

// Outcome is "" if the run ended normally.
func (r *Result) Outcome() string {
	switch {
	case r.Panic != "":
		return "panic in task " + r.PanicTask + ": " + r.Panic
	case r.Deadlock != "":
		return "deadlock: " + r.Deadlock
	case r.StepLimit:
		return fmt.Sprintf("no progress: more than %d steps", r.Steps)
	}
	return ""
}

// Event is a harness record made with Log.
type Event struct {
	Step int64
	Time int64
	Task string
	Kind string
	A    int64
	B    int64
	C    int64
}

type runState struct {
	cfg       Config
	rng       uint64
	tasks     []*Task // live tasks in creation order
	all       []*Task
	total     int64 // steps before the current quantum
	ntasks    int
	switches  int64
	hash      uint64
	decs      []dec
	res       *Result
	aborted   bool
	mainDone  bool
	done      chan struct{}
	endSync   byte
	mono      int64 // extra monotonic ns (stalls, sleeps)
	wall      int64 // wall jumps
	changes   []int64
	lowPrio   uint64
	chans     chanTable
	decsIn    []dec
	events    []Event
	quiescing *Task
	nspawn    int
	readOff   int64
	killing   *Task
}

var (
	cd      int64 = math.MaxInt64 // steps left in the current quantum
	quantum int64 = math.MaxInt64
	cur     *Task
	rs      *runState
	epoch   int64
)

// Active reports whether a simulated run is going on.
//
//go:norace
func Active() bool { return rs != nil }

// NumCPU stands for runtime.NumCPU.
//
//go:norace
func NumCPU() int {
	if rs == nil {
		return 4
	}
	return rs.cfg.NumCPU
}

// GOMAXPROCS stands for runtime.GOMAXPROCS.
//
//go:norace
func GOMAXPROCS(n int) int {
	if rs == nil {
		return 4
	}
	old := rs.cfg.MaxProcs
	if n > 0 {
		rs.cfg.MaxProcs = n
	}
	return old
}

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func (r *runState) rnd() uint64 {
	r.rng += 0x9e3779b97f4a7c15
	x := r.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func (r *runState) intn(n int) int { return int(r.rnd() % uint64(n)) }

//go:norace
func (r *runState) chance(p, of int) bool { return p > 0 && int(r.rnd()%uint64(of)) < p }

// Y is a yield point.
//
//go:norace
func Y() {
	cd--
	if cd <= 0 {
		yslow()
	}
}

// op is a yield point at a synchronisation operation.
//
//go:norace
func op() {
	cd--
	r := rs
	if r == nil {
		return
	}
	if cd <= 0 || (!r.cfg.Replay && r.cfg.Strategy != SSeq && len(r.tasks) > 1 && (r.cfg.Strategy == SPCT || r.chance(r.cfg.POp, 256))) {
		yslow()
	}
}

// flush accounts for the steps of the current quantum.
//
//go:norace
func flush() {
	used := quantum - cd
	rs.total += used
	cur.local += used
	quantum = cd
}

//go:norace
func yslow() {
	r := rs
	if r == nil {
		cd = math.MaxInt64
		quantum = cd
		return
	}
	if cur.killed {
		cd = math.MaxInt64
		quantum = cd
		runtime.Goexit()
	}
	flush()
	if r.total > r.cfg.MaxSteps {
		r.res.StepLimit = true
		abort()
	}
	r.decide()
}

// decide takes a scheduling decision at a yield point of the running task.
//
//go:norace
func (r *runState) decide() {
	t := cur
	r.wakeTimers()
	var next *Task
	if r.cfg.Replay {
		for t.swCur < len(t.sw) && t.sw[t.swCur].n < t.local {
			t.swCur++
		}
		if t.swCur < len(t.sw) && t.sw[t.swCur].n == t.local {
			d := t.sw[t.swCur]
			t.swCur++
			if c := r.find(d.to); c != nil && c.state == stRunnable {
				next = c
			}
		}
		r.replayStall(t)
	} else {
		if r.chance(r.cfg.PStall, 4096) {
			d := int64(r.rnd() % uint64(2e9))
			r.mono += d
			r.res.Faults[kStall]++
			r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kStall, c: d})
		}
		next = r.pick(t)
	}
	if next == nil || next == t {
		r.newQuantum(t)
		return
	}
	if !r.cfg.Replay {
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kSwitch, to: next.key})
	} else {
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kSwitch, to: next.key, note: site(r)})
	}
	r.handoff(t, next)
}

//go:norace
func (r *runState) replayStall(t *Task) {
	if d, ok := r.other(t, kStall); ok {
		r.mono += d.c
		r.res.Faults[kStall]++
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kStall, c: d.c})
	}
}

// other returns the replay decision of this kind at the task's present step.
//
//go:norace
func (r *runState) other(t *Task, kind int) (dec, bool) {
	for t.otCur < len(t.ot) && t.ot[t.otCur].n < t.local {
		t.otCur++
	}
	for i := t.otCur; i < len(t.ot) && t.ot[i].n == t.local; i++ {
		if t.ot[i].kind == kind {
			d := t.ot[i]
			t.ot[i].kind = -1
			return d, true
		}
	}
	return dec{}, false
}

//go:norace
func (r *runState) find(key uint64) *Task {
	for _, t := range r.tasks {
		if t.key == key {
			return t
		}
	}
	return nil
}

// newQuantum sets how many steps the task may run before the next decision.
//
//go:norace
func (r *runState) newQuantum(t *Task) {
	q := r.cfg.MaxSteps - r.total + 1
	if q < 1 {
		q = 1
	}
	if r.cfg.Replay {
		for t.swCur < len(t.sw) && t.sw[t.swCur].n <= t.local {
			t.swCur++
		}
		if t.swCur < len(t.sw) {
			if d := t.sw[t.swCur].n - t.local; d < q {
				q = d
			}
		}
		// stalls are decided at yield points too
		for i := t.otCur; i < len(t.ot); i++ {
			if t.ot[i].kind == kStall && t.ot[i].n > t.local {
				if d := t.ot[i].n - t.local; d < q {
					q = d
				}
				break
			}
		}
	} else {
		switch r.cfg.Strategy {
		case SRandom, SStarve:
			if len(r.tasks) > 1 {
				// geometric with mean MeanQ
				u := float64(r.rnd()>>11) / (1 << 53)
				g := int64(-math.Log1p(-u)*float64(r.cfg.MeanQ)) + 1
				if g < q {
					q = g
				}
			}
		case SPCT:
			for _, c := range r.changes {
				if c > r.total && c-r.total < q {
					q = c - r.total
				}
			}
		}
	}
	quantum = q
	cd = q
}

// pick chooses the next task (record mode); t may be running (yield) or not (block, exit).
//
//go:norace
func (r *runState) pick(t *Task) *Task {
	n := 0
	for _, c := range r.tasks {
		if c.state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	running := t != nil && t.state == stRunnable
	switch r.cfg.Strategy {
	case SSeq:
		if running {
			return t
		}
		return r.lowest()
	case SLast:
		for i := len(r.tasks) - 1; i >= 0; i-- {
			if r.tasks[i].state == stRunnable {
				return r.tasks[i]
			}
		}
	case SPCT:
		if running {
			for i, c := range r.changes {
				if c != 0 && c <= r.total {
					r.changes[i] = 0
					r.lowPrio--
					t.prio = r.lowPrio
				}
			}
		}
		var best *Task
		for _, c := range r.tasks {
			if c.state == stRunnable && (best == nil || c.prio > best.prio) {
				best = c
			}
		}
		return best
	case SStarve:
		m := 0
		for _, c := range r.tasks {
			if c.state == stRunnable && !c.victim {
				m++
			}
		}
		if m > 0 {
			k := r.intn(m)
			for _, c := range r.tasks {
				if c.state == stRunnable && !c.victim {
					if k == 0 {
						return c
					}
					k--
				}
			}
		}
	}
	k := r.intn(n)
	for _, c := range r.tasks {
		if c.state == stRunnable {
			if k == 0 {
				return c
			}
			k--
		}
	}
	return nil
}

//go:norace
func (r *runState) lowest() *Task {
	for _, c := range r.tasks {
		if c.state == stRunnable {
			return c
		}
	}
	return nil
}

// handoff gives the baton from t (parked until it is chosen again, or ended) to next.
//
//go:norace
func (r *runState) handoff(t, next *Task) {
	r.switches++
	r.hash = mix(r.hash ^ t.key)
	r.hash = mix(r.hash ^ uint64(t.local))
	r.hash = mix(r.hash ^ next.key)
	cur = next
	r.newQuantum(next)
	if t.state == stDone {
		rDisable()
		next.wake <- struct{}{}
		rEnable()
		return
	}
	rDisable()
	next.wake <- struct{}{}
	<-t.wake
	rEnable()
	if t.killed {
		runtime.Goexit()
	}
}

// blockNext is called when the running task cannot go on (blocked or done): chooses who runs.
// It returns when the task is resumed (or at once, if it is done).
//
//go:norace
func (r *runState) blockNext(t *Task) {
	flush()
	if r.total > r.cfg.MaxSteps {
		r.res.StepLimit = true
		abort()
		return
	}
	r.wakeTimers()
	def := r.lowest()
	for def == nil {
		if !r.advanceTimers() && !r.pollForeign() {
			if r.mainDone {
				r.finish()
				if t.state != stDone {
					park(t)
				}
				return
			}
			if r.quiescing != nil {
				q := r.quiescing
				r.quiescing = nil
				r.wakeTask(q)
			} else {
				r.res.Deadlock = r.describeBlocked()
				abort()
				return
			}
		}
		def = r.lowest()
	}
	next := def
	if r.cfg.Replay {
		if d, ok := r.other(t, kBlock); ok {
			if c := r.find(d.to); c != nil && c.state == stRunnable {
				next = c
			}
		}
	} else {
		next = r.pick(t)
	}
	if next != def {
		note := ""
		if r.cfg.Replay {
			note = t.why
			if t.state == stDone {
				note = "end of task"
			}
		}
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kBlock, to: next.key, note: note})
	}
	if next == t { // its own timer fired
		r.newQuantum(t)
		return
	}
	r.handoff(t, next)
}

//go:norace
func park(t *Task) {
	rDisable()
	<-t.wake
	rEnable()
	if t.killed {
		runtime.Goexit()
	}
}

// blockOn parks the running task until someone calls wakeAll on the same object.
//
//go:norace
func blockOn(obj unsafe.Pointer, why string) {
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	t.state = stBlocked
	t.waitOn = obj
	t.why = why
	rs.blockNext(t)
	t.waitOn = nil
}

//go:norace
func (r *runState) wakeTask(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		t.sleep = false
	}
}

//go:norace
func wakeAll(obj unsafe.Pointer) {
	for _, t := range rs.tasks {
		if t.state == stBlocked && t.waitOn == obj {
			rs.wakeTask(t)
		}
	}
}

//go:norace
func (r *runState) wakeTimers() {
	for _, t := range r.tasks {
		if t.sleep && t.state == stBlocked && t.until <= r.now() {
			r.wakeTask(t)
		}
	}
}

//go:norace
func (r *runState) advanceTimers() bool {
	var first *Task
	for _, t := range r.tasks {
		if t.sleep && t.state == stBlocked && (first == nil || t.until < first.until) {
			first = t
		}
	}
	if first == nil {
		return false
	}
	if d := first.until - r.now(); d > 0 {
		r.mono += d
	}
	r.wakeTask(first)
	return true
}

//go:norace
func (r *runState) pollForeign() bool {
	any := false
	for _, t := range r.tasks {
		if t.state == stBlocked && t.poll != nil && t.poll() {
			r.wakeTask(t)
			any = true
		}
	}
	return any
}

// now is the simulated monotonic time.
//
//go:norace
func (r *runState) now() int64 {
	return (r.total+(quantum-cd))*r.cfg.Tick + r.mono
}

//go:norace
func (r *runState) describeBlocked() string {
	s := ""
	for _, t := range r.tasks {
		if t.state == stBlocked {
			if s != "" {
				s += "; "
			}
			s += "task " + t.path + " on " + t.why
		}
	}
	return s
}

// abort ends the run from inside a task.
//
//go:norace
func abort() {
	r := rs
	t := cur
	if !r.aborted {
		r.aborted = true
		r.finish()
	}
	if t.state != stDone {
		park(t)
	}
}

//go:norace
func (r *runState) finish() {
	rDisable()
	r.done <- struct{}{}
	rEnable()
}

// Fatal ends the run as a crash of the process (a Go "fatal error").
//
//go:norace
func fatal(msg string) {
	if rs == nil {
		panic(msg)
	}
	if cur.killed {
		runtime.Goexit()
	}
	if rs.res.Panic == "" {
		rs.res.Panic = "fatal error: " + msg
		rs.res.PanicTask = cur.path
	}
	abort()
	runtime.Goexit()
}

// Go starts f as a new task: it stands for the go statement.
//
//go:norace
func Go(f func()) {
	r := rs
	if r == nil {
		panic("verifsim: go statement outside a simulated run")
	}
	if cur.killed {
		return
	}
	p := cur
	t := r.newTask(p)
	go taskMain(t, f)
	if !r.cfg.Replay && len(r.tasks) == 2 {
		flush()
		r.newQuantum(p)
	}
	op()
}

//go:norace
func (r *runState) newTask(p *Task) *Task {
	t := &Task{wake: make(chan struct{}, 1), state: stRunnable}
	if p == nil {
		t.path = "0"
		t.key = mix(1)
	} else {
		t.path = p.path + "." + itoa(p.nchild)
		t.key = mix(p.key*31 + uint64(p.nchild) + 7)
		p.nchild++
	}
	t.idx = r.ntasks
	r.ntasks++
	if r.cfg.Replay {
		for _, d := range r.cfgDecs(t.key) {
			if d.kind == kSwitch {
				t.sw = append(t.sw, d)
			} else {
				t.ot = append(t.ot, d)
			}
		}
	} else {
		t.prio = r.rnd()>>1 | 1<<40
		t.victim = r.cfg.Strategy == SStarve && t.idx == r.cfg.Victim
	}
	r.tasks = append(r.tasks, t)
	r.all = append(r.all, t)
	return t
}

//go:norace
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

//go:norace
func (r *runState) cfgDecs(key uint64) []dec {
	// linear scan over the replay list, sorted by task then n: no maps here (race runtime)
	lo := 0
	for lo < len(r.decsIn) && r.decsIn[lo].task != key {
		lo++
	}
	hi := lo
	for hi < len(r.decsIn) && r.decsIn[hi].task == key {
		hi++
	}
	return r.decsIn[lo:hi]
}

//go:norace
func taskMain(t *Task, f func()) {
	defer taskEnd(t)
	rDisable()
	<-t.wake
	rEnable()
	if t.killed {
		runtime.Goexit()
	}
	f()
}

// ExitPanic is what a simulated os.Exit or log.Fatal raises.
type ExitPanic struct {
	Code int
	Msg  string
}

//go:norace
func taskEnd(t *Task) {
	r := rs
	e := recover()
	if t.killed {
		t.state = stDone
		rReleaseMerge(unsafe.Pointer(&r.endSync))
		rDisable()
		r.done <- struct{}{}
		rEnable()
		return
	}
	if e != nil {
		r.res.Panic = fmt.Sprint(e)
		r.res.PanicVal = e
		r.res.PanicTask = t.path
		r.res.Trace = append(r.res.Trace, string(debug.Stack()))
		t.state = stDone
		r.remove(t)
		rReleaseMerge(unsafe.Pointer(&r.endSync))
		flush()
		r.aborted = true
		r.finish()
		return
	}
	t.state = stDone
	r.remove(t)
	rReleaseMerge(unsafe.Pointer(&r.endSync))
	if t.idx == 0 {
		r.mainDone = true
	}
	if len(r.tasks) == 0 {
		flush()
		r.finish()
		return
	}
	r.blockNext(t)
}

//go:norace
func (r *runState) remove(t *Task) {
	for i, c := range r.tasks {
		if c == t {
			for j := i; j+1 < len(r.tasks); j++ { // not copy(): the race runtime would see it
				r.tasks[j] = r.tasks[j+1]
			}
			r.tasks[len(r.tasks)-1] = nil
			r.tasks = r.tasks[:len(r.tasks)-1]
			return
		}
	}
}

// Quiesce blocks the caller until no other task can run, and returns how many are left blocked.
//
//go:norace
func Quiesce() int {
	r := rs
	op()
	if len(r.tasks) > 1 {
		r.quiescing = cur
		blockOn(unsafe.Pointer(&r.quiescing), "quiesce")
	}
	return len(r.tasks) - 1
}

// Blocked describes the tasks that are blocked now.
//
//go:norace
func Blocked() string { return rs.describeBlocked() }

// NTasks is the number of live tasks.
//
//go:norace
func NTasks() int { return len(rs.tasks) }

// Spawned is the number of tasks created so far in this run.
//
//go:norace
func Spawned() int { return rs.ntasks }

// Step is the global step count.
//
//go:norace
func Step() int64 {
	if rs == nil {
		return 0
	}
	return rs.total + (quantum - cd)
}

// MonoNow is the simulated monotonic time in ns.
//
//go:norace
func MonoNow() int64 {
	if rs == nil {
		return 0
	}
	return rs.now()
}

// TaskPath is the running task's path.
//
//go:norace
func TaskPath() string {
	if cur == nil {
		return ""
	}
	return cur.path
}

// Log records a harness event; it orders nothing (no happens-before edge).
//
//go:norace
func Log(kind string, a, b, c int64) {
	if rs == nil {
		return
	}
	rs.events = append(rs.events, Event{Step: Step(), Time: rs.now(), Task: cur.path, Kind: kind, A: a, B: b, C: c})
}

//go:norace
func site(r *runState) string {
	if !r.cfg.Trace {
		return ""
	}
	var pcs [12]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !hasPrefix(f.Function, "verifsim.") {
			return f.File + ":" + itoa(f.Line)
		}
		if !more {
			return ""
		}
	}
}

//go:norace
func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// Run executes body as the main task of a simulated run.
func Run(cfg Config, body func()) *Result {
	if rs != nil {
		panic("verifsim: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200e6
	}
	if cfg.NumCPU <= 0 {
		cfg.NumCPU = 1
	}
	if cfg.MaxProcs <= 0 {
		cfg.MaxProcs = cfg.NumCPU
	}
	if cfg.MeanQ <= 0 {
		cfg.MeanQ = 100
	}
	if cfg.Tick <= 0 {
		cfg.Tick = 50
	}
	r := &runState{cfg: cfg, rng: mix(cfg.Seed), res: &Result{}, done: make(chan struct{}, 1), lowPrio: 1 << 39}
	for _, d := range cfg.Decisions {
		k := -1
		for i, n := range kindNames {
			if n == d.Kind {
				k = i
			}
		}
		r.decsIn = append(r.decsIn, dec{task: pathKey(d.Task), n: d.N, kind: k, c: d.C, to: pathKey(d.To)})
	}
	sort.SliceStable(r.decsIn, func(i, j int) bool {
		a, b := r.decsIn[i], r.decsIn[j]
		if a.task != b.task {
			return a.task < b.task
		}
		return a.n < b.n
	})
	if cfg.Strategy == SPCT && !cfg.Replay {
		h := cfg.Horizon
		if h <= 0 {
			h = 20000
		}
		for i := 0; i < cfg.D; i++ {
			r.changes = append(r.changes, 1+int64(r.rnd()%uint64(h)))
		}
	}
	epoch++
	races0 := RaceErrors()
	rs = r
	t := r.newTask(nil)
	cur = t
	quantum, cd = 0, 0
	r.newQuantum(t)
	go taskMain(t, body)
	start(r, t)
	// tasks left over
	res := r.res
	for _, t := range r.tasks {
		if t.state != stDone {
			if !r.aborted {
				res.Leaked = append(res.Leaked, "task "+t.path+" on "+t.why)
			}
		}
	}
	cd, quantum = math.MaxInt64, math.MaxInt64
	for _, t := range r.all {
		kill(r, t)
	}
	rAcquire(unsafe.Pointer(&r.endSync))
	res.Steps = r.total
	res.Tasks = r.ntasks
	res.Switches = r.switches
	res.SimTime = r.total*cfg.Tick + r.mono
	res.Hash = mix(r.hash ^ uint64(r.total))
	res.Races = RaceErrors() - races0
	res.Events = r.events
	paths := map[uint64]string{}
	for _, t := range r.all {
		paths[t.key] = t.path
	}
	for _, d := range r.decs {
		res.Hash = mix(res.Hash ^ d.task ^ uint64(d.n)<<8 ^ uint64(d.kind) ^ uint64(d.c)*31 ^ d.to*7)
		res.Decisions = append(res.Decisions, Decision{Task: paths[d.task], N: d.n, Kind: kindNames[d.kind], C: d.c, To: paths[d.to], Note: d.note})
		if d.kind == kSwitch || d.kind == kBlock {
			res.Faults[d.kind]++
		}
	}
	rs = nil
	cur = nil
	cd, quantum = math.MaxInt64, math.MaxInt64
	return res
}

//go:norace
func start(r *runState, t *Task) {
	rDisable()
	t.wake <- struct{}{}
	<-r.done
	rEnable()
}

//go:norace
func kill(r *runState, t *Task) {
	if t.state == stDone {
		return
	}
	cur = t
	t.killed = true
	rDisable()
	t.wake <- struct{}{}
	<-r.done
	rEnable()
}

// KindNames lists decision kinds in the order of Result.Faults.
func KindNames() []string { return kindNames[:] }

func pathKey(p string) uint64 {
	if p == "" {
		return 0
	}
	key := mix(1)
	n, seen := 0, 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '.' {
			if seen > 0 {
				key = mix(key*31 + uint64(n) + 7)
			}
			seen++
			n = 0
			continue
		}
		n = n*10 + int(p[i]-'0')
	}
	return key
}
