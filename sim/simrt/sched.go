// Package simrt is the simulator's runtime: a cooperative scheduler that runs one
// task at a time and takes every decision from a tape, a virtual clock, and the
// seams instrumented code goes through (scheduling points, locks, goroutines,
// channels, map iteration, clock, randomness).
//
// The scheduler's own functions are norace and hand over control under
// RaceDisable, so that in race mode the only happens-before edges between tasks
// are those the code under test creates.
package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked  // on a lock or condition of the code under test
	stSleeping // until a virtual time
	stWaiting  // on an event of the harness
	stDone
)

const (
	MaxTasks = 256
	MaxSites = 1 << 16
)

// Task is a simulated thread of execution.
type Task struct {
	ID    int
	Name  string
	Steps int64
	Op    int // the harness's current operation, for reports

	state    int
	on       unsafe.Pointer
	onSite   int32
	wakeAt   int64
	wake     chan struct{}
	kill     bool
	group    int
	prio     int
	inUser   int // depth of user code (callbacks, readers, writers)
	lockWait bool
	site     int32
	body     func(*Task)
	panicked interface{}
	rung     bool
	stack    []byte
}

// Sim is one simulated execution.
type Sim struct {
	Sched *Tape // scheduling choices
	Env   *Tape // choices of the environment (I/O, callbacks, maps, pools)

	now    int64
	steps  int64
	budget int64
	quant  int64
	cov    []uint8
	tasks  [MaxTasks]*Task
	ntasks int
	live   int
	last   int // index of the last task that ran
	mode   int
	meanQ  int
	target [4]int32
	ntgt   int
	pctN   int
	pctAt  [8]int64
	lowest int
	done   chan struct{}
	killed bool

	alarmAt   int64 // step at which the alarm rings, 0 for none
	alarmTask *Task

	Switches int64
	Jumps    int64 // clock jumps
	Hash     uint64
	traceN   int
	trace    []TraceEntry

	// Set when the run cannot go on.
	Deadlock bool
	Overrun  bool
	Fault    string // misuse of a primitive by the code under test
	BadBlock string // a task waits for a lock while everyone else is stalled in user code
	Blocked  []string
	Unsup    string

	panicTask *Task
}

// TraceEntry says that a task ran from its previous switch to this site.
type TraceEntry struct {
	Task int32
	Site int32
	Step int64
}

var (
	cur *Task // the running task, nil outside simulation
	S   *Sim  // the running simulation
)

const maxTrace = 1 << 16

var traceBuf = make([]TraceEntry, maxTrace)

// Coverage over all runs of this process.
var Cov = make([]uint8, MaxSites)

// Strategy names, in order of increasing complexity.
var Strategies = []string{"run-to-block", "random-quantum", "lock-adjacent", "targeted-site", "priority-change"}

// New prepares a simulation.
func New(sched, env *Tape, budget int64) *Sim {
	s := &Sim{Sched: sched, Env: env, budget: budget, cov: Cov, done: make(chan struct{}, 1), trace: traceBuf}
	s.Hash = 14695981039346656037
	return s
}

//go:norace
func (s *Sim) mix(v uint64) {
	s.Hash ^= v
	s.Hash *= 1099511628211
}

// Go adds a task; it may be called before or during the run.
func (s *Sim) Go(name string, group int, f func(*Task)) *Task {
	if s.ntasks >= MaxTasks {
		panic("too many simulated tasks")
	}
	t := &Task{ID: s.ntasks, Name: name, wake: make(chan struct{}, 1), body: f, group: group, site: -1}
	s.add(t)
	go t.run(s)
	return t
}

//go:norace
func (s *Sim) add(t *Task) {
	s.tasks[s.ntasks] = t
	s.ntasks++
	s.live++
	if s.mode == 4 {
		t.prio = 1000 + s.Sched.Draw(1000)
	}
}

func (t *Task) run(s *Sim) {
	t.park()
	defer t.exit(s)
	if t.killedNow() {
		return
	}
	t.body(t)
}

//go:norace
func (t *Task) killedNow() bool { return t.kill }

//go:norace
func (t *Task) exit(s *Sim) {
	if r := recover(); r != nil {
		// A panic that nobody recovered: a goroutine of the library or a bug in
		// the harness. The process would have died.
		t.panicked = r
		t.stack = debug.Stack()
		if s.panicTask == nil {
			s.panicTask = t
		}
	}
	t.state = stDone
	s.live--
	if t.kill {
		// Being reaped: control returns to whoever reaps.
		reaped(s)
		return
	}
	s.next(nil)
}

//go:norace
func (t *Task) park() {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (t *Task) unpark() {
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

// Current returns the running task, or nil outside simulation.
//
//go:norace
func Current() *Task { return cur }

//go:norace
func (s *Sim) Now() int64 { return s.now }

//go:norace
func (s *Sim) StepCount() int64 { return s.steps }

//go:norace
func (s *Sim) TaskCount() int { return s.ntasks }

// Run executes all tasks to completion (or until the run is abandoned).
//
//go:norace
func (s *Sim) Run() {
	S = s
	s.mode = s.Sched.Draw(len(Strategies))
	switch s.mode {
	case 1:
		s.meanQ = [...]int{3000, 1000, 300, 100, 30, 10, 3, 1}[s.Sched.Draw(8)]
	case 2:
		s.meanQ = [...]int{8, 3, 2}[s.Sched.Draw(3)]
	case 3:
		s.ntgt = 1 + s.Sched.Draw(4)
		for i := 0; i < s.ntgt; i++ {
			s.target[i] = int32(s.Sched.Draw(NumSites))
		}
		s.meanQ = [...]int{4, 1}[s.Sched.Draw(2)]
	case 4:
		s.pctN = 1 + s.Sched.Draw(len(s.pctAt)-1)
		max := 1 << (6 + s.Sched.Draw(12))
		for i := 0; i < s.pctN; i++ {
			s.pctAt[i] = 1 + int64(s.Sched.Draw(max))
		}
		for i := 0; i < s.ntasks; i++ {
			s.tasks[i].prio = 1000 + s.Sched.Draw(1000)
		}
	}
	s.lowest = 999
	if s.live > 0 {
		s.last = s.ntasks - 1
		s.next(nil)
		raceDisable()
		<-s.done
		raceEnable()
	}
	cur = nil
	s.reap(-1)
	S = nil
}

// NumSites is the number of scheduling points in the tree under test.
var NumSites = 1

// Strategy returns the name of the scheduling strategy of the run.
//
//go:norace
func (s *Sim) Strategy() string { return Strategies[s.mode] }

// reap unwinds the tasks of a group (-1: all) that are not done.
//
//go:norace
func (s *Sim) reap(group int) {
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.state == stDone || (group >= 0 && t.group != group) || t == cur {
			continue
		}
		t.kill = true
		save := cur
		cur = t
		reapWait = true
		t.unpark()
		raceDisable()
		<-reapDone
		raceEnable()
		cur = save
	}
}

var (
	reapDone = make(chan struct{})
	reapWait bool
)

//go:norace
func reaped(s *Sim) {
	raceDisable()
	reapDone <- struct{}{}
	raceEnable()
}

// Kill destroys all tasks of a group at the scheduling points where they are,
// as a crash of the process they belong to does.  The caller must not be one.
func (s *Sim) Kill(group int) { s.reap(group) }

//go:norace
func (s *Sim) finish() {
	cur = nil
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

// next hands control to the next task; t is the caller's task, still to be
// resumed later, or nil if it will not be.  It returns when t runs again.
//
//go:norace
func (s *Sim) next(t *Task) {
	if s.panicTask != nil || s.Deadlock || s.Overrun || s.Fault != "" || s.BadBlock != "" || s.Unsup != "" {
		s.finish()
		if t != nil {
			t.park()
			t.afterPark()
		}
		return
	}
	if s.live == 0 {
		s.finish()
		return
	}
	n := s.pick()
	if n == nil {
		s.finish()
		if t != nil {
			t.park()
			t.afterPark()
		}
		return
	}
	if n != t {
		s.Switches++
		if t != nil {
			s.mix(uint64(n.ID)<<32 | uint64(uint32(t.site)))
			if s.traceN < maxTrace {
				s.trace[s.traceN] = TraceEntry{int32(t.ID), t.site, s.steps}
				s.traceN++
			}
		} else {
			s.mix(uint64(n.ID)<<32 | 0xFFFFFFFF)
		}
	}
	cur = n
	s.last = n.ID
	s.setQuantum()
	if n == t {
		return
	}
	n.unpark()
	if t != nil {
		t.park()
		t.afterPark()
	}
}

//go:norace
func (t *Task) afterPark() {
	if t.kill {
		runtime.Goexit()
	}
}

//go:norace
func (s *Sim) setQuantum() {
	switch s.mode {
	case 1:
		// Roughly geometric around the mean.
		s.quant = int64(1 + s.Sched.Draw(2*s.meanQ))
	default:
		s.quant = 1 << 60
	}
	if s.quant > s.budget-s.steps {
		s.quant = s.budget - s.steps + 1
	}
	if s.alarmAt > 0 && s.quant > s.alarmAt-s.steps {
		s.quant = s.alarmAt - s.steps
		if s.quant < 1 {
			s.quant = 1
		}
	}
}

// ring hands control to the task whose alarm is due, wherever the running task
// is.
//
//go:norace
func (s *Sim) ring(t *Task) bool {
	if s.alarmAt == 0 || s.steps < s.alarmAt {
		return false
	}
	a := s.alarmTask
	s.alarmAt = 0
	if a == t || a.state == stDone {
		return false
	}
	a.state = stRunnable
	a.rung = true
	s.Switches++
	s.mix(uint64(a.ID)<<32 | uint64(uint32(t.site)))
	if s.traceN < maxTrace {
		s.trace[s.traceN] = TraceEntry{int32(t.ID), t.site, s.steps}
		s.traceN++
	}
	cur = a
	s.last = a.ID
	s.setQuantum()
	a.unpark()
	t.park()
	t.afterPark()
	return true
}

// SleepSteps stalls the running task for a virtual duration, or until the others
// have made that many steps; then it runs at once, whatever they are doing.
// It tells whether they were interrupted.
//
//go:norace
func SleepSteps(d, steps int64) bool {
	t := cur
	if t == nil || t.kill {
		return false
	}
	s := S
	t.rung = false
	s.alarmAt = s.steps + steps
	s.alarmTask = t
	Sleep(d)
	s.alarmAt = 0
	return t.rung
}

// pick chooses the next task to run, advancing the clock if nobody can run now.
//
//go:norace
func (s *Sim) pick() *Task {
	for {
		var run [MaxTasks]int
		n := 0
		// Rotate so that choice 0 means "the task after the last one", and the
		// last task itself comes first if it can still run.
		for k := 0; k < s.ntasks; k++ {
			i := (s.last + k) % s.ntasks
			if s.tasks[i].state == stRunnable {
				run[n] = i
				n++
			}
		}
		if n > 0 {
			if s.mode == 4 {
				best := run[0]
				for k := 1; k < n; k++ {
					if s.tasks[run[k]].prio > s.tasks[best].prio {
						best = run[k]
					}
				}
				return s.tasks[best]
			}
			return s.tasks[run[s.Sched.Draw(n)]]
		}
		// Nobody is runnable: jump to the next deadline.
		var first *Task
		for i := 0; i < s.ntasks; i++ {
			t := s.tasks[i]
			if t.state == stSleeping && (first == nil || t.wakeAt < first.wakeAt) {
				first = t
			}
		}
		for i := 0; i < s.ntasks; i++ {
			t := s.tasks[i]
			if t.state == stBlocked {
				s.Blocked = append(s.Blocked, t.Name)
			}
		}
		if len(s.Blocked) > 0 {
			if first == nil {
				s.Deadlock = true
			} else {
				s.BadBlock = "lock held while in user code"
			}
			return nil
		}
		if first == nil {
			s.Deadlock = true
			return nil
		}
		if first.wakeAt > s.now {
			s.now = first.wakeAt
			s.Jumps++
		}
		for i := 0; i < s.ntasks; i++ {
			t := s.tasks[i]
			if t.state == stSleeping && t.wakeAt <= s.now {
				t.state = stRunnable
			}
		}
	}
}

// Y is a scheduling point of the code under test.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.cov[site] = 1
	s.steps++
	t.Steps++
	t.site = site
	s.quant--
	if s.quant > 0 && s.mode < 3 {
		return
	}
	s.slow(t, site)
}

//go:norace
func (s *Sim) slow(t *Task, site int32) {
	if t.kill {
		return
	}
	if s.steps > s.budget {
		s.Overrun = true
		s.next(t)
		return
	}
	if s.alarmAt > 0 && s.ring(t) {
		return
	}
	switch s.mode {
	case 3:
		if s.quant > 0 {
			hit := false
			for i := 0; i < s.ntgt; i++ {
				if s.target[i] == site {
					hit = true
				}
			}
			if !hit || !s.Sched.Chance(1, s.meanQ) {
				return
			}
			s.preempt(t)
			return
		}
	case 4:
		for i := 0; i < s.pctN; i++ {
			if s.pctAt[i] == s.steps {
				t.prio = s.lowest
				s.lowest--
				s.next(t)
				return
			}
		}
		if s.quant > 0 {
			return
		}
	}
	s.next(t)
}

// preempt switches to another task if there is one.
//
//go:norace
func (s *Sim) preempt(t *Task) {
	// Rotate past the current task: choice 0 is then the next one.
	s.last = (t.ID + 1) % s.ntasks
	s.next(t)
}

// Point is a scheduling point of the harness or of a primitive; near locks and
// user code, where the lock-adjacent strategy preempts.
//
//go:norace
func Point() {
	t := cur
	if t == nil || t.kill {
		return
	}
	s := S
	s.steps++
	if s.steps > s.budget {
		s.Overrun = true
		s.next(t)
		return
	}
	if s.alarmAt > 0 && s.ring(t) {
		return
	}
	if s.mode == 2 && s.Sched.Chance(1, s.meanQ) {
		s.preempt(t)
		return
	}
	if s.mode == 1 {
		s.quant--
		if s.quant <= 0 {
			s.next(t)
		}
	}
}

// Gosched is runtime.Gosched in simulation.
//
//go:norace
func Gosched() {
	t := cur
	if t == nil || t.kill {
		return
	}
	if S.mode == 4 {
		t.prio = S.lowest
		S.lowest--
	}
	S.preempt(t)
}

// Block parks the running task until Wake is called for the same object.
// lock tells whether the wait is on a lock or condition of the code under test.
//
//go:norace
func Block(on unsafe.Pointer, lock bool) {
	t := cur
	if t.kill {
		return
	}
	t.on = on
	if lock {
		t.state = stBlocked
	} else {
		t.state = stWaiting
	}
	S.next(t)
	t.on = nil
}

// Wake makes the tasks blocked on the object runnable.
//
//go:norace
func Wake(on unsafe.Pointer) {
	s := S
	if s == nil {
		return
	}
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if (t.state == stBlocked || t.state == stWaiting) && t.on == on {
			t.state = stRunnable
		}
	}
}

// Sleep stalls the running task for a virtual duration.
//
//go:norace
func Sleep(d int64) {
	t := cur
	if t == nil || t.kill {
		return
	}
	t.state = stSleeping
	t.wakeAt = S.now + d
	S.next(t)
}

// InSim tells whether the caller runs inside a simulation.
//
//go:norace
func InSim() bool { return cur != nil }

// Dying tells whether the running task is being unwound.
//
//go:norace
func Dying() bool { return cur != nil && cur.kill }

// Misuse reports an illegal use of a primitive by the code under test (which the
// real primitive turns into a fatal error).
//
//go:norace
func Misuse(msg string) {
	t := cur
	if t == nil {
		fmt.Fprintln(os.Stderr, "fatal error: "+msg)
		panic("fatal error: " + msg)
	}
	if t.kill {
		return
	}
	S.Fault = msg
	S.next(t)
}

// Unsupported abandons the run: the code uses something the simulator does not model.
//
//go:norace
func Unsupported(msg string) {
	if S != nil && cur != nil {
		if cur.kill {
			return
		}
		S.Unsup = msg
		S.next(cur)
		return
	}
	panic("unsupported by the simulator: " + msg)
}

// Panic returns the panic that escaped a task, if any.
func (s *Sim) Panic() (t *Task, v interface{}, stack []byte) {
	if s.panicTask == nil {
		return nil, nil, nil
	}
	return s.panicTask, s.panicTask.panicked, s.panicTask.stack
}

// Trace returns the schedule as it was.
//
//go:norace
func (s *Sim) Trace() []TraceEntry {
	out := make([]TraceEntry, s.traceN)
	for i := range out {
		out[i] = s.trace[i]
	}
	return out
}

// Note mixes an observation into the run's event hash.
//
//go:norace
func (s *Sim) Note(b string) {
	for i := 0; i < len(b); i++ {
		s.mix(uint64(b[i]))
	}
	s.mix(0x1FF)
}
