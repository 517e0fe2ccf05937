// Package lab runs simulations: each run is a pure function of three tapes of
// choices (work, schedule, environment), and everything it does, injects and
// finds is recorded here.
package lab

import (
	"fmt"
	"sort"
	"unsafe"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// Fault kinds the simulator injects.
type Fault int

const (
	FPreempt Fault = iota // forced task switches inside the library
	FMapOrder
	FStallUser
	FStallReader
	FStallWriter
	FReenter
	FUserError
	FUserPanic
	FShortRead
	FZeroRead
	FDataEOF
	FReadError
	FReadPanic
	FStreamCut
	FShortWrite
	FWriteError
	FFullDisk
	FLoss
	FDup
	FReorder
	FDelay
	FPartition
	FMisdirect
	FFlip
	FTruncate
	FSplice
	FForge
	FHostilePrefix
	FCrash
	FTornTail
	FRestart
	FSkew
	FBadType
	FRejectedReg
	FConflictReg
	FSealRace
	FBufferReuse
	FMutation
	FUpgrade
	FStaleDest
	FNestBomb
	FReshape
	nFaults
)

var faultNames = [nFaults]string{"task-switch", "map-order", "stalled-user-code", "stalled-reader", "stalled-writer", "re-entrant-user-code", "user-code-error", "user-code-panic", "short-read", "zero-byte-read", "data-with-eof", "reader-error", "reader-panic", "stream-cut", "short-write", "writer-error", "full-disk", "message-loss", "message-duplication", "message-reordering", "message-delay", "partition", "misdirected-message", "corrupted-bytes", "truncation", "splice", "forged-message", "hostile-length-prefix", "process-crash", "torn-tail", "process-restart", "clock-jump", "unsupported-type", "rejected-registration", "conflicting-registration", "seal-during-registration", "buffer-reuse", "mutation-of-results", "node-upgrade", "dirty-destination", "deep-nesting", "reshaped-message"}

// Counters of this process.
var (
	Injected [nFaults]int64
	Checks   int64 // individual comparisons made by oracles
	Ops      int64 // operations on the system under test
	Runs     int64
	Sims     int64
	Steps    int64
	Switches int64
	SimTime  int64
	Strat    [5]int64
	Unknown  int64 // histories the linearizability checker gave up on
)

// Inject counts an injected fault.
//
//go:norace
func Inject(f Fault) { Injected[f]++ }

//go:norace
func Checked() { Checks++ }

//go:norace
func CountOp() { Ops++ }

// FaultCounts returns what was injected so far.
func FaultCounts() map[string]int64 {
	m := map[string]int64{}
	for i, n := range Injected {
		if n > 0 {
			m[faultNames[i]] = n
		}
	}
	return m
}

// Run is one run of one world.
type Run struct {
	Prop             string
	Seed             uint64
	Race             bool
	Verbose          bool
	Work, Sched, Env *simrt.Tape

	Class  string // class of the first failure, "" if none
	Detail string
	Hash   uint64
	Unsup  string
	Extra  int64 // additional budget of steps
	huge   bool  // has made a very large message
	story  []string
	ctx    [simrt.MaxTasks]*TaskCtx
	trace  []simrt.TraceEntry
	tasks  []string
}

// TaskCtx is what a task's user code consults.
type TaskCtx struct {
	Reenter func()
	depth   int
}

// Failed tells whether the run has failed.
//
//go:norace
func (r *Run) Failed() bool { return r.Class != "" }

// Fail records a violation; the first one counts.
func (r *Run) Fail(class, format string, args ...interface{}) {
	if r.Failed() {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	r.fail(class, s)
}

//go:norace
func (r *Run) fail(class, s string) { r.Class, r.Detail = class, s }

// Log adds a line to the story of the run, kept for replays only.
func (r *Run) Log(format string, args ...interface{}) {
	if !r.Verbose || (r.Race && simrt.InSim()) {
		return
	}
	s := fmt.Sprintf(format, args...)
	if t := simrt.Current(); t != nil {
		s = fmt.Sprintf("[%s t=%dns step=%d] %s", t.Name, simrt.S.Now(), simrt.S.StepCount(), s)
	}
	if len(s) > 1000 {
		s = s[:1000] + "…"
	}
	r.story = append(r.story, s)
}

// Story returns the lines logged.
func (r *Run) Story() []string { return r.story }

// Salt makes names and types of this run unique in the process.
func (r *Run) Salt() string { return fmt.Sprintf("%x", r.Seed) }

// Ctx sets the context of a task.
//
//go:norace
func (r *Run) Ctx(id int, c *TaskCtx) { r.ctx[id] = c }

//go:norace
func (r *Run) getCtx(id int) *TaskCtx { return r.ctx[id] }

var joinSem byte

// Spawn adds a task to a simulation.  Its effects are visible to the caller of
// Sim once that returns.
func (r *Run) Spawn(s *simrt.Sim, name string, group int, f func(t *simrt.Task)) *simrt.Task {
	return s.Go(name, group, func(t *simrt.Task) {
		defer simrt.RaceReleaseMerge(unsafe.Pointer(&joinSem))
		f(t)
	})
}

// Budget is the number of steps after which a simulation is taken not to make
// progress; healthy runs take a small fraction of it.
const Budget = 3000000

// Sim runs a simulation set up by the function.
func (r *Run) Sim(setup func(s *simrt.Sim)) {
	if r.Failed() {
		return
	}
	s := simrt.New(r.Sched, r.Env, Budget+r.Extra)
	m0 := simrt.MapPerms
	uni.Hook = r.hook
	setup(s)
	s.Run()
	simrt.RaceAcquire(unsafe.Pointer(&joinSem))
	uni.Hook = nil
	Sims++
	Steps += s.StepCount()
	Switches += s.Switches
	Injected[FPreempt] += s.Switches
	Injected[FMapOrder] += simrt.MapPerms - m0
	SimTime += s.Now()
	for i, n := range simrt.Strategies {
		if n == s.Strategy() {
			Strat[i]++
		}
	}
	r.Hash = r.Hash*1099511628211 ^ s.Hash
	if r.Verbose {
		r.trace = append(r.trace, s.Trace()...)
		r.Log("schedule: strategy %s, %d steps, %d switches, virtual time %dns", s.Strategy(), s.StepCount(), s.Switches, s.Now())
	}
	if s.Unsup != "" {
		r.Unsup = s.Unsup
		return
	}
	if t, v, stack := s.Panic(); t != nil {
		st := string(stack)
		if len(st) > 3000 {
			st = st[:3000]
		}
		r.Fail("crash", "a panic escaped in %s: %v\n%s", t.Name, v, st)
		return
	}
	switch {
	case s.Fault != "":
		r.Fail("fatal", "%s", s.Fault)
	case s.Deadlock:
		r.Fail("deadlock", "calls blocked forever: %v", s.Blocked)
	case s.BadBlock != "":
		r.Fail("blocked-by-user-code", "%s: blocked calls: %v", s.BadBlock, s.Blocked)
	case s.Overrun:
		r.Fail("no-progress", "no completion within %d steps", Budget+r.Extra)
	}
}

// Trace returns the schedule (verbose runs).
func (r *Run) Trace() []simrt.TraceEntry { return r.trace }

// hook is the user code of values that stall or call back.
func (r *Run) hook(mode byte) {
	t := simrt.Current()
	if t == nil || simrt.Dying() {
		return
	}
	switch mode {
	case 'S':
		Inject(FStallUser)
		simrt.Sleep(1 + int64(r.Env.Draw(1000000)))
	case 'R':
		c := r.getCtx(t.ID)
		if c == nil || c.Reenter == nil || c.depth > 0 {
			return
		}
		Inject(FReenter)
		c.depth++
		defer func() { c.depth-- }()
		c.Reenter()
	default:
		simrt.Point()
	}
}

// Note mixes an observation into the hash of the run.
func (r *Run) Note(s string) {
	h := r.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.Hash = h
}

// World is a kind of run.
type World struct {
	Name  string
	Props []string
	Race  bool
	F     func(r *Run)
}

// Worlds of each property.
var Worlds = map[string][]func(r *Run){}

func world(prop string, f func(r *Run)) { Worlds[prop] = append(Worlds[prop], f) }

// Exec executes a run.
func Exec(r *Run) {
	ws := Worlds[r.Prop]
	Runs++
	w := ws[0]
	if len(ws) > 1 {
		w = ws[r.Work.Draw(len(ws))]
	}
	w(r)
}

// Props lists the properties that have worlds.
func Props() []string {
	var out []string
	for p := range Worlds {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// call runs an operation on the system under test.
func call(o *sys.Op, c sys.Codec, io sys.IO) sys.Result {
	CountOp()
	return o.Run(c, sys.DeepCopy, io)
}

// alone runs an operation by itself on a fresh reference codec.
func alone(o *sys.Op, cfg *sys.Config) sys.Result {
	if cfg == nil {
		return o.Run(sys.RefPkg(), sys.RefDeepCopy, sys.PlainIO{})
	}
	return o.Run(cfg.Apply(sys.Ref()), sys.RefDeepCopy, sys.PlainIO{})
}
