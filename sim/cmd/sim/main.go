// Command sim searches, replays and minimises simulated executions.
//
//	sim drive  -prop C01 -tier quick      search seeds, report, write evidence
//	sim work   -prop C01 -from 0 -n 100   execute runs (a worker of drive)
//	sim one    -in FILE                   execute one recorded run
//	sim replay FILE                       execute a replay file and say what happened
//	sim show   -prop C01 -i 7             execute one run and tell its story
//	sim twice  -prop C01 -n 500           execute runs twice and compare
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"amsim/lab"
	"amsim/simrt"
)

// Rec is a recorded run: everything needed to execute it again.
type Rec struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Base     uint64   `json:"verif_seed"`
	Race     bool     `json:"race_build"`
	Prelude  []int    `json:"prelude,omitempty"` // runs made before in the same process
	Taped    bool     `json:"taped"`             // tapes below; else drawn from the seed
	Work     []uint32 `json:"work"`
	Sched    []uint32 `json:"sched"`
	Env      []uint32 `json:"env"`
	Story    []string `json:"story,omitempty"`
	Schedule []string `json:"schedule,omitempty"`
	Note     string   `json:"note,omitempty"`
}

// Out is what became of a run.
type Out struct {
	Class  string
	Detail string
	Hash   uint64
	Unsup  string
	Story  []string
	Trace  []string
	Work   []uint32
	Sched  []uint32
	Env    []uint32
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

func seedOf(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix(mix(base^h.Sum64()) + uint64(i))
}

var tapes [3]*simrt.Tape

func raceReport() string {
	s := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", f[9:], os.Getpid()))
			s = string(b)
		}
	}
	if len(s) > 6000 {
		s = s[:6000] + "…"
	}
	return s
}

// execute performs one run.
func execute(prop string, seed uint64, rec *Rec, verbose bool) (r *lab.Run) {
	r = &lab.Run{Prop: prop, Seed: seed, Race: simrt.RaceMode, Verbose: verbose}
	for i := range tapes {
		if tapes[i] == nil {
			tapes[i] = simrt.NewTape(0)
		}
		tapes[i].Reset(mix(seed + uint64(i)))
	}
	if rec != nil && rec.Taped {
		tapes[0].SetReplay(rec.Work)
		tapes[1].SetReplay(rec.Sched)
		tapes[2].SetReplay(rec.Env)
	}
	r.Work, r.Sched, r.Env = tapes[0], tapes[1], tapes[2]
	races := simrt.RaceErrors()
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				r.Fail("crash", "panic outside the simulation: %v\n%s", p, st)
			}
		}()
		if lim := os.Getenv("SIM_SLOW"); lim != "" {
			t0 := time.Now()
			defer func() {
				if d := time.Since(t0); d > time.Second {
					fmt.Fprintf(os.Stderr, "slow: seed %x took %v\n", r.Seed, d)
				}
			}()
		}
		lab.Exec(r)
	}()
	if simrt.RaceErrors() > races && r.Class == "" {
		r.Fail("data-race", "%s", raceReport())
	}
	return r
}

func outOf(r *lab.Run, sites []site) *Out {
	o := &Out{Class: r.Class, Detail: r.Detail, Hash: r.Hash, Unsup: r.Unsup, Story: r.Story(), Work: tapes[0].Recorded(), Sched: tapes[1].Recorded(), Env: tapes[2].Recorded()}
	if r.Verbose {
		for _, t := range r.Trace() {
			if len(o.Trace) >= 400 {
				o.Trace = append(o.Trace, "…")
				break
			}
			at := "harness"
			if t.Site >= 0 && int(t.Site) < len(sites) {
				at = fmt.Sprintf("%s:%d (%s)", sites[t.Site].File, sites[t.Site].Line, sites[t.Site].Func)
			}
			o.Trace = append(o.Trace, fmt.Sprintf("step %d: task %d switched out, last at %s", t.Step, t.Task, at))
		}
	}
	return o
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func loadSites() []site {
	var s []site
	exe, _ := os.Executable()
	for _, p := range []string{os.Getenv("SIM_SITES"), filepath.Join(filepath.Dir(exe), "ov", "sites.json")} {
		if b, err := os.ReadFile(p); err == nil {
			json.Unmarshal(b, &s)
			break
		}
	}
	if len(s) > 0 {
		simrt.NumSites = len(s)
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim drive|work|one|replay|show|twice …")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	base := fs.Uint64("seed", envSeed(), "base seed")
	from := fs.Int("from", 0, "first run")
	n := fs.Int("n", 100, "number of runs")
	i := fs.Int("i", 0, "run")
	in := fs.String("in", "", "recorded run")
	journal := fs.String("journal", "", "journal file")
	secs := fs.Int("secs", 0, "seconds to search")
	evid := fs.String("evidence", "", "evidence file")
	dir := fs.String("dir", "", "directory for replays and scratch files")
	known := fs.String("known", "", "known findings")
	verbose := fs.Bool("v", false, "tell the story")
	fs.Parse(os.Args[2:])
	switch mode {
	case "drive":
		d := &driver{prop: *prop, tier: *tier, base: *base, secs: *secs, evid: *evid, dir: *dir, known: *known}
		os.Exit(d.run())
	case "work":
		limits()
		work(*prop, *base, *from, *n, *journal, *known)
	case "one":
		limits()
		one(*in, *verbose)
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "show":
		limits()
		sites := loadSites()
		r := execute(*prop, seedOf(*base, *prop, *i), nil, true)
		o := outOf(r, sites)
		for _, s := range o.Story {
			fmt.Println(s)
		}
		fmt.Printf("hash=%x unsup=%q class=%q\n%s\n", o.Hash, o.Unsup, o.Class, o.Detail)
	case "twice":
		limits()
		loadSites()
		bad := 0
		for k := *from; k < *from+*n; k++ {
			a := execute(*prop, seedOf(*base, *prop, k), nil, false)
			b := execute(*prop, seedOf(*base, *prop, k), nil, false)
			if a.Hash != b.Hash || a.Class != b.Class {
				bad++
				fmt.Println("differs:", k)
			}
		}
		fmt.Printf("%s: %d runs executed twice, %d differ\n", *prop, *n, bad)
		if bad > 0 {
			os.Exit(1)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(s))
		v = h.Sum64()
	}
	return v
}

// limits keeps a runaway run from harming the machine.
func limits() {
	runtime.GOMAXPROCS(2)
	if !simrt.RaceMode {
		lim := uint64(10) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetMaxStack(256 << 20)
}

// Stats is what a worker reports.
type Stats struct {
	Runs, Sims, Steps, Switches, SimTime, Ops, Checks, Unknown int64
	Strat                                                      [5]int64
	Faults                                                     map[string]int64
	Hashes                                                     []uint64 // of non-trivial runs
	Known                                                      []string
	Sites                                                      int
	Cov                                                        []byte
	Last                                                       int
	Fail                                                       *Rec
	Unsup                                                      string
	WallMS                                                     int64
}

func faultSum() int64 {
	var n int64
	for _, c := range lab.Injected {
		n += c
	}
	return n
}

func work(prop string, base uint64, from, n int, journal, known string) {
	sites := loadSites()
	start := time.Now()
	var j *os.File
	if journal != "" {
		j, _ = os.OpenFile(journal, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	}
	kn := loadKnown(known)
	st := &Stats{}
	for i := from; i < from+n; i++ {
		if j != nil {
			j.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		f0 := faultSum()
		r := execute(prop, seedOf(base, prop, i), nil, false)
		if r.Unsup != "" {
			st.Unsup = r.Unsup
			break
		}
		if faultSum() > f0 {
			st.Hashes = append(st.Hashes, r.Hash)
		}
		st.Last = i
		if r.Class != "" {
			if k := kn.match(prop, r.Class, r.Detail); k != "" {
				st.Known = append(st.Known, k)
				continue
			}
			st.Fail = &Rec{Property: prop, Class: r.Class, Detail: r.Detail, Seed: r.Seed, Index: i, Base: base, Race: simrt.RaceMode, Taped: true,
				Work: tapes[0].Recorded(), Sched: tapes[1].Recorded(), Env: tapes[2].Recorded()}
			break
		}
	}
	st.Runs, st.Sims, st.Steps, st.Switches, st.SimTime, st.Ops, st.Checks, st.Unknown = lab.Runs, lab.Sims, lab.Steps, lab.Switches, lab.SimTime, lab.Ops, lab.Checks, lab.Unknown
	st.Strat = lab.Strat
	st.Faults = lab.FaultCounts()
	st.Sites = len(sites)
	st.Cov = make([]byte, (len(sites)+7)/8)
	for i := range sites {
		if simrt.Cov[i] != 0 {
			st.Cov[i/8] |= 1 << uint(i%8)
		}
	}
	st.WallMS = time.Since(start).Milliseconds()
	json.NewEncoder(os.Stdout).Encode(st)
}

func readRec(path string) *Rec {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := new(Rec)
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

// one executes a recorded run, after its prelude.
func one(in string, verbose bool) {
	sites := loadSites()
	rec := readRec(in)
	for _, i := range rec.Prelude {
		execute(rec.Property, seedOf(rec.Base, rec.Property, i), nil, false)
	}
	r := execute(rec.Property, rec.Seed, rec, verbose)
	json.NewEncoder(os.Stdout).Encode(outOf(r, sites))
}
