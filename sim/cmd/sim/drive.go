package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"amsim/lab"
	"amsim/simrt"
)

//---------------------------------------- known findings

type knownT struct{ prop, class, match, text string }
type knowns []knownT

// loadKnown reads lines of the form
//
//	known: property=C01 class=wrong-result match="text" what fails
func loadKnown(path string) (ks knowns) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownT
		rest := l[7:]
		for _, f := range []struct {
			key string
			to  *string
		}{{"property=", &k.prop}, {"class=", &k.class}} {
			if !strings.HasPrefix(rest, f.key) {
				continue
			}
			rest = rest[len(f.key):]
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				i = len(rest)
			}
			*f.to = rest[:i]
			rest = strings.TrimPrefix(rest[i:], " ")
		}
		if strings.HasPrefix(rest, "match=") {
			q, err := strconv.QuotedPrefix(rest[6:])
			if err == nil {
				k.match, _ = strconv.Unquote(q)
				rest = strings.TrimSpace(rest[6+len(q):])
			}
		}
		k.text = rest
		if k.prop != "" && k.class != "" && k.match != "" {
			ks = append(ks, k)
		}
	}
	return
}

func (ks knowns) match(prop, class, detail string) string {
	for _, k := range ks {
		if k.prop == prop && k.class == class && strings.Contains(detail, k.match) {
			return k.text
		}
	}
	return ""
}

//---------------------------------------- the search

type driver struct {
	prop, tier      string
	base            uint64
	secs            int
	evid, dir       string
	known           string
	exe             string
	start           time.Time
	mu              sync.Mutex
	next            int
	stop            bool
	tot             Stats
	hashes          map[uint64]struct{}
	cov             []byte
	fail            *Rec
	failNote        string
	crash           *Rec
	unrepro         int
	lost            int // processes lost to the machine
	batch           int
	runWall         int64
	sampleRec       []string
	det, detBad     int
	knownSeen       map[string]bool
	harness         string
	violation       bool
	pending         []int
	minimiseTries   int
	repro           string
	raceTmp         string
	lastClassDetail string
}

func (d *driver) run() int {
	d.start = time.Now()
	d.exe, _ = os.Executable()
	d.hashes = map[uint64]struct{}{}
	d.knownSeen = map[string]bool{}
	if d.dir == "" {
		d.dir = os.TempDir()
	}
	os.MkdirAll(d.dir, 0o755)
	if _, ok := lab.Worlds[d.prop]; !ok {
		fmt.Fprintf(os.Stderr, "no such property %q\n", d.prop)
		return 2
	}
	if d.secs == 0 {
		d.secs = 30
		if d.tier == "thorough" {
			d.secs = 600
		}
		if s := os.Getenv("SIM_SECS"); s != "" {
			d.secs, _ = strconv.Atoi(s)
		}
	}
	d.batch = 200
	if simrt.RaceMode {
		d.batch = 40
	}
	scratch, err := os.MkdirTemp(d.dir, "scratch")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	d.raceTmp = scratch
	ks := loadKnown(d.known)
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	deadline := d.start.Add(time.Duration(d.secs) * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				d.mu.Lock()
				if d.stop || time.Now().After(deadline) {
					d.mu.Unlock()
					return
				}
				from := d.next
				n := d.batch
				if from == 0 || d.next < workers*20 {
					n = 20 // short first batches, so that shallow failures surface at once
				}
				d.next += n
				d.mu.Unlock()
				d.worker(w, from, n, deadline)
			}
		}(w)
	}
	wg.Wait()
	code := 0
	if d.harness != "" {
		fmt.Fprintln(os.Stderr, "harness error:", d.harness)
		code = 2
	} else if d.fail != nil {
		path := d.report(d.fail)
		if path != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
			fmt.Printf("class: %s\n%s\n", d.fail.Class, clip(d.fail.Detail, 3000))
			d.violation = true
			code = 1
		} else {
			fmt.Fprintf(os.Stderr, "a failure could not be reproduced (%s: %s)\n", d.fail.Class, clip(d.fail.Detail, 1000))
			code = 2
		}
	} else {
		d.determinism()
		d.samples()
	}
	for _, k := range ks {
		if k.prop == d.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.text)
		}
	}
	if code != 2 {
		d.evidence()
	}
	if code == 0 {
		fmt.Printf("%s held: %d runs, %d distinct non-trivial, %d operations, %.1f s\n", d.prop, d.tot.Runs, len(d.hashes), d.tot.Ops, time.Since(d.start).Seconds())
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (d *driver) env() []string {
	e := os.Environ()
	if simrt.RaceMode {
		e = append(e, "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path="+filepath.Join(d.raceTmp, "race"))
	}
	return e
}

// sub executes this program again.
func (d *driver) sub(timeout time.Duration, args ...string) (out, errs []byte, err error) {
	cmd := exec.Command(d.exe, args...)
	cmd.Env = d.env()
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err = cmd.Start(); err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		err = errTimeout
	}
	return o.Bytes(), e.Bytes(), err
}

var errTimeout = fmt.Errorf("timed out")

func (d *driver) worker(w, from, n int, deadline time.Time) {
	j := filepath.Join(d.raceTmp, fmt.Sprintf("journal%d", w))
	type res struct {
		out, errs []byte
		err       error
	}
	ch := make(chan res, 1)
	cmd := exec.Command(d.exe, "work", "-prop", d.prop, "-seed", fmt.Sprint(d.base), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n), "-journal", j, "-known", d.known)
	cmd.Env = d.env()
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	os.Remove(j)
	if err := cmd.Start(); err != nil {
		d.mu.Lock()
		d.harness = err.Error()
		d.stop = true
		d.mu.Unlock()
		return
	}
	go func() {
		err := cmd.Wait()
		ch <- res{o.Bytes(), e.Bytes(), err}
	}()
	var r res
	last, since := "", time.Now()
	hung := false
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case r = <-ch:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(j)
			if s := string(b); s != last {
				last, since = s, time.Now()
			}
			d.mu.Lock()
			stopped := d.stop
			d.mu.Unlock()
			if stopped {
				cmd.Process.Kill()
				<-ch
				return
			}
			if time.Since(since) > hangLimit {
				if hung {
					cmd.Process.Kill()
				} else {
					cmd.Process.Signal(syscall.SIGQUIT) // it says where it is
				}
				hung = true
				since = time.Now().Add(5*time.Second - hangLimit)
			}
		}
	}
	st := new(Stats)
	if r.err == nil && json.Unmarshal(r.out, st) == nil {
		d.merge(st, from)
		return
	}
	// The process died: which run was it?
	b, _ := os.ReadFile(j)
	i, err := strconv.Atoi(strings.TrimSpace(string(b)))
	why := "process died: " + clip(firstLines(string(r.errs), 30), 2500)
	class := "process-death"
	if hung {
		class = "hang"
		why = "no progress outside the simulator's control"
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.stop {
		return
	}
	if err != nil {
		if d.fail == nil {
			d.harness = "worker failed before its first run: " + why
			d.stop = true
		}
		return
	}
	rec := &Rec{Property: d.prop, Class: class, Detail: why, Seed: seedOf(d.base, d.prop, i), Index: i, Base: d.base, Race: simrt.RaceMode}
	for k := from; k < i; k++ {
		rec.Prelude = append(rec.Prelude, k)
	}
	// A process that was starved or ended by the machine is no finding, and what
	// the code does every time it does again.
	d.mu.Unlock()
	alone := *rec
	alone.Prelude = nil
	again := false
	for _, c := range []*Rec{&alone, rec, &alone, rec} {
		if o := d.try(c, fmt.Sprintf("again%d", w), false); o != nil && o.Class != "" {
			again = true
			break
		}
	}
	d.mu.Lock()
	if !again && d.lost < maxLost {
		d.lost++
		fmt.Fprintf(os.Stderr, "run %d: %s, but not again: %s\n", i, class, clip(firstLines(string(r.errs), 60), 6000))
		if rest := from + n - i - 1; rest > 0 {
			d.mu.Unlock()
			d.worker(w, i+1, rest, deadline)
			d.mu.Lock()
		}
		return
	}
	d.offer(rec)
}

// maxLost is how many processes may be lost to the machine.
const maxLost = 4

const hangLimit = 40 * time.Second

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// offer keeps the failure with the lowest index. Called with d.mu held.
func (d *driver) offer(rec *Rec) {
	if d.fail == nil || rec.Index < d.fail.Index {
		d.fail = rec
	}
	d.stop = true
}

func (d *driver) merge(st *Stats, from int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	t := &d.tot
	t.Runs += st.Runs
	t.Sims += st.Sims
	t.Steps += st.Steps
	t.Switches += st.Switches
	t.SimTime += st.SimTime
	t.Ops += st.Ops
	t.Checks += st.Checks
	t.Unknown += st.Unknown
	t.Sites = st.Sites
	t.WallMS += st.WallMS
	for i := range t.Strat {
		t.Strat[i] += st.Strat[i]
	}
	if t.Faults == nil {
		t.Faults = map[string]int64{}
	}
	for k, v := range st.Faults {
		t.Faults[k] += v
	}
	for _, h := range st.Hashes {
		d.hashes[h] = struct{}{}
	}
	if d.cov == nil {
		d.cov = make([]byte, len(st.Cov))
	}
	for i := range st.Cov {
		d.cov[i] |= st.Cov[i]
	}
	for _, k := range st.Known {
		d.knownSeen[k] = true
	}
	if st.Unsup != "" {
		d.harness = "the tree uses something the simulator does not model: " + st.Unsup
		d.stop = true
	}
	if st.Fail != nil {
		for k := from; k < st.Fail.Index; k++ {
			st.Fail.Prelude = append(st.Fail.Prelude, k)
		}
		d.offer(st.Fail)
	}
}

// try executes a recorded run in a fresh process.
func (d *driver) try(rec *Rec, name string, verbose bool) *Out {
	f := filepath.Join(d.raceTmp, name+".json")
	b, _ := json.Marshal(rec)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil
	}
	args := []string{"one", "-in", f}
	if verbose {
		args = append(args, "-v")
	}
	limit := hangLimit
	if len(rec.Prelude) > 0 {
		limit = 3 * hangLimit
	}
	out, errs, err := d.sub(limit, args...)
	o := new(Out)
	if err == nil && json.Unmarshal(out, o) == nil {
		return o
	}
	o.Class = "process-death"
	o.Detail = "process died: " + clip(firstLines(string(errs), 30), 2500)
	if err == errTimeout {
		o.Class, o.Detail = "hang", "no progress outside the simulator's control"
	}
	return o
}

// report confirms, minimises and writes down a failure.
func (d *driver) report(rec *Rec) string {
	orig := *rec
	confirm := func(c *Rec, n int) bool {
		for i := 0; i < n; i++ {
			if o := d.try(c, "confirm", false); o != nil && o.Class == c.Class {
				c.Detail = o.Detail
				return true
			}
		}
		return false
	}
	alone := *rec
	alone.Prelude = nil
	switch {
	case confirm(&alone, 2):
		*rec = alone
	case len(orig.Prelude) > 0 && confirm(rec, 2):
		d.shrinkPrelude(rec)
	case confirm(&alone, 10):
		*rec = alone
	default:
		return ""
	}
	budget := 40 * time.Second
	if d.tier == "thorough" {
		budget = 180 * time.Second
	}
	if rec.Class != "hang" && rec.Taped {
		d.minimise(rec, time.Now().Add(budget))
	}
	if o := d.try(rec, "final", true); o != nil {
		rec.Story, rec.Schedule = o.Story, o.Trace
		if o.Class == rec.Class {
			rec.Detail = o.Detail
		}
	}
	rec.Note = fmt.Sprintf("found by run %d of base seed %d; choices: %d work, %d schedule, %d environment; %d candidates tried while minimising; reproduce with: bash run.sh replay FILE", rec.Index, rec.Base, len(rec.Work), len(rec.Sched), len(rec.Env), d.minimiseTries)
	dir := filepath.Join(d.dir, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", rec.Property, rec.Class, rec.Index))
	b, _ := json.MarshalIndent(rec, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

func (d *driver) shrinkPrelude(rec *Rec) {
	end := time.Now().Add(20 * time.Second)
	for n := len(rec.Prelude); n >= 1 && time.Now().Before(end); n /= 2 {
		for i := 0; i < len(rec.Prelude) && time.Now().Before(end); {
			c := *rec
			j := i + n
			if j > len(rec.Prelude) {
				j = len(rec.Prelude)
			}
			c.Prelude = append(append([]int(nil), rec.Prelude[:i]...), rec.Prelude[j:]...)
			if o := d.try(&c, "prelude", false); o != nil && o.Class == c.Class {
				rec.Prelude = c.Prelude
			} else {
				i += n
			}
		}
	}
}

// minimise shrinks the tapes while the failure stays of its class.
func (d *driver) minimise(rec *Rec, end time.Time) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	get := func(c *Rec, k int) *[]uint32 { return []*[]uint32{&c.Work, &c.Sched, &c.Env}[k] }
	clone := func() *Rec {
		c := *rec
		return &c
	}
	// attempt evaluates candidates side by side and adopts the first that fails.
	attempt := func(cs []*Rec) bool {
		if len(cs) == 0 || time.Now().After(end) {
			return false
		}
		ok := make([]*Out, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if o := d.try(cs[i], fmt.Sprintf("min%d", i), false); o != nil && o.Class == rec.Class {
					ok[i] = o
				}
			}(i)
		}
		wg.Wait()
		d.minimiseTries += len(cs)
		for i, o := range ok {
			if o != nil {
				if o.Work != nil || o.Sched != nil || o.Env != nil {
					// What was actually drawn: drops unused choices.
					cs[i].Work, cs[i].Sched, cs[i].Env = shorter(cs[i].Work, o.Work), shorter(cs[i].Sched, o.Sched), shorter(cs[i].Env, o.Env)
				}
				cs[i].Detail = o.Detail
				*rec = *cs[i]
				return true
			}
		}
		return false
	}
	order := []int{1, 2, 0}
	for round := 0; round < 6; round++ {
		changed := false
		for _, k := range order {
			// Whole tape, then ever smaller blocks: cut, or set to the plain choice.
			for size := len(*get(rec, k)); size >= 1; size /= 2 {
				for off := 0; off < len(*get(rec, k)); {
					if time.Now().After(end) {
						return
					}
					var cs []*Rec
					o2 := off
					for len(cs) < workers && o2 < len(*get(rec, k)) {
						t := *get(rec, k)
						hi := o2 + size
						if hi > len(t) {
							hi = len(t)
						}
						if !allZero(t[o2:hi]) {
							c := clone()
							z := append([]uint32(nil), t...)
							for x := o2; x < hi; x++ {
								z[x] = 0
							}
							*get(c, k) = trim(z)
							cs = append(cs, c)
						}
						c := clone()
						*get(c, k) = append(append([]uint32(nil), t[:o2]...), t[hi:]...)
						cs = append(cs, c)
						o2 = hi
					}
					if attempt(cs) {
						changed = true
					} else {
						off = o2
					}
				}
			}
			// Lower single choices.
			if len(*get(rec, k)) <= 400 {
				for off := 0; off < len(*get(rec, k)); off++ {
					v := (*get(rec, k))[off]
					if v < 2 || time.Now().After(end) {
						continue
					}
					var cs []*Rec
					for _, nv := range []uint32{1, v / 2, v - 1} {
						c := clone()
						z := append([]uint32(nil), *get(rec, k)...)
						z[off] = nv
						*get(c, k) = z
						cs = append(cs, c)
					}
					if attempt(cs) {
						changed = true
					}
				}
			}
		}
		if !changed {
			return
		}
	}
}

func shorter(a, b []uint32) []uint32 {
	if len(b) < len(a) {
		return b
	}
	return a
}

func allZero(t []uint32) bool {
	for _, x := range t {
		if x != 0 {
			return false
		}
	}
	return true
}

func trim(t []uint32) []uint32 {
	for len(t) > 0 && t[len(t)-1] == 0 {
		t = t[:len(t)-1]
	}
	return t
}

//---------------------------------------- after the search

// determinism executes some runs again in fresh processes and compares.
func (d *driver) determinism() {
	n := 40
	var outs [2][]byte
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o, _, err := d.sub(2*time.Minute, "work", "-prop", d.prop, "-seed", fmt.Sprint(d.base), "-from", "0", "-n", fmt.Sprint(n))
			if err == nil {
				var st Stats
				if json.Unmarshal(o, &st) == nil {
					outs[i], _ = json.Marshal(st.Hashes)
				}
			}
		}(i)
	}
	wg.Wait()
	var a, b []uint64
	json.Unmarshal(outs[0], &a)
	json.Unmarshal(outs[1], &b)
	d.det = len(a)
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			d.detBad++
		}
	}
}

func (d *driver) samples() {
	for i := 0; i < 2; i++ {
		rec := &Rec{Property: d.prop, Seed: seedOf(d.base, d.prop, i), Index: i, Base: d.base}
		o := d.try(rec, "sample", true)
		if o == nil {
			continue
		}
		s := fmt.Sprintf("run %d, seed %#x: %s", i, rec.Seed, strings.Join(o.Story, " / "))
		d.sampleRec = append(d.sampleRec, clip(s, 3000))
	}
}

func (d *driver) evidence() {
	if d.evid == "" {
		return
	}
	wall := time.Since(d.start).Seconds()
	search := float64(d.tot.WallMS) / 1000
	covered := 0
	for _, b := range d.cov {
		for ; b != 0; b &= b - 1 {
			covered++
		}
	}
	strat := map[string]int64{}
	for i, n := range simrt.Strategies {
		strat[n] = d.tot.Strat[i]
	}
	samples := d.sampleRec
	if d.fail != nil {
		samples = append(samples, clip(fmt.Sprintf("violation, run %d: %s: %s", d.fail.Index, d.fail.Class, d.fail.Detail), 3000))
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	var ks []string
	for k := range d.knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	real, stub := lab.Components(d.prop)
	viol := 0
	if d.violation {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": d.prop,
		"tier":     d.tier,
		"seed":     int64(d.base & 0x7FFFFFFFFFFFFFFF),
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":              d.tot.Runs,
			"distinct_nontrivial":      len(d.hashes),
			"rule":                     "a run is drawn from (VERIF_SEED, property, index); it is non-trivial if at least one task switch or fault happened in it, and two runs are distinct if the hash of their sequence of task switches (task, scheduling point) and observed results differs",
			"samples":                  samples,
			"simulated_runs_per_hour":  int64(float64(d.tot.Runs) / wall * 3600),
			"seeds_used":               d.tot.Runs,
			"simulations":              d.tot.Sims,
			"simulated_time_s":         float64(d.tot.SimTime) / 1e9,
			"scheduler_steps":          d.tot.Steps,
			"task_switches":            d.tot.Switches,
			"runs_by_strategy":         strat,
			"faults_injected":          d.tot.Faults,
			"operations":               d.tot.Ops,
			"oracle_comparisons":       d.tot.Checks,
			"histories_not_decided":    d.tot.Unknown,
			"scheduling_points":        d.tot.Sites,
			"scheduling_points_passed": covered,
			"worker_cpu_s":             search,
			"determinism_recheck":      map[string]int{"runs_executed_twice": d.det, "differing": d.detBad},
			"components_real":          real,
			"components_stubbed":       stub,
			"known_findings_seen":      ks,
			"race_detector":            simrt.RaceMode,
		},
		"assumptions": lab.Assumptions(d.prop),
		"wall_s":      wall,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(d.evid), 0o755)
	if err := os.WriteFile(d.evid, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replay executes a replay file and reports.
func replay(path string) int {
	rec := readRec(path)
	if rec.Race != simrt.RaceMode {
		fmt.Fprintf(os.Stderr, "this replay needs the build with race=%v\n", rec.Race)
		return 2
	}
	dir, err := os.MkdirTemp("", "simreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	d := &driver{prop: rec.Property, raceTmp: dir, exe: exe}
	o := d.try(rec, "replay", true)
	for _, s := range o.Story {
		fmt.Println(s)
	}
	for _, s := range o.Trace {
		fmt.Println(s)
	}
	if o.Class == "" {
		fmt.Printf("the recorded violation (%s) does not occur on this tree\n", rec.Class)
		return 0
	}
	if o.Class != rec.Class {
		fmt.Printf("another violation occurs: recorded %s, now %s\n", rec.Class, o.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\nclass: %s\n%s\n", rec.Property, path, o.Class, o.Detail)
	return 1
}
