package lab

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The crash world (C19): a process appends length-prefixed messages to a log on
// a simulated disk, acknowledges them once synced, and crashes anywhere; a fresh
// process reads the log, drops its torn tail and goes on.

// disk is an append-only file with a page cache.
type disk struct {
	r     *Run
	safe  []byte // survives a crash
	cache []byte // appended since; any prefix of it may survive
	full  int    // capacity left, -1: unlimited
	flaky int    // 1 in flaky writes and syncs fail
	slow  bool
}

func (d *disk) size() int { return len(d.safe) + len(d.cache) }

func (d *disk) stall() {
	simrt.Point()
	if d.slow && simrt.InSim() && d.r.Env.Chance(1, 3) {
		Inject(FStallWriter)
		simrt.Sleep(1 + int64(d.r.Env.Draw(1000)))
	}
}

// Write appends; the bytes get into the page cache little by little.
func (d *disk) Write(p []byte) (int, error) {
	env := d.r.Env
	n := len(p)
	var err error
	switch {
	case d.full >= 0 && d.size()+n > d.full:
		Inject(FFullDisk)
		n = d.full - d.size()
		if n < 0 {
			n = 0
		}
		err = ErrFull
	case d.flaky > 0 && env.Chance(1, d.flaky):
		if len(p) > 0 {
			n = env.Draw(len(p))
		}
		Inject(FWriteError)
		if n > 0 {
			Inject(FShortWrite)
		}
		err = ErrDisk
	}
	for off := 0; off < n; {
		d.stall()
		k := n - off
		if k > 1 && env.Chance(1, 2) {
			k = 1 + env.Draw(k-1)
		}
		d.cache = append(d.cache, p[off:off+k]...)
		off += k
	}
	d.stall()
	return n, err
}

// Sync makes what was appended before durable.
func (d *disk) Sync() error {
	n := d.size()
	if d.flaky > 0 && d.r.Env.Chance(1, 2*d.flaky) {
		Inject(FWriteError)
		d.flush(d.r.Env.Draw(len(d.cache) + 1))
		return ErrDisk
	}
	for {
		d.stall()
		k := n - len(d.safe)
		if k > len(d.cache) {
			k = len(d.cache) // truncated meanwhile
		}
		if k <= 0 {
			break
		}
		if k > 1 && d.r.Env.Chance(1, 2) {
			k = 1 + d.r.Env.Draw(k-1)
		}
		d.flush(k)
	}
	d.stall()
	return nil
}

func (d *disk) flush(k int) {
	if k > len(d.cache) {
		k = len(d.cache)
	}
	d.safe = append(d.safe, d.cache[:k]...)
	d.cache = d.cache[k:]
}

// truncate drops the end of the file.
func (d *disk) truncate(n int) {
	if n <= len(d.safe) {
		d.safe = d.safe[:n:n]
		d.cache = nil
	} else {
		d.cache = d.cache[: n-len(d.safe) : n-len(d.safe)]
	}
}

// crash loses what was not written back.
func (d *disk) crash() {
	k := d.r.Env.Draw(len(d.cache) + 1)
	if k > 0 && k < len(d.cache) {
		Inject(FTornTail)
	}
	d.flush(k)
	d.cache = nil
}

// logged is a message in the log.
type logged struct {
	m   *msg
	end int
}

// wal is the log with what the application knows of it.
type wal struct {
	r     *Run
	d     *disk
	in    []logged // messages in the log, in order
	next  []*msg   // messages being appended after them
	acked int      // how many were acknowledged as durable
	busy  bool
	key   byte
}

func (l *wal) lock() {
	for l.busy {
		simrt.Block(ptr(&l.key), false)
		if simrt.Dying() {
			return
		}
	}
	l.busy = true
}

func (l *wal) unlock() {
	l.busy = false
	simrt.Wake(ptr(&l.key))
}

func (l *wal) end() int {
	if n := len(l.in); n > 0 {
		return l.in[n-1].end
	}
	return 0
}

// put appends messages, in one of several ways.
func (l *wal) put(who string, c sys.Codec, ms []*msg, way int) {
	r := l.r
	var batch bytes.Buffer
	encode := func(w io.Writer, m *msg) error {
		e := &sys.Op{Kind: sys.LPWriter, Type: m.t, Val: m.v, ByPtr: m.v.CanAddr() && m.v.Kind() != reflect.Interface && r.Env.Chance(1, 2)}
		CountOp()
		var in interface{}
		if e.ByPtr {
			in = m.v.Addr().Interface()
		} else {
			in = m.v.Interface()
		}
		if way == 1 {
			bz, err := c.MarshalBinaryLengthPrefixed(in)
			if err != nil {
				return err
			}
			_, err = w.Write(bz)
			return err
		}
		n, err := c.MarshalBinaryLengthPrefixedWriter(w, in)
		if err == nil && int(n) != len(m.lp) {
			r.Fail("length", "%s: appending a %v reported %d bytes", who, m, n)
		}
		return err
	}
	if way == 2 {
		// Encoded outside of the lock, written at once.
		for _, m := range ms {
			if err := encode(&batch, m); err != nil {
				r.Fail("append", "%s: cannot encode a %v: %v", who, m, err)
				return
			}
		}
	}
	l.lock()
	if simrt.Dying() {
		return
	}
	defer l.unlock()
	start := l.d.size()
	if start != l.end() {
		r.Fail("length", "%s: the log has %d bytes but its messages end at %d", who, start, l.end())
		return
	}
	l.next = ms
	var err error
	switch way {
	case 2:
		_, err = l.d.Write(batch.Bytes())
	case 3:
		b := bufio.NewWriterSize(l.d, 16<<uint(r.Env.Draw(8)))
		for _, m := range ms {
			if err = encode(b, m); err != nil {
				break
			}
		}
		if err == nil {
			err = b.Flush()
		}
	default:
		for _, m := range ms {
			if err = encode(l.d, m); err != nil {
				break
			}
		}
	}
	if simrt.Dying() {
		return
	}
	if err != nil {
		if err != ErrFull && err != ErrDisk {
			r.Fail("append", "%s: appending gives %v", who, err)
		}
		// The application drops what may have been written.
		r.Log("%s: append fails: %v; truncate to %d", who, err, start)
		l.d.truncate(start)
		l.next = nil
		return
	}
	at := start
	for _, m := range ms {
		at += len(m.lp)
		l.in = append(l.in, logged{m, at})
		r.Log("%s: appended %v, ends at %d", who, m, at)
	}
	l.next = nil
}

// spoil tries to append what cannot be encoded: nothing may be written.
func (l *wal) spoil(who string, c sys.Codec, op *sys.Op) {
	l.lock()
	if simrt.Dying() {
		return
	}
	defer l.unlock()
	start := l.d.size()
	r := l.r
	var err error
	pan := func() (p interface{}) {
		ok := false
		defer func() {
			if !ok {
				p = recover()
			}
		}()
		CountOp()
		_, err = c.MarshalBinaryLengthPrefixedWriter(l.d, op.Val.Interface())
		ok = true
		return nil
	}()
	if simrt.Dying() {
		return
	}
	Checked()
	if err == nil && pan == nil {
		r.Fail("append", "%s: %v succeeded", who, op)
	}
	if l.d.size() != start {
		r.Fail("garbage", "%s: %v failed (%v, %v) but left %d bytes in the log", who, op, err, pan, l.d.size()-start)
	}
	l.d.truncate(start)
}

func (l *wal) sync(who string) {
	n := len(l.in)
	err := l.d.Sync()
	if simrt.Dying() {
		return
	}
	if err == nil && n > l.acked {
		l.acked = n
		l.r.Log("%s: %d messages acknowledged (%d bytes)", who, n, l.in[n-1].end)
	}
}

// recover reads the log in a fresh process.
func (l *wal) recover(who string, c sys.Codec) {
	r := l.r
	data := append([]byte(nil), l.d.safe...)
	data = append(data, l.d.cache...)
	all := append([]logged(nil), l.in...)
	at := l.end()
	for _, m := range l.next {
		at += len(m.lp)
		all = append(all, logged{m, at})
	}
	x := r.newWire()
	x.put(data)
	x.close()
	k := r.Env.Draw(allKinds)
	src := x.as(k)
	var max int64
	if r.Env.Chance(1, 2) {
		max = 1 << 22
	}
	n, pos := 0, 0
	for {
		t := l.typeOf(all, n)
		v, took, err, pan := take(c, src, t, max)
		if simrt.Dying() || r.Failed() {
			return
		}
		Checked()
		if pan != nil {
			r.Fail("panic", "%s: reading message %d of the log: panic: %v", who, n, pan)
			return
		}
		if err != nil {
			r.Log("%s: after %d messages (%d of %d bytes): %v", who, n, pos, len(data), err)
			if n < l.acked {
				r.Fail("lost", "%s: the log ends after %d messages with %v, but %d were acknowledged\n next was to be %v", who, n, err, l.acked, all[n].m)
				return
			}
			if n < len(all) && all[n].end <= len(data) {
				r.Fail("lost", "%s: the log ends after %d messages with %v, but message %d is complete: %v", who, n, err, n, all[n].m)
				return
			}
			if pos == len(data) && (err != io.EOF || took != 0) {
				r.Fail("end", "%s: the log is complete after %d messages, but ends with %v", who, n, err)
				return
			}
			if pos < len(data) && err == io.EOF && took == 0 {
				r.Fail("end", "%s: the tail after %d messages is torn (%X), but the log appears to end there", who, n, clipBytes(data[pos:], 50))
				return
			}
			break
		}
		if n >= len(all) {
			r.Fail("invented", "%s: the log has a message after all %d: %s", who, n, uni.DumpV(v.Elem()))
			return
		}
		m := all[n].m
		if got := uni.CanonV(v.Elem()); got != m.canon {
			r.Fail("altered", "%s: message %d of the log, %v\n was  %s\n read %s", who, n, m, clip(m.canon, 1000), clip(got, 1000))
			return
		}
		pos += int(took)
		if pos != all[n].end {
			r.Fail("length", "%s: after message %d of the log %d bytes were reported, not %d", who, n, pos, all[n].end)
			return
		}
		n++
	}
	r.Note(fmt.Sprint(n, pos, len(data)))
	// The application goes on after the last message that is there.
	l.in = all[:n:n]
	l.next = nil
	l.d.truncate(pos)
}

func (l *wal) typeOf(all []logged, n int) *uni.Type {
	if n < len(all) {
		return all[n].m.t
	}
	if len(all) > 0 {
		return all[len(all)-1].m.t
	}
	return uni.Get("Leaf")
}

// unencodable makes calls that must fail.
func (r *Run) unencodable(ref sys.Codec, cfg *sys.Config) []*sys.Op {
	var out []*sys.Op
	w := r.Work
	for i := w.Draw(3); i > 0; i-- {
		var op *sys.Op
		if w.Chance(1, 3) {
			t := uni.Bad[w.Draw(len(uni.Bad))]
			op = &sys.Op{Kind: sys.LPWriter, Type: t, Val: reflect.New(t.RT).Elem()}
			Inject(FBadType)
		} else {
			g := &uni.Gen{T: w, Concs: append(append([]*uni.Conc(nil), uni.Lates...), cfg.Concs()...), Modes: "EP", Rate: 1, Size: 40}
			t := uni.PickType(w, func(t *uni.Type) bool { return t.Bin && (t.User || t.Iface) })
			op = &sys.Op{Kind: sys.LPWriter, Type: t, Val: g.Value(t.RT)}
		}
		if op.Run(ref, nil, sys.PlainIO{}).Class != "ok" {
			out = append(out, op)
		}
	}
	return out
}

func crashWorld(r *Run) {
	w := r.Work
	cfg := r.newCfg()
	ref := cfg.Apply(sys.Ref())
	// Messages: usually all of one type.
	var only *uni.Type
	if dyn := r.dynTypes(); len(dyn) > 0 && w.Chance(1, 2) {
		only = dyn[0]
	} else if w.Chance(2, 3) {
		only = uni.PickType(w, func(t *uni.Type) bool { return t.Bin && t.Name != "Shape" })
	}
	var pool []*msg
	for i := 2 + w.Draw(5); i > 0; i-- {
		var m *msg
		if only != nil && !w.Chance(1, 10) {
			g := &uni.Gen{T: w, Concs: cfg.Concs(), Modes: "Y", Rate: 4, Size: []int{15, 4, 50}[w.Pick(5, 3, 1)]}
			m = r.msgOf(ref, only, g.Value(only.RT))
		} else {
			m = r.message(cfg, ref, true)
		}
		if m != nil {
			pool = append(pool, m)
		}
	}
	if len(pool) == 0 {
		return
	}
	d := &disk{r: r, full: -1, slow: w.Chance(1, 2)}
	if w.Chance(1, 3) {
		d.flaky = 3 + w.Draw(10)
	}
	if w.Chance(1, 5) {
		d.full = w.Draw(2000)
	}
	l := &wal{r: r, d: d}
	type step struct {
		ms   []*msg
		way  int
		sync bool
		bad  *sys.Op
	}
	bad := r.unencodable(ref, cfg)
	lives := 2 + w.Draw(3)
	var plans [][][]step
	for i := 0; i < lives; i++ {
		var tasks [][]step
		for t := 1 + w.Draw(3); t > 0; t-- {
			var steps []step
			for k := 1 + w.Draw(4); k > 0; k-- {
				s := step{way: w.Draw(4), sync: w.Chance(1, 2)}
				for n := 1 + w.Pick(5, 2, 1)*w.Draw(4); n > 0; n-- {
					s.ms = append(s.ms, pool[w.Draw(len(pool))])
				}
				if len(bad) > 0 && w.Chance(1, 4) {
					s.bad = bad[w.Draw(len(bad))]
				}
				steps = append(steps, s)
			}
			tasks = append(tasks, steps)
		}
		plans = append(plans, tasks)
	}
	when := []int{1000, 6000, 40000}[w.Draw(3)]
	r.Extra += 2 * Budget
	r.Sim(func(s *simrt.Sim) {
		r.Spawn(s, "machine", 0, func(*simrt.Task) {
			for i := 0; i < lives && !r.Failed(); i++ {
				cf := cfg.Shuffle(r.Env)
				group := 1 + i
				var done byte
				left := len(plans[i])
				who := fmt.Sprintf("process%d", i)
				life := i
				r.Spawn(s, who, group, func(*simrt.Task) {
					c := cf.Apply(sys.New())
					l.recover(who, c)
					if r.Failed() {
						left = 0
						simrt.Wake(ptr(&done))
						return
					}
					for k, steps := range plans[life] {
						steps := steps
						name := fmt.Sprintf("%s.%d", who, k)
						r.Spawn(s, name, group, func(*simrt.Task) {
							for _, st := range steps {
								if r.Failed() {
									break
								}
								if st.bad != nil {
									l.spoil(name, c, st.bad)
								}
								l.put(name, c, st.ms, st.way)
								if st.sync {
									l.sync(name)
								}
							}
							left--
							if left <= 0 {
								simrt.Wake(ptr(&done))
							}
						})
					}
				})
				// The process runs until it is done, or crashes after some steps.
				crashed := false
				if life < lives-1 || r.Env.Chance(1, 2) {
					steps := int64(1 + r.Env.Draw(when))
					crashed = simrt.SleepSteps(1<<40, steps)
				} else {
					for left > 0 {
						simrt.Block(ptr(&done), false)
					}
				}
				s.Kill(group)
				if crashed {
					Inject(FCrash)
					r.Log("crash of %s", who)
				} else {
					r.Log("end of %s", who)
				}
				l.busy = false
				before := d.size()
				d.crash()
				r.Log("the disk keeps %d of %d bytes", d.size(), before)
				Inject(FRestart)
				d.flaky = 0
				d.full = -1
				if r.Env.Chance(1, 3) {
					d.flaky = 3 + r.Env.Draw(10)
				}
			}
			if r.Failed() {
				return
			}
			d.flaky = 0
			l.recover("the last process", cfg.Shuffle(r.Env).Apply(sys.New()))
		})
	})
}

func init() { world("C19", crashWorld) }
