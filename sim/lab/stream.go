package lab

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"unsafe"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"

	perrors "github.com/pkg/errors"
)

// is tells whether an error is, or was caused by, a given one.
func is(err, target error) bool {
	return errors.Is(err, target) || perrors.Cause(err) == target
}

// stream is one stream of messages and how it is read.
type stream struct {
	id    int
	x     *wire
	src   source
	kind  int
	msgs  []*msg
	lock  bool // the sender waits for each message to be taken
	trail []byte
	acked int
	ack   byte
	max   func(i int) int64
}

func (s *stream) ackUp() { s.acked++; simrt.Wake(unsafe.Pointer(&s.ack)) }

// sink is the writer a sender writes through.
type sink struct {
	x     *wire
	calls int
	split bool
}

func (k *sink) Write(p []byte) (int, error) {
	simrt.Point()
	k.calls++
	env := k.x.r.Env
	q := append([]byte(nil), p...)
	for len(q) > 0 {
		n := len(q)
		if k.split && n > 1 && env.Chance(1, 2) {
			n = 1 + env.Draw(n-1)
		}
		k.x.put(q[:n])
		q = q[n:]
		if len(q) > 0 {
			Inject(FDelay)
			simrt.Sleep(1 + int64(env.Draw(1000)))
		}
	}
	return len(p), nil
}

// limit picks a size limit no smaller than the message.
func (r *Run) limit(m *msg) int64 {
	n := int64(len(m.lp))
	switch r.Work.Draw(5) {
	case 0:
		return n
	case 1:
		return n + int64(r.Work.Draw(10))
	case 2:
		return 1 << 22
	case 3:
		return 1<<63 - 1
	}
	return 0
}

// healthyWorld: C07.
func healthyWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	ref := cfg.Apply(sys.Ref())
	from := cfg.Apply(sys.New())
	to := from
	if w.Chance(2, 3) {
		to = cfg.Shuffle(w).Apply(sys.New())
	}
	var ss []*stream
	n := 1 + w.Draw(3)
	for i := 0; i < n; i++ {
		s := &stream{id: i, x: r.newWire()}
		k := w.Draw(6)
		for j := 0; j < k; j++ {
			s.msgs = append(s.msgs, r.message(cfg, ref, true))
		}
		if w.Chance(1, 4) {
			s.trail = w.Bytes(1 + w.Draw(20))
		}
		s.kind = w.Draw(allKinds)
		if s.kind < liveKinds {
			s.src = s.x.as(s.kind)
			s.lock = w.Chance(1, 2)
		} else {
			for _, m := range s.msgs {
				s.x.buf = append(s.x.buf, m.lp...)
			}
			s.x.buf = append(s.x.buf, s.trail...)
			s.x.closed = true
			s.src = s.x.as(s.kind)
		}
		ss = append(ss, s)
		r.Log("stream %d: %v, %s, lock-step %v, %d trailing bytes", i, s.msgs, s.src.kind, s.lock, len(s.trail))
	}
	r.Sim(func(sim *simrt.Sim) {
		for _, s := range ss {
			s := s
			if s.kind < liveKinds {
				raw := w.Chance(1, 3)
				slow := w.Chance(1, 2)
				split := w.Chance(1, 2)
				r.Spawn(sim, fmt.Sprintf("sender%d", s.id), 0, func(t *simrt.Task) {
					k := &sink{x: s.x, split: split}
					for i, m := range s.msgs {
						for s.lock && s.acked < i {
							simrt.Block(unsafe.Pointer(&s.ack), false)
							if simrt.Dying() {
								return
							}
						}
						if slow {
							simrt.Sleep(1 + int64(r.Env.Draw(100000)))
						}
						if raw {
							k.Write(m.lp)
							continue
						}
						in := m.v.Interface()
						CountOp()
						n, err := from.MarshalBinaryLengthPrefixedWriter(k, in)
						if err != nil || n != int64(len(m.lp)) {
							r.Fail("send", "writing %v to a healthy stream: n=%d err=%v", m, n, err)
						}
					}
					if s.lock {
						for s.acked < len(s.msgs) {
							simrt.Block(unsafe.Pointer(&s.ack), false)
							if simrt.Dying() {
								return
							}
						}
					}
					s.x.put(s.trail)
					s.x.close()
				})
			}
			var maxes []int64
			for _, m := range s.msgs {
				maxes = append(maxes, r.limit(m))
			}
			r.Spawn(sim, fmt.Sprintf("receiver%d", s.id), 0, func(t *simrt.Task) {
				at := 0
				for i, m := range s.msgs {
					v, n, err, pan := take(to, s.src, m.t, maxes[i])
					if simrt.Dying() {
						return
					}
					at += len(m.lp)
					if !r.received(s, i, m, v, n, err, pan, at) {
						return
					}
					s.ackUp()
				}
				if len(s.trail) > 0 {
					rest := make([]byte, len(s.trail))
					Checked()
					if n, err := io.ReadFull(s.src.Reader, rest); err != nil || !bytes.Equal(rest, s.trail) {
						r.Fail("trailing", "stream %d: after its messages were %X, found %X (%d bytes, %v)", s.id, s.trail, rest, n, err)
					}
					return
				}
				for k := 0; k < 2; k++ {
					v, n, err, pan := take(to, s.src, uni.Get("Leaf"), []int64{0, 1, 100}[k])
					if simrt.Dying() {
						return
					}
					Checked()
					if pan != nil || n != 0 || err != io.EOF {
						r.Fail("end", "stream %d: at the end of the stream: %v n=%d err=%v panic=%v", s.id, v, n, err, pan)
						return
					}
				}
			})
		}
	})
}

// received checks one message taken from a healthy stream.
func (r *Run) received(s *stream, i int, m *msg, v reflect.Value, n int64, err error, pan interface{}, at int) bool {
	Checked()
	switch {
	case pan != nil:
		r.Fail("panic", "stream %d (%s): reading message %d, %v: panic %v", s.id, s.src.kind, i, m, pan)
	case err != nil:
		r.Fail("lost", "stream %d (%s): reading message %d, %v: %v (n=%d)", s.id, s.src.kind, i, m, err, n)
	case n != int64(len(m.lp)):
		r.Fail("count", "stream %d (%s): message %d, %v: reported %d bytes", s.id, s.src.kind, i, m, n)
	case s.src.taken() != at:
		r.Fail("consumed", "stream %d (%s): after message %d, %v: %d bytes were taken instead of %d", s.id, s.src.kind, i, m, s.src.taken(), at)
	default:
		if c := uni.CanonV(v.Elem()); c != m.canon {
			r.Fail("value", "stream %d (%s): message %d, %v\n sent     %s\n received %s", s.id, s.src.kind, i, m, clip(m.canon, 800), clip(c, 800))
		}
	}
	r.Note(fmt.Sprint(n))
	return !r.Failed()
}

// cutWorld: C08.
func cutWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	ref := cfg.Apply(sys.Ref())
	c := cfg.Apply(sys.New())
	type cut struct {
		*stream
		at    int
		fails bool
		maxes []int64
		mem   bool
		mode  int
	}
	var cs []*cut
	n := 1 + w.Draw(3)
	for i := 0; i < n; i++ {
		s := &cut{stream: &stream{id: i, x: r.newWire()}}
		total := 0
		k := 1 + w.Draw(4)
		var bounds []int
		for j := 0; j < k; j++ {
			m := r.message(cfg, ref, true)
			s.msgs = append(s.msgs, m)
			s.maxes = append(s.maxes, r.limit(m))
			bounds = append(bounds, total)
			total += len(m.lp)
		}
		b := bounds[w.Draw(len(bounds))]
		switch w.Draw(4) {
		case 0: // at a boundary
			s.at = b
		case 1: // in or right after a prefix
			s.at = b + 1 + w.Draw(3)
		case 2: // right before the end of a message
			s.at = b - 1 - w.Draw(2)
		default:
			s.at = w.Draw(total)
		}
		if s.at < 0 {
			s.at = 0
		}
		if s.at >= total {
			s.at = total - 1
		}
		s.fails = w.Chance(1, 2)
		var all []byte
		for _, m := range s.msgs {
			all = append(all, m.lp...)
		}
		kind := w.Draw(liveKinds)
		if s.fails {
			s.x.failAt = s.at
			s.x.err = []error{ErrDisk, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", ErrDisk), io.ErrNoProgress, r.netError()}[w.Pick(4, 1, 1, 1, 1, 2)]
			s.x.transient = w.Chance(1, 2)
			s.x.errWith = w.Chance(1, 3)
			s.x.buf = all
			s.x.closed = true
		} else {
			Inject(FStreamCut)
			s.x.buf = all[:s.at]
			s.x.closed = true
			kind = w.Draw(allKinds)
		}
		s.mem = !s.fails && w.Chance(1, 8)
		s.mode = w.Draw(3)
		s.src = s.x.as(kind)
		if kind == 3 && s.fails {
			// bufio reports an error of its reader once and reads ahead.
			s.x.transient = false
		}
		cs = append(cs, s)
		r.Log("stream %d: %v, %s, cut at %d, fails %v (%v) transient %v with-data %v", i, s.msgs, s.src.kind, s.at, s.fails, s.x.err, s.x.transient, s.x.errWith)
	}
	r.Sim(func(sim *simrt.Sim) {
		for _, s := range cs {
			s := s
			r.Spawn(sim, fmt.Sprintf("receiver%d", s.id), 0, func(t *simrt.Task) {
				pos := 0
				retried := 0
				for i := 0; i < len(s.msgs); i++ {
					m := s.msgs[i]
					before := s.src.taken()
					fired := s.x.fired
					v, n, err, pan := take(c, s.src, m.t, s.maxes[i])
					if simrt.Dying() {
						return
					}
					Checked()
					r.Note(fmt.Sprintf("%d %v", n, err))
					pos += len(m.lp)
					if pos <= s.at && !(s.x.fired && !fired && err != nil) {
						// Before the cut.
						if !r.received(s.stream, i, m, v, n, err, pan, pos) {
							return
						}
						continue
					}
					if pan != nil {
						r.Fail("panic", "stream %d (%s): reading message %d, %v, cut after %d of its bytes: panic %v", s.id, s.src.kind, i, m, s.at-pos+len(m.lp), pan)
						return
					}
					if s.x.transient && fired && s.x.off >= pos || s.x.transient && s.x.fired && err == nil {
						// The failure came with the last byte needed, or was before.
						if !r.received(s.stream, i, m, v, n, err, pan, pos) {
							return
						}
						continue
					}
					if err == nil {
						r.Fail("cut-accepted", "stream %d (%s): message %d, %v, cut after %d of its bytes, was read as %s (n=%d)", s.id, s.src.kind, i, m, s.at-pos+len(m.lp), clip(uni.DumpV(v.Elem()), 500), n)
						return
					}
					if s.fails && s.x.fired && !is(err, s.x.err) {
						r.Fail("error-lost", "stream %d (%s): message %d: the reader failed with %v, the call with %v", s.id, s.src.kind, i, s.x.err, err)
						return
					}
					took := s.src.taken() - before
					if !s.fails && took > 0 && n == 0 && err == io.EOF {
						r.Fail("cut-as-end", "stream %d (%s): message %d, %v, cut after %d bytes looks like a clean end", s.id, s.src.kind, i, m, took)
						return
					}
					if !s.fails && took == 0 && (n != 0 || err != io.EOF) {
						r.Fail("end", "stream %d (%s): at the end of the stream: n=%d err=%v", s.id, s.src.kind, n, err)
						return
					}
					if s.fails && s.x.transient && took == 0 && retried == 0 {
						retried++
						pos -= len(m.lp)
						i--
						continue
					}
					return
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	// The same cut in memory.
	for _, s := range cs {
		m := s.msgs[w.Draw(len(s.msgs))]
		b := m.lp[:w.Draw(len(m.lp))]
		o := &sys.Op{Kind: sys.ULP, Type: m.t, Data: b}
		got := call(o, c, sys.PlainIO{})
		Checked()
		if got.Class != "err" {
			r.Fail("cut-accepted", "%v, %d of %d bytes of a message: %v", o, len(b), len(m.lp), got)
		}
	}
}

var memStats runtime.MemStats

// allocated is the number of bytes ever allocated.
func allocated() uint64 {
	runtime.ReadMemStats(&memStats)
	return memStats.TotalAlloc
}

// limitWorld: C09.
func limitWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	ref := cfg.Apply(sys.Ref())
	c := cfg.Apply(sys.New())
	type probe struct {
		*stream
		m     *msg
		max   int64
		want  string // ok, err, either
		what  string
		put   []byte
		after []byte
		hang  bool
	}
	mk := func(i int) *probe {
		p := &probe{stream: &stream{id: i, x: r.newWire()}, m: r.message(cfg, ref, true), want: "err"}
		n := int64(len(p.m.lp))
		pre := n - int64(len(p.m.body))
		body := p.m.body
		put := p.m.lp
		uv := func(x uint64, extra int) []byte {
			var b [12]byte
			k := binary.PutUvarint(b[:], x)
			out := append([]byte(nil), b[:k]...)
			for j := 0; j < extra; j++ {
				out[len(out)-1] |= 0x80
				out = append(out, 0)
			}
			return out
		}
		switch w.Draw(8) {
		case 0: // fits
			p.max = n + []int64{0, 0, 1, 100, 1 << 40, 1<<63 - 1 - n}[w.Draw(6)]
			p.want, p.what = "ok", "fits the limit"
		case 1: // does not fit
			p.max = n - 1
			switch w.Draw(4) {
			case 0:
				p.max = 1 + int64(w.Draw(int(n)))
			case 1:
				p.max = pre + int64(w.Draw(3)) - 1
			case 2:
				p.max = n - pre
			}
			if p.max >= n {
				p.max = n - 1
			}
			if p.max < 1 {
				p.max, p.want = 1, "either"
				if n == 1 {
					p.want = "ok"
				}
			}
			p.what = "exceeds the limit"
			Inject(FHostilePrefix)
		case 2: // announces more than the limit, or anything at all
			p.max = []int64{1, 2, 5, 9, 10, 11, 100, 4096, 1 << 20, 64 << 20, 1 << 50, 1 << 62}[w.Draw(12)]
			x := uint64(p.max) + uint64(w.Draw(3))
			switch w.Draw(3) {
			case 0:
				x = w.U64() >> uint(w.Draw(60))
			case 1:
				x = 1<<63 - 1 - uint64(w.Draw(20))
			}
			if x < uint64(p.max) {
				x = uint64(p.max)
			}
			put = append(uv(x, 0), body...)
			p.what = fmt.Sprintf("announces %d bytes", x)
			Inject(FHostilePrefix)
		case 3: // an impossible length, limit or not
			x := uint64(1)<<63 + w.U64()>>uint(1+w.Draw(62))
			p.max = []int64{0, 0, 9, 10, 11, 1 << 20, 1<<63 - 1}[w.Draw(7)]
			put = append(uv(x, 0), body...)
			p.what = fmt.Sprintf("announces %d bytes", x)
			Inject(FHostilePrefix)
		case 4: // not a 64-bit varint
			k := 9 + w.Draw(3)
			put = bytes.Repeat([]byte{0x80 | byte(w.Draw(128))}, k)
			put = append(put, []byte{0x02, 0x7f, 0x03, 0x80}[w.Draw(4)])
			put = append(put, bytes.Repeat([]byte{0}, w.Draw(3))...)
			put = append(put, body...)
			p.max = []int64{0, 0, 5, 9, 10, 11, 12, 1 << 20}[w.Draw(8)]
			p.what = "has no valid prefix"
			Inject(FHostilePrefix)
		case 5: // no limit, announces much more than follows
			p.max = 0
			put = append(uv(uint64(1)<<uint(17+w.Draw(46))-uint64(w.Draw(2)), 0), body...)
			p.what = "announces more than follows"
			Inject(FHostilePrefix)
		case 6: // within the limit, announces more than follows
			p.max = []int64{1 << 10, 1 << 16, 1 << 20, 16 << 20, 1 << 50, 1 << 62, 1<<63 - 1}[w.Draw(7)]
			put = append(uv(uint64(p.max)-uint64(10+w.Draw(100)), 0), body...)
			if int64(len(body)) > p.max-200 {
				p.want = "either"
			}
			p.what = "announces more than follows"
			Inject(FHostilePrefix)
		case 7: // a padded prefix
			put = append(uv(uint64(len(body)), 1+w.Draw(3)), body...)
			p.max = []int64{int64(len(put)), int64(len(put)) + 1, 1 << 20, int64(len(put)) - 1 - int64(w.Draw(4))}[w.Draw(4)]
			p.what = "has a padded prefix"
			if p.max < 1 {
				p.max = 1
			}
			if p.max >= int64(len(put)) {
				// As without a limit, where it may be refused.
				if _, _, err, pan := take(ref, source{bytes.NewReader(put), nil, ""}, p.m.t, 0); err == nil && pan == nil {
					p.want = "ok"
				}
			}
			Inject(FHostilePrefix)
		}
		p.x.buf = append([]byte(nil), put...)
		p.put = append([]byte(nil), put...)
		if p.want == "ok" && w.Chance(1, 2) || p.want == "err" && (p.max > 0 && p.what != "announces more than follows") {
			p.after = w.Bytes(w.Draw(30))
			p.x.buf = append(p.x.buf, p.after...)
			// More would come, later.
			p.hang = w.Chance(1, 3)
		}
		p.x.closed = true
		k := w.Draw(allKinds)
		p.src = p.x.as(k)
		if p.hang && k < liveKinds && p.want == "ok" {
			p.x.closed = false
		}
		r.Log("stream %d (%s) %s: %v, on the wire %X, limit %d", i, p.src.kind, p.what, p.m, clipBytes(p.x.buf, 40), p.max)
		return p
	}
	judge := func(p *probe, v reflect.Value, n int64, err error, pan interface{}, alloc uint64) {
		Checked()
		r.Note(fmt.Sprintf("%d %v", n, err))
		took := p.src.taken()
		d := fmt.Sprintf("stream %d (%s), which %s: %X, limit %d, read as %s", p.id, p.src.kind, p.what, clipBytes(p.x.buf, 40), p.max, p.m.t.Name)
		switch {
		case pan != nil:
			r.Fail("panic", "%s: panic %v", d, pan)
		case p.max > 0 && int64(took) > p.max:
			r.Fail("over-read", "%s: took %d bytes", d, took)
		case p.want == "err" && err == nil:
			r.Fail("limit-ignored", "%s: accepted, n=%d", d, n)
		case p.want == "ok":
			m := *p.m
			m.lp = p.put
			r.received(p.stream, 0, &m, v, n, err, pan, len(p.put))
		case p.want == "either" && err == nil && uni.CanonV(v.Elem()) != p.m.canon:
			r.Fail("value", "%s: %s", d, clip(uni.DumpV(v.Elem()), 500))
		}
		if !r.Failed() && p.want == "err" && alloc > 0 {
			bound := uint64(1 << 18)
			if p.max > 0 && p.max < 1<<40 {
				bound += 2 * uint64(p.max)
			}
			bound += 16 * uint64(len(p.x.buf))
			if alloc > bound {
				r.Fail("memory", "%s: allocated %d bytes", d, alloc)
			}
		}
	}
	if w.Chance(1, 2) {
		// Alone, with its memory watched.
		p := mk(0)
		take(c, source{bytes.NewReader(nil), nil, ""}, p.m.t, 0) // the type is known
		a := allocated()
		v, n, err, pan := take(c, p.src, p.m.t, p.max)
		judge(p, v, n, err, pan, allocated()-a+1)
		return
	}
	var ps []*probe
	k := 1 + w.Draw(4)
	for i := 0; i < k; i++ {
		ps = append(ps, mk(i))
	}
	r.Sim(func(s *simrt.Sim) {
		for _, p := range ps {
			p := p
			r.Spawn(s, fmt.Sprintf("receiver%d", p.id), 0, func(t *simrt.Task) {
				v, n, err, pan := take(c, p.src, p.m.t, p.max)
				if simrt.Dying() {
					return
				}
				judge(p, v, n, err, pan, 0)
			})
		}
	})
}

// lonely are interfaces most codecs do not know.
var lonely = []*uni.Type{
	{Name: "Lonely", RT: uni.ILonely.RT, Bin: true, Iface: true},
	{Name: "Extra", RT: uni.IExtra.RT, Bin: true, Iface: true},
	{Name: "Any", RT: uni.IAny.RT, Bin: true, Iface: true},
}

// resyncWorld: C10.
func resyncWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	ref := cfg.Apply(sys.Ref())
	c := cfg.Apply(sys.New())
	og := &opgen{r: r, cfg: cfg}
	mod := newModel(cfg)
	other := sys.FullConfig(w)
	for i := range other.Regs {
		if other.Regs[i].Conc != nil && w.Chance(1, 3) {
			other.Regs[i].Name += "'"
		}
	}
	other = r.prune(other)
	stranger := other.Apply(sys.Ref())
	type part struct {
		m    *msg
		lp   []byte
		t    *uni.Type
		bad  bool
		want sys.Result
		max  int64
	}
	type line struct {
		*stream
		parts []*part
	}
	var ls []*line
	n := 1 + w.Draw(3)
	for i := 0; i < n; i++ {
		l := &line{stream: &stream{id: i, x: r.newWire()}}
		k := 2 + w.Draw(5)
		for j := 0; j < k; j++ {
			m := r.message(cfg, ref, true)
			p := &part{m: m, lp: m.lp, t: m.t}
			body := m.body
			if w.Chance(1, 2) {
				p.bad = true
				switch w.Draw(8) {
				case 0, 1:
					body = Corrupt(w, body, false)
				case 5: // nothing can be decoded into it here
					switch w.Draw(3) {
					case 0:
						p.t = holders[w.Draw(len(holders))]
					case 1:
						p.t = lonely[w.Draw(len(lonely))]
					default:
						p.t = uni.Bad[w.Draw(len(uni.Bad))]
					}
					Inject(FMisdirect)
				case 6: // forged
					if w.Chance(1, 2) {
						p.t = uni.Compose(w, w.Draw(3))
					}
					body = og.forge(p.t, cfg)
				case 7: // of a type made up
					p.t = uni.Compose(w, w.Draw(3))
					Inject(FMisdirect)
				case 2: // of another type
					p.t = uni.PickType(w, func(t *uni.Type) bool { return t.Bin && t.Name != "Shape" })
					Inject(FMisdirect)
				case 3: // from a sender with other registrations
					g := &uni.Gen{T: w, Concs: other.Concs(), Size: 20}
					p.t = uni.PickType(w, func(t *uni.Type) bool { return t.Iface && t.Bin && t.Name != "Shape" })
					if m := r.msgOf(stranger, p.t, g.Value(p.t.RT)); m != nil {
						body = m.body
					}
					Inject(FMisdirect)
				case 4: // user code refuses it
					g := &uni.Gen{T: w, Concs: cfg.Concs(), Size: 20}
					p.t = uni.Get("Conv")
					v := g.Value(p.t.RT)
					v.Field(0).SetString([]string{"|E!", "|P!"}[w.Draw(2)])
					if m := r.msgOf(ref, p.t, v); m != nil {
						body = m.body
					}
					Inject(FUserError)
				}
				var b [10]byte
				k := binary.PutUvarint(b[:], uint64(len(body)))
				p.lp = append(append([]byte(nil), b[:k]...), body...)
				p.want = (&sys.Op{Kind: sys.UBare, Type: p.t, Data: body}).Run(ref, nil, sys.PlainIO{})
			}
			switch w.Draw(3) {
			case 0:
				p.max = int64(len(p.lp))
			case 1:
				p.max = 1 << 24
			}
			l.parts = append(l.parts, p)
			l.x.buf = append(l.x.buf, p.lp...)
			r.Extra += 200 * int64(len(p.lp))
		}
		l.x.closed = true
		l.src = l.x.as(w.Draw(allKinds))
		ls = append(ls, l)
	}
	r.Sim(func(s *simrt.Sim) {
		for _, l := range ls {
			l := l
			r.Spawn(s, fmt.Sprintf("receiver%d", l.id), 0, func(t *simrt.Task) {
				at := 0
				for i, p := range l.parts {
					v, n, err, pan := take(c, l.src, p.t, p.max)
					if simrt.Dying() {
						return
					}
					at += len(p.lp)
					if !p.bad {
						if !r.received(l.stream, i, p.m, v, n, err, pan, at) {
							return
						}
						continue
					}
					Checked()
					r.Note(fmt.Sprintf("%d %v %v", n, err, pan))
					d := fmt.Sprintf("stream %d (%s), message %d, %X read as %s, limit %d", l.id, l.src.kind, i, clipBytes(p.lp, 100), p.t.Name, p.max)
					took := l.src.taken()
					switch {
					case pan != nil && p.want.Class != "panic":
						r.Fail("panic", "%s: panic %v", d, pan)
					case pan == nil && (err == nil) != (p.want.Class == "ok"):
						r.Fail("class", "%s: err=%v, but decoding its payload from memory: %v", d, err, p.want)
					case took != at:
						r.Fail("desynchronised", "%s: err=%v, %d bytes taken from the stream instead of %d", d, err, took, at)
					case pan == nil && n != int64(len(p.lp)):
						r.Fail("count", "%s: err=%v, reported %d bytes instead of %d", d, err, n, len(p.lp))
					case err == nil && pan == nil && uni.DumpV(v.Elem()) != p.want.Val:
						r.Fail("value", "%s:\n from the stream %s\n from memory %s", d, clip(uni.DumpV(v.Elem()), 600), clip(p.want.Val, 600))
					}
					if err == nil && pan == nil {
						o := &sys.Op{Kind: sys.ULPReader, Type: p.t, Data: p.lp}
						r.refine(o, sys.Result{Class: "ok", Value: v, Val: uni.DumpV(v.Elem())}, mod, d)
					}
					if r.Failed() {
						return
					}
				}
				_, n, err, pan := take(c, l.src, uni.Get("Leaf"), 0)
				if simrt.Dying() {
					return
				}
				if n != 0 || err != io.EOF || pan != nil {
					r.Fail("end", "stream %d: at its end: n=%d err=%v panic=%v", l.id, n, err, pan)
				}
			})
		}
	})
}

func init() {
	world("C07", healthyWorld)
	world("C08", cutWorld)
	world("C09", limitWorld)
	world("C10", resyncWorld)
}
