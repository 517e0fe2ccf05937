package lab

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"

	amino "github.com/tendermint/go-amino"
)

// A faulty sink fails at one of its writes, in one of the ways a writer may.
type faulty struct {
	r      *Run
	failAt int // the write that fails, -1 for none
	how    int
	sticky bool
	err    error
	stall  int
	again  func()

	writes [][]byte // what each write was given
	got    []byte   // what was accepted
	calls  int
	after  int // calls after the failure
	failed bool
	acc    []int // bytes accepted by each write
}

func (f *faulty) seam() {
	simrt.Point()
	if f.stall > 0 && simrt.InSim() && f.r.Env.Chance(1, f.stall) {
		Inject(FStallWriter)
		simrt.Sleep(1 + int64(f.r.Env.Draw(100000)))
	}
	if f.again != nil {
		f.again()
	}
}

func (f *faulty) Write(p []byte) (int, error) {
	f.seam()
	i := f.calls
	f.calls++
	f.writes = append(f.writes, append([]byte(nil), p...))
	if f.failed {
		f.after++
	}
	if f.failAt >= 0 && (i == f.failAt || f.sticky && i > f.failAt) {
		f.failed = true
		n := 0
		switch f.how {
		case 0: // nothing accepted
			Inject(FWriteError)
		case 1: // part of it
			n = f.r.Env.Draw(len(p) + 1)
			Inject(FShortWrite)
		case 2: // all of it, and an error
			n = len(p)
			Inject(FWriteError)
		}
		if f.err == ErrFull {
			Inject(FFullDisk)
		}
		f.got = append(f.got, p[:n]...)
		f.acc = append(f.acc, n)
		return n, f.err
	}
	f.got = append(f.got, p...)
	f.acc = append(f.acc, len(p))
	return len(p), nil
}

// richFaulty also has the methods some writers have.
type richFaulty struct{ *faulty }

func (f richFaulty) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f richFaulty) WriteByte(b byte) error {
	_, err := f.Write([]byte{b})
	return err
}
func (f richFaulty) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
func (f richFaulty) Flush() error { return nil }

func (r *Run) newFaulty(fail bool, max int) (*faulty, io.Writer) {
	w := r.Work
	f := &faulty{r: r, failAt: -1}
	if fail {
		f.failAt = w.Draw(max)
		f.how = w.Draw(3)
		f.sticky = w.Chance(1, 2)
		f.err = []error{ErrDisk, ErrFull, io.ErrShortWrite, io.EOF, fmt.Errorf("wrapped: %w", ErrFull), r.netError()}[w.Pick(4, 3, 1, 1, 1, 2)]
	}
	if w.Chance(1, 4) {
		f.stall = 1 + w.Draw(4)
	}
	if w.Chance(1, 3) {
		return f, richFaulty{f}
	}
	return f, f
}

// writerWorld: C11.
func writerWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	ref := cfg.Apply(sys.Ref())
	c := cfg.Apply(sys.New())
	// Unencodable values: user code fails, or a type was never registered.
	bad := func() *msg {
		switch w.Draw(3) {
		case 0:
			t := uni.Get("Conv")
			v := (&uni.Gen{T: w, Concs: cfg.Concs(), Size: 10}).Value(t.RT)
			v.Field(0).SetString([]string{"E!", "P!"}[w.Draw(2)])
			Inject(FUserError)
			return &msg{t: t, v: v}
		case 1:
			t := uni.Get("Holder")
			v := (&uni.Gen{T: w, Concs: uni.Lates, Size: 10}).Value(t.RT)
			if v.Field(0).IsNil() {
				v.Field(0).Set((&uni.Gen{T: w, Size: 5}).Value(uni.Lates[0].RT))
			}
			Inject(FBadType)
			return &msg{t: t, v: v}
		}
		t := uni.Bad[w.Draw(len(uni.Bad))]
		Inject(FBadType)
		return &msg{t: t, v: reflect.New(t.RT).Elem()}
	}
	type write struct {
		m    *msg
		ok   bool
		want sys.Result
		how  bool // by pointer
	}
	type job struct {
		f    *faulty
		out  io.Writer
		ws   []*write
		fail bool
	}
	// Writers to one shared sink with atomic writes, and writers to sinks of
	// their own that fail.
	shared := &faulty{r: r, failAt: -1}
	if w.Chance(1, 3) {
		shared.stall = 1 + w.Draw(4)
	}
	var sharedOut io.Writer = shared
	if w.Chance(1, 2) {
		sharedOut = richFaulty{shared}
	}
	var jobs []*job
	n := 2 + w.Draw(4)
	for i := 0; i < n; i++ {
		j := &job{f: shared, out: sharedOut}
		if w.Chance(1, 2) {
			j.fail = true
			j.f, j.out = r.newFaulty(w.Chance(4, 5), 4)
		}
		k := 1 + w.Draw(5)
		for x := 0; x < k; x++ {
			wr := &write{how: w.Chance(1, 2)}
			if w.Chance(1, 6) {
				wr.m = bad()
			} else {
				wr.m = r.message(cfg, ref, true)
			}
			o := &sys.Op{Kind: sys.LP, Type: wr.m.t, Val: wr.m.v}
			wr.want = o.Run(ref, nil, sys.PlainIO{})
			wr.ok = wr.want.Class == "ok"
			j.ws = append(j.ws, wr)
		}
		jobs = append(jobs, j)
	}
	acked := make([][]string, n)
	r.Sim(func(s *simrt.Sim) {
		for i, j := range jobs {
			i, j := i, j
			r.Spawn(s, fmt.Sprintf("writer%d", i), 0, func(t *simrt.Task) {
				for _, wr := range j.ws {
					before := len(j.f.writes)
					bytesBefore := len(j.f.got)
					failedBefore := len(j.f.acc)
					var in interface{} = wr.m.v.Interface()
					if wr.how && wr.m.v.CanAddr() && wr.m.v.Kind().String() != "interface" {
						in = wr.m.v.Addr().Interface()
					}
					var nn int64
					var err error
					var pan interface{}
					CountOp()
					func() {
						fin := false
						defer func() {
							if !fin {
								pan = recover()
							}
						}()
						nn, err = c.MarshalBinaryLengthPrefixedWriter(j.out, in)
						fin = true
					}()
					if simrt.Dying() {
						return
					}
					Checked()
					r.Note(fmt.Sprint(nn, err))
					d := fmt.Sprintf("writing %v", wr.m)
					if !wr.ok {
						if err == nil && pan == nil {
							r.Fail("unencodable", "%s, which cannot be encoded (%v): n=%d, no error", d, wr.want, nn)
						}
						if j.fail && len(j.f.writes) != before {
							r.Fail("written", "%s, which cannot be encoded: %d writes were made", d, len(j.f.writes)-before)
						}
						if pan == nil && nn != 0 {
							r.Fail("count", "%s, which cannot be encoded: reported %d bytes", d, nn)
						}
						continue
					}
					if pan != nil {
						r.Fail("panic", "%s: panic %v", d, pan)
						return
					}
					if !j.fail {
						if err != nil || nn != int64(len(wr.want.Bytes)) {
							r.Fail("shared", "%s to a healthy sink: n=%d err=%v", d, nn, err)
							return
						}
						acked[i] = append(acked[i], wr.want.Out)
						continue
					}
					if len(j.f.writes) != before+1 {
						r.Fail("writes", "%s made %d writes", d, len(j.f.writes)-before)
						return
					}
					if got := j.f.writes[before]; string(got) != wr.want.Out {
						r.Fail("bytes", "%s handed the sink %X instead of %X", d, clipBytes(got, 100), clipBytes(wr.want.Bytes, 100))
						return
					}
					if nn != int64(len(j.f.got)-bytesBefore) {
						r.Fail("count", "%s: the sink accepted %d bytes, the call reported %d (err=%v)", d, len(j.f.got)-bytesBefore, nn, err)
						return
					}
					failed := j.f.failAt >= 0 && (failedBefore == j.f.failAt || j.f.sticky && failedBefore > j.f.failAt)
					if failed && (err == nil || !is(err, j.f.err)) {
						r.Fail("error-lost", "%s: the sink failed with %v, the call returned %v", d, j.f.err, err)
						return
					}
					if !failed && err != nil {
						r.Fail("error", "%s: the sink did not fail, the call returned %v", d, err)
						return
					}
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	// The shared sink holds whole messages, each writer's in its order.
	for k, b := range shared.writes {
		Checked()
		found := false
		for i := range acked {
			for _, a := range acked[i] {
				if a == string(b) {
					found = true
				}
			}
		}
		if !found {
			r.Fail("interleaved", "write %d to the shared sink is no message: %X", k, clipBytes(b, 100))
			return
		}
	}
	total := 0
	for i := range acked {
		total += len(acked[i])
		at := 0
		for _, b := range shared.writes {
			if at < len(acked[i]) && acked[i][at] == string(b) {
				at++
			}
		}
		if at != len(acked[i]) {
			r.Fail("order", "the messages of writer %d are not in order in the shared sink (%d of %d)", i, at, len(acked[i]))
			return
		}
	}
	if total != len(shared.writes) {
		r.Fail("writes", "%d messages were written with %d writes", total, len(shared.writes))
	}
}

// encoders are all exported functions that write to a caller's sink. The last
// result says what is wrong with their complete output, if anything.
func (r *Run) encoder(c sys.Codec, cfg *sys.Config) (string, func(w io.Writer) error, func([]byte) string) {
	w := r.Work
	x := w.U64() >> uint(w.Draw(64))
	if w.Chance(1, 4) {
		x = []uint64{0, 1, 127, 128, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[w.Draw(9)]
	}
	g := &uni.Gen{T: w}
	switch w.Draw(19) {
	case 0:
		return fmt.Sprintf("EncodeInt8(%d)", int8(x)), func(o io.Writer) error { return amino.EncodeInt8(o, int8(x)) }, func(b []byte) string { v, n, err := amino.DecodeInt8(b); return whole(b, n, err, v, int8(x)) }
	case 1:
		return fmt.Sprintf("EncodeInt16(%d)", int16(x)), func(o io.Writer) error { return amino.EncodeInt16(o, int16(x)) }, func(b []byte) string { v, n, err := amino.DecodeInt16(b); return whole(b, n, err, v, int16(x)) }
	case 2:
		return fmt.Sprintf("EncodeInt32(%d)", int32(x)), func(o io.Writer) error { return amino.EncodeInt32(o, int32(x)) }, func(b []byte) string { v, n, err := amino.DecodeInt32(b); return whole(b, n, err, v, int32(x)) }
	case 3:
		return fmt.Sprintf("EncodeInt64(%d)", int64(x)), func(o io.Writer) error { return amino.EncodeInt64(o, int64(x)) }, func(b []byte) string { v, n, err := amino.DecodeInt64(b); return whole(b, n, err, v, int64(x)) }
	case 4:
		return fmt.Sprintf("EncodeVarint(%d)", int64(x)), func(o io.Writer) error { return amino.EncodeVarint(o, int64(x)) }, func(b []byte) string { v, n, err := amino.DecodeVarint(b); return whole(b, n, err, v, int64(x)) }
	case 5:
		return fmt.Sprintf("EncodeByte(%d)", byte(x)), func(o io.Writer) error { return amino.EncodeByte(o, byte(x)) }, func(b []byte) string { v, n, err := amino.DecodeByte(b); return whole(b, n, err, v, byte(x)) }
	case 6:
		return fmt.Sprintf("EncodeUint8(%d)", uint8(x)), func(o io.Writer) error { return amino.EncodeUint8(o, uint8(x)) }, func(b []byte) string { v, n, err := amino.DecodeUint8(b); return whole(b, n, err, v, uint8(x)) }
	case 7:
		return fmt.Sprintf("EncodeUint16(%d)", uint16(x)), func(o io.Writer) error { return amino.EncodeUint16(o, uint16(x)) }, func(b []byte) string { v, n, err := amino.DecodeUint16(b); return whole(b, n, err, v, uint16(x)) }
	case 8:
		return fmt.Sprintf("EncodeUint32(%d)", uint32(x)), func(o io.Writer) error { return amino.EncodeUint32(o, uint32(x)) }, func(b []byte) string { v, n, err := amino.DecodeUint32(b); return whole(b, n, err, v, uint32(x)) }
	case 9:
		return fmt.Sprintf("EncodeUint64(%d)", x), func(o io.Writer) error { return amino.EncodeUint64(o, x) }, func(b []byte) string { v, n, err := amino.DecodeUint64(b); return whole(b, n, err, v, x) }
	case 10:
		return fmt.Sprintf("EncodeUvarint(%d)", x), func(o io.Writer) error { return amino.EncodeUvarint(o, x) }, func(b []byte) string { v, n, err := amino.DecodeUvarint(b); return whole(b, n, err, v, x) }
	case 11:
		return fmt.Sprintf("EncodeBool(%v)", x&1 == 1), func(o io.Writer) error { return amino.EncodeBool(o, x&1 == 1) }, func(b []byte) string { v, n, err := amino.DecodeBool(b); return whole(b, n, err, v, x&1 == 1) }
	case 12:
		return "EncodeFloat32", func(o io.Writer) error { return amino.EncodeFloat32(o, math.Float32frombits(uint32(x))) }, func(b []byte) string {
			v, n, err := amino.DecodeFloat32(b)
			return whole(b, n, err, math.Float32bits(v), uint32(x))
		}
	case 13:
		return "EncodeFloat64", func(o io.Writer) error { return amino.EncodeFloat64(o, math.Float64frombits(x)) }, func(b []byte) string {
			v, n, err := amino.DecodeFloat64(b)
			return whole(b, n, err, math.Float64bits(v), x)
		}
	case 14:
		t := g.Time()
		if w.Chance(1, 4) {
			t = time.Unix(int64(w.Draw(2)), int64(w.Draw(2)))
		}
		return fmt.Sprintf("EncodeTime(%v)", t), func(o io.Writer) error { return amino.EncodeTime(o, t) }, func(b []byte) string {
			v, n, err := amino.DecodeTime(b)
			return whole(b, n, err, v.UnixNano() == t.UnixNano() && v.Unix() == t.Unix(), true)
		}
	case 15:
		b := w.Bytes(w.Draw(200))
		if w.Chance(1, 3) {
			b = make([]byte, 1<<uint(7+w.Draw(10))+w.Draw(9)-4)
		}
		return fmt.Sprintf("EncodeByteSlice(%d bytes)", len(b)), func(o io.Writer) error { return amino.EncodeByteSlice(o, b) }, func(z []byte) string {
			v, n, err := amino.DecodeByteSlice(z)
			return whole(z, n, err, bytes.Equal(v, b), true)
		}
	case 16:
		s := g.Str()
		return fmt.Sprintf("EncodeString(%q)", clip(s, 50)), func(o io.Writer) error { return amino.EncodeString(o, s) }, func(b []byte) string { v, n, err := amino.DecodeString(b); return whole(b, n, err, v, s) }
	}
	return "PrintTypes()", func(o io.Writer) error { return c.PrintTypes(o) }, func(b []byte) string { return unlisted(string(b), cfg.Regs) }
}

// whole says what is wrong with the output of an encoder, given what a decoder
// makes of it.
func whole(b []byte, n int, err error, got, want interface{}) string {
	if err != nil || n != len(b) || got != want {
		return fmt.Sprintf("decoded as %v (%v of %v bytes, %v), not %v", got, n, len(b), err, want)
	}
	return ""
}

// unlisted says what is wrong with a table of types, if it is not exactly that
// of the concrete types registered.
func unlisted(table string, regs []sys.Reg) string {
	lines := 2
	for _, reg := range regs {
		if reg.Conc == nil {
			continue
		}
		lines += 1 + strings.Count(reg.Name, "\n")
		_, pb := amino.NameToDisfix(reg.Name)
		row := "| " + reg.Conc.RT.Name() + " | " + reg.Name + " | "
		i := strings.Index(table, row)
		if i < 0 {
			return fmt.Sprintf("%s has no row", reg)
		}
		if rest := strings.ToLower(table[i+len(row):]); !strings.HasPrefix(rest, fmt.Sprintf("0x%x |", pb[:])) {
			return fmt.Sprintf("the row of %s goes on with %q", reg, clip(rest, 20))
		}
	}
	if n := strings.Count(table, "\n"); n != lines {
		return fmt.Sprintf("%d lines instead of %d", n, lines)
	}
	return ""
}

// lowWorld: C12.
func lowWorld(r *Run) {
	w := r.Work
	cfg := sys.NewConfig(w)
	if w.Chance(1, 3) {
		cfg.Regs = cfg.Regs[:w.Draw(len(cfg.Regs))]
		cfg = r.prune(cfg)
	}
	c := cfg.Apply(sys.New())
	type try struct {
		name string
		f    func(io.Writer) error
		out  *faulty
		to   io.Writer
		want []byte
	}
	var tasks [][]*try
	n := 1 + w.Draw(4)
	for i := 0; i < n; i++ {
		var ts []*try
		k := 1 + w.Draw(6)
		for j := 0; j < k; j++ {
			t := &try{}
			var wrong func([]byte) string
			t.name, t.f, wrong = r.encoder(c, cfg)
			var plain bytes.Buffer
			count := &faulty{r: r, failAt: -1}
			if err := t.f(io.MultiWriter(&plain, count)); err != nil {
				r.Fail("error", "%s to a healthy sink: %v", t.name, err)
				return
			}
			t.want = plain.Bytes()
			Checked()
			if bad := wrong(t.want); bad != "" {
				r.Fail("incomplete", "%s gave a healthy sink %X: %s", t.name, clipBytes(t.want, 400), bad)
				return
			}
			// The sinks that programs use most, which hold something already.
			had := w.Bytes(w.Draw(40))
			buf := bytes.NewBuffer(append(make([]byte, 0, w.Draw(100)), had...))
			if err := t.f(buf); err != nil || !bytes.Equal(buf.Bytes(), append(had[:len(had):len(had)], t.want...)) {
				r.Fail("bytes", "%s to a buffer that holds %X: error %v, and it holds %X instead of %X more", t.name, had, err, clipBytes(buf.Bytes(), 100), clipBytes(t.want, 100))
				return
			}
			under, to := r.newFaulty(false, 1)
			under.stall = 0
			bw := bufio.NewWriterSize(to, 16+w.Draw(60))
			bw.Write(had)
			if err := t.f(bw); err != nil || bw.Flush() != nil || !bytes.Equal(under.got, append(had[:len(had):len(had)], t.want...)) {
				r.Fail("bytes", "%s to a bufio.Writer that was given %X: error %v, and %X arrived instead of %X more", t.name, had, err, clipBytes(under.got, 100), clipBytes(t.want, 100))
				return
			}
			t.out, t.to = r.newFaulty(w.Chance(3, 4), count.calls+1)
			ts = append(ts, t)
		}
		tasks = append(tasks, ts)
	}
	r.Sim(func(s *simrt.Sim) {
		for i, ts := range tasks {
			ts := ts
			r.Spawn(s, fmt.Sprintf("printer%d", i), 0, func(_ *simrt.Task) {
				for _, t := range ts {
					CountOp()
					err := t.f(t.to)
					if simrt.Dying() {
						return
					}
					Checked()
					r.Note(fmt.Sprint(err, len(t.out.got)))
					f := t.out
					switch {
					case f.failed && (err == nil || !is(err, f.err)):
						r.Fail("error-hidden", "%s: write %d failed with %v after %d bytes in all, the call returned %v", t.name, f.failAt, f.err, len(f.got), err)
					case f.failed && f.after > 0:
						r.Fail("wrote-on", "%s: %d more writes after write %d failed", t.name, f.after, f.failAt)
					case f.failed && !bytes.HasPrefix(t.want, f.got):
						r.Fail("bytes", "%s: before write %d failed the sink accepted %X, which does not begin %X", t.name, f.failAt, clipBytes(f.got, 100), clipBytes(t.want, 100))
					case !f.failed && err != nil:
						r.Fail("error", "%s: the sink did not fail, the call returned %v", t.name, err)
					case !f.failed && !bytes.Equal(f.got, t.want):
						r.Fail("bytes", "%s: the sink accepted %X instead of %X", t.name, clipBytes(f.got, 100), clipBytes(t.want, 100))
					}
					if r.Failed() {
						return
					}
				}
			})
		}
	})
}

func init() {
	world("C11", writerWorld)
	world("C12", lowWorld)
}
