package lab

import (
	"fmt"
	"reflect"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"

	amino "github.com/tendermint/go-amino"
)

// The ownership world (C15): tasks hold on to what calls returned, and reuse,
// overwrite and modify every buffer and value they may.

// held is something a task keeps.
type held struct {
	what  string
	out   []byte        // bytes an encoder returned
	val   reflect.Value // a decoded value, or one that was encoded
	in    []byte        // the input a value was decoded from
	state string        // what it must still look like
	spoil bool          // it may be modified
}

func (h *held) look() string {
	if h.val.IsValid() {
		return uni.DumpV(h.val)
	}
	return string(h.out)
}

func (h *held) mem(strs bool) []uni.Span {
	if h.val.IsValid() {
		return uni.Spans(h.val, strs)
	}
	return uni.BufSpan(h.out, h.what)
}

// ruin modifies it in every place its owner may write to.
func (h *held) ruin() {
	if h.val.IsValid() {
		uni.Scribble(h.val)
	} else {
		full := h.out[:cap(h.out)]
		for i := range full {
			full[i] ^= 0x5A
		}
	}
	h.state = h.look()
}

type ownTask struct {
	r     *Run
	c     sys.Codec
	items []*item
	held  []*held
}

func fillBytes(b []byte, x byte) {
	for i := range b {
		b[i] = x
	}
}

// intact verifies everything a task holds.
func (o *ownTask) intact(when string) {
	for _, h := range o.held {
		Checked()
		if s := h.look(); s != h.state {
			o.r.Fail("changed", "%s: %s changed\n from %s\n to %s", when, h.what, clip(h.state, 1500), clip(s, 1500))
			return
		}
	}
}

func (o *ownTask) apart(h *held) {
	if h.in != nil {
		Checked()
		if at, bad := uni.Overlap(h.mem(true), uni.BufSpan(h.in, "the input")); bad {
			o.r.Fail("shared", "%s shares memory with its input: %s", h.what, at)
		}
	}
	for _, x := range o.held {
		Checked()
		if at, bad := uni.Overlap(h.mem(false), x.mem(false)); bad {
			o.r.Fail("shared", "%s and %s share memory: %s", h.what, x.what, at)
		}
		if h.val.IsValid() && !x.val.IsValid() {
			if at, bad := uni.Overlap(h.mem(true), x.mem(false)); bad {
				o.r.Fail("shared", "%s and %s share memory: %s", h.what, x.what, at)
			}
		}
		if !h.val.IsValid() && x.val.IsValid() {
			if at, bad := uni.Overlap(x.mem(true), h.mem(false)); bad {
				o.r.Fail("shared", "%s and %s share memory: %s", x.what, h.what, at)
			}
		}
	}
}

// step makes one call and keeps its results, then spoils what it may.
func (o *ownTask) step(it *item, k int) {
	r, w := o.r, o.r.Env
	op := *it.op
	if op.Kind.Decodes() {
		// The caller's buffer, with room around the message.
		buf := make([]byte, len(op.Data)+16)
		fillBytes(buf, 0x77)
		copy(buf[8:], op.Data)
		op.Data = buf[8 : 8+len(op.Data)]
		call := &item{op: &op, io: it.io}
		r.perform(call, o.c)
		if r.Failed() {
			return
		}
		r.judge(&item{op: it.op, want: it.want}, call.got, "among other calls")
		h := &held{what: fmt.Sprintf("what %s gave (call %d)", op.Kind, k), val: call.got.Value, in: buf, state: "", spoil: true}
		h.state = h.look()
		o.apart(h)
		o.held = append(o.held, h)
		Inject(FBufferReuse)
		// Another message comes into the same buffer, in steps.
		for i := 0; i < 2; i++ {
			fillBytes(buf, byte(0xE0+i))
			simrt.Point()
			o.intact("after the input buffer was reused")
		}
	} else {
		before := ""
		if op.Kind != sys.Print {
			before = uni.DumpV(op.Val)
		}
		call := &item{op: &op, io: it.io}
		r.perform(call, o.c)
		if r.Failed() {
			return
		}
		r.judge(&item{op: it.op, want: it.want}, call.got, "among other calls")
		if op.Kind == sys.Print || op.Kind == sys.LPWriter {
			return
		}
		if d := uni.DumpV(op.Val); d != before {
			r.Fail("changed", "%v changed the value it was given to %s", it.op, clip(d, 1500))
		}
		if call.got.Bytes == nil {
			return
		}
		h := &held{what: fmt.Sprintf("what %s returned (call %d)", op.Kind, k), out: call.got.Bytes, spoil: true}
		h.state = h.look()
		v := &held{what: fmt.Sprintf("the %s given to %s (call %d)", op.Type.Name, op.Kind, k), val: op.Val, state: before, spoil: true}
		o.apart(h)
		if at, bad := uni.Overlap(v.mem(true), h.mem(false)); bad {
			r.Fail("shared", "%s and %s share memory: %s", h.what, v.what, at)
		}
		o.held = append(o.held, h, v)
	}
	for len(o.held) > 0 && w.Chance(2, 5) && !r.Failed() {
		h := o.held[w.Draw(len(o.held))]
		if h.spoil {
			Inject(FMutation)
			r.Log("modify %s", h.what)
			h.ruin()
			simrt.Point()
			o.intact("after " + h.what + " was modified")
		}
	}
}

func ownWorld(r *Run) {
	w := r.Work
	p := r.planCodec(mix{modes: "Y", rate: 3, bad: 20, corrupt: 10, unreg: 8, pkg: 6}, 4, 6, r.dynTypes())
	p.wants(r)
	if w.Chance(1, 3) {
		r.spoilOptions()
	}
	if w.Chance(1, 4) {
		r.lowOwn()
	}
	var ts []*ownTask
	for _, items := range p.tasks {
		for _, it := range items {
			// Every task has its own values: it may modify them.
			if it.op.Val.IsValid() {
				c := *it.op
				c.Val = uni.Clone(it.op.Val)
				it.op = &c
			}
			it.faulty = false
			it.io = sys.PlainIO{}
		}
		ts = append(ts, &ownTask{r: r, c: p.c, items: items})
	}
	r.Sim(func(s *simrt.Sim) {
		for i, o := range ts {
			o := o
			r.Spawn(s, fmt.Sprintf("caller%d", i), 0, func(*simrt.Task) {
				for k, it := range o.items {
					if it.op.Kind == sys.Copy {
						continue
					}
					// What the caller does with its values later must not matter
					// to the expectation.
					c := *it.op
					if c.Val.IsValid() {
						c.Val = uni.Clone(c.Val)
					}
					o.step(&item{op: &c, io: it.io, want: it.want}, k)
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	// Nothing is shared between tasks either; then everything is ruined, piece by
	// piece, and nothing else may change.
	all := &ownTask{r: r, c: p.c}
	for _, o := range ts {
		o.intact("at the end")
		for _, h := range o.held {
			all.apart(h)
			all.held = append(all.held, h)
		}
	}
	if r.Failed() {
		return
	}
	for _, i := range w.Perm(len(all.held)) {
		Inject(FMutation)
		all.held[i].ruin()
		if i%4 == 0 {
			all.intact("after " + all.held[i].what + " was modified")
		}
	}
	all.intact("after everything else was modified")
	// No later call is affected.
	p.after(r)
}

// spoilOptions registers with options the caller then reuses.
func (r *Run) spoilOptions() {
	w := r.Work
	cfg := &sys.Config{}
	g := uni.Clash[w.Draw(len(uni.Clash))]
	prio := []string{g[0], g[1], g[2]}
	io := &amino.InterfaceOptions{Priority: prio, AlwaysDisambiguate: w.Chance(1, 3)}
	cfg.Regs = []sys.Reg{{Iface: uni.IShape, Opts: &sys.IOpts{Prio: append([]string(nil), prio...), Always: io.AlwaysDisambiguate}}}
	l := amino.NewCodec()
	ref := sys.Ref()
	l.RegisterInterface((*uni.Shape)(nil), io)
	prio[0], prio[1], prio[2] = "x", "y", "z"
	io.AlwaysDisambiguate = !io.AlwaysDisambiguate
	cfg.Apply(ref)
	co := &amino.ConcreteOptions{}
	n := 0
	for i := 0; i < 3; i++ {
		l.RegisterConcrete(uni.Concs[i].Proto(), g[i], co)
		ref.RegConc(uni.Concs[i].Proto(), g[i])
		n++
	}
	for i := 0; i < n; i++ {
		gen := &uni.Gen{T: w, Concs: uni.Concs[:n], JSON: true}
		v := gen.Value(uni.Get("Holder").RT)
		want, e1 := ref.MarshalBinaryBare(v.Interface())
		got, e2 := l.MarshalBinaryBare(v.Interface())
		CountOp()
		Checked()
		if (e1 == nil) != (e2 == nil) || string(want) != string(got) {
			r.Fail("changed", "options modified after the registration took effect: a Holder encodes as %X (%v) instead of %X (%v)", got, e2, want, e1)
		}
	}
}

// lowOwn checks the exported functions that decode a single item.
func (r *Run) lowOwn() {
	w := r.Work
	b := w.Bytes(w.Draw(40))
	var enc []byte
	{
		var buf sliceWriter
		if err := amino.EncodeByteSlice(&buf, b); err != nil {
			r.Fail("wrong-result", "EncodeByteSlice: %v", err)
			return
		}
		enc = append(buf.b, 1, 2, 3)
	}
	if at, bad := uni.Overlap(uni.BufSpan(enc, "output"), uni.BufSpan(b, "input")); bad {
		r.Fail("shared", "EncodeByteSlice: %s", at)
	}
	CountOp()
	Checked()
	got, _, err := amino.DecodeByteSlice(enc)
	if err != nil {
		r.Fail("wrong-result", "DecodeByteSlice(%X): %v", enc, err)
		return
	}
	s, _, err := amino.DecodeString(enc)
	if err != nil {
		r.Fail("wrong-result", "DecodeString(%X): %v", enc, err)
		return
	}
	if at, bad := uni.Overlap(uni.BufSpan(got, "the result"), uni.BufSpan(enc, "the input")); bad {
		r.Fail("shared", "DecodeByteSlice: %s", at)
	}
	if at, bad := uni.Overlap(uni.Spans(reflect.ValueOf(s), true), uni.BufSpan(enc, "the input")); bad {
		r.Fail("shared", "DecodeString: %s", at)
	}
	fillBytes(enc, 0xEE)
	if string(got) != string(b) || s != string(b) {
		r.Fail("changed", "DecodeByteSlice or DecodeString of %X: %X, %X after the input was overwritten", b, got, s)
	}
}

type sliceWriter struct{ b []byte }

func (s *sliceWriter) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

func init() { world("C15", ownWorld) }
