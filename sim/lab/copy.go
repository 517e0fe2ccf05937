package lab

import (
	"fmt"
	"reflect"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The copying world (C16): tasks copy and encode the same values at once, and
// then each does to its copy, or to the original, whatever it likes.

// original is a value that tasks copy.
type original struct {
	t     *uni.Type
	v     reflect.Value
	state string
	canon map[sys.Kind]sys.Result // what it encodes as
}

// forms presents an original to DeepCopy in some way.
func (o *original) form(k int) (in interface{}, back func(reflect.Value) reflect.Value) {
	switch k {
	case 1:
		return o.v.Addr().Interface(), func(v reflect.Value) reflect.Value { return v.Elem() }
	case 2:
		p := reflect.New(reflect.PtrTo(o.v.Type()))
		p.Elem().Set(o.v.Addr())
		return p.Interface(), func(v reflect.Value) reflect.Value { return v.Elem().Elem() }
	case 3:
		s := reflect.MakeSlice(reflect.SliceOf(o.v.Type()), 1, 1)
		s.Index(0).Set(o.v)
		return s.Interface(), func(v reflect.Value) reflect.Value { return v.Index(0) }
	case 4:
		m := map[string]interface{}{"k": o.v.Interface()}
		return m, func(v reflect.Value) reflect.Value {
			e := v.MapIndex(reflect.ValueOf("k"))
			return e.Elem()
		}
	}
	return o.v.Interface(), func(v reflect.Value) reflect.Value { return v }
}

type copied struct {
	of    *original
	v     reflect.Value
	state string
	what  string
}

func copyWorld(r *Run) {
	w := r.Work
	cfg := r.newCfg()
	c := cfg.Apply(sys.New())
	ref := cfg.Apply(sys.Ref())
	dyn := r.dynTypes()
	var os []*original
	n := 1 + w.Draw(3)
	for i := 0; i < n; i++ {
		var t *uni.Type
		if len(dyn) > 0 && w.Chance(1, 4) {
			t = dyn[w.Draw(len(dyn))]
		} else {
			t = uni.PickType(w, func(t *uni.Type) bool { return t.Copy })
		}
		g := &uni.Gen{T: w, Concs: cfg.Concs(), JSON: true, Modes: "Y", Rate: 3, Size: []int{20, 6, 60}[w.Pick(5, 3, 1)]}
		if !t.Bin && !t.JSON && w.Chance(2, 3) {
			g.Concs = append(append([]*uni.Conc(nil), uni.Anys...), uni.Concs[:3]...)
		}
		o := &original{t: t, v: g.Value(t.RT), canon: map[sys.Kind]sys.Result{}}
		o.state = uni.DumpV(o.v)
		for _, k := range []sys.Kind{sys.Bare, sys.LP, sys.JSON} {
			if k.IsJSON() && t.JSON || !k.IsJSON() && t.Bin {
				e := &sys.Op{Kind: k, Type: t, Val: o.v}
				o.canon[k] = e.Run(ref, nil, sys.PlainIO{})
			}
		}
		os = append(os, o)
		r.Log("original %d: %s %s", i, t.Name, clip(o.state, 500))
	}
	type step struct {
		o      *original
		form   int
		enc    sys.Kind
		spoil  bool
		nilPtr bool
	}
	var plans [][]step
	for i := 2 + w.Draw(4); i > 0; i-- {
		var p []step
		for j := 1 + w.Draw(5); j > 0; j-- {
			s := step{o: os[w.Draw(len(os))], form: w.Pick(4, 4, 1, 1, 1), enc: -1, spoil: w.Chance(1, 2), nilPtr: w.Chance(1, 12)}
			if s.o.v.Kind() == reflect.Interface && s.form == 0 {
				s.form = 1
			}
			if s.o.v.Kind() == reflect.Interface && s.form == 4 {
				s.form = 3
			}
			if w.Chance(1, 3) {
				if ks := kindsOf(s.o.canon); len(ks) > 0 {
					s.enc = ks[w.Draw(len(ks))]
				}
			}
			p = append(p, s)
		}
		plans = append(plans, p)
	}
	copies := make([][]*copied, len(plans))
	intact := func(i int, when string) {
		for _, x := range copies[i] {
			Checked()
			if d := uni.DumpV(x.v); d != x.state {
				r.Fail("copy-changed", "%s: %s changed\n from %s\n to %s", when, x.what, clip(x.state, 1500), clip(d, 1500))
			}
		}
	}
	r.Sim(func(s *simrt.Sim) {
		for i := range plans {
			i := i
			r.Spawn(s, fmt.Sprintf("copier%d", i), 0, func(*simrt.Task) {
				for k, st := range plans[i] {
					if r.Failed() {
						return
					}
					o := st.o
					if st.enc >= 0 {
						e := &sys.Op{Kind: st.enc, Type: o.t, Val: o.v, ByPtr: o.v.Kind() != reflect.Interface}
						got := call(e, c, sys.PlainIO{})
						r.judge(&item{op: e, want: o.canon[st.enc]}, got, "while it was copied")
						continue
					}
					if st.nilPtr {
						in := reflect.Zero(reflect.PtrTo(o.v.Type())).Interface()
						out := r.deepCopy(in, "a nil pointer to "+o.t.Name)
						if !r.Failed() && (out == nil || reflect.TypeOf(out) != reflect.TypeOf(in) || !reflect.ValueOf(out).IsNil()) {
							r.Fail("unequal", "the copy of a nil *%v is %#v", o.v.Type(), out)
						}
						continue
					}
					in, back := o.form(st.form)
					what := fmt.Sprintf("copy %d.%d of a %s", i, k, o.t.Name)
					r.Log("DeepCopy(%T)", in)
					out := r.deepCopy(in, what)
					if r.Failed() {
						return
					}
					if reflect.TypeOf(out) != reflect.TypeOf(in) {
						r.Fail("unequal", "the copy of a %T is a %T", in, out)
						return
					}
					outv := reflect.ValueOf(out)
					v := back(outv)
					x := &copied{of: o, v: v, what: what, state: uni.DumpV(v)}
					r.Note(x.state)
					Checked()
					if x.state != o.state {
						r.Fail("unequal", "%s (%T) differs\n from %s\n it is %s", what, in, clip(o.state, 1500), clip(x.state, 1500))
						return
					}
					if at, bad := uni.Overlap(uni.Spans(outv, false), uni.Spans(reflect.ValueOf(in), false)); bad {
						r.Fail("shared", "%s shares memory with it: %s\n value %s", what, at, clip(o.state, 1500))
						return
					}
					copies[i] = append(copies[i], x)
					if st.spoil {
						Inject(FMutation)
						uni.Scribble(outv)
						x.state = uni.DumpV(x.v)
						simrt.Point()
					}
					intact(i, "after another copy was modified")
				}
			})
		}
	})
	if r.Failed() || r.Unsup != "" {
		return
	}
	check := func(when string) {
		for _, o := range os {
			Checked()
			if d := uni.DumpV(o.v); d != o.state {
				r.Fail("original-changed", "%s: a %s changed\n from %s\n to %s", when, o.t.Name, clip(o.state, 1500), clip(d, 1500))
			}
		}
		for i := range copies {
			intact(i, when)
		}
	}
	check("after its copies were modified")
	// The originals change, one after the other; then every copy.
	for _, i := range w.Perm(len(os)) {
		Inject(FMutation)
		uni.ScribbleAll(os[i].v)
		os[i].state = uni.DumpV(os[i].v)
		check("after an original was modified")
	}
	for i := range copies {
		for _, x := range copies[i] {
			uni.Scribble(x.v)
			x.state = uni.DumpV(x.v)
		}
		check("after copies were modified")
	}
}

// deepCopy makes a copy, which must not panic.
func (r *Run) deepCopy(in interface{}, what string) (out interface{}) {
	CountOp()
	ok := false
	defer func() {
		if !ok {
			if p := recover(); p != nil {
				r.Fail("panic", "DeepCopy(%T), %s: panic: %v\n value %s", in, what, p, clip(uni.Dump(in), 1500))
			}
		}
	}()
	out = sys.DeepCopy(in)
	ok = true
	return
}

func kindsOf(m map[sys.Kind]sys.Result) []sys.Kind {
	var out []sys.Kind
	for _, k := range []sys.Kind{sys.Bare, sys.LP, sys.JSON} {
		if _, ok := m[k]; ok {
			out = append(out, k)
		}
	}
	return out
}

func init() { world("C16", copyWorld) }
