package lab

import (
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"amsim/simrt"
	"amsim/sys"
	"amsim/uni"
)

// The cluster world (C17): nodes that registered the same types in different
// orders, with different pasts, restarting at different times, compute the
// encoding of the same values, each having built them in its own way.

// rebuild makes the same value in another way: other addresses, capacities,
// insertion orders of maps, pointers where an interface may hold either, time
// zones.  With loose, nil and empty lists are exchanged, too, which the binary
// encoding does not tell apart.
func rebuild(t *simrt.Tape, v reflect.Value, loose bool) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	rebuildTo(t, c, v, loose)
	return c
}

var zones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("X", -7*3600), time.FixedZone("UTC", 0)}

func rebuildTo(t *simrt.Tape, dst, src reflect.Value, loose bool) {
	rt := src.Type()
	switch rt.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := reflect.New(rt.Elem())
		rebuildTo(t, p.Elem(), src.Elem(), loose)
		dst.Set(p)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := src.Elem()
		if e.Kind() == reflect.Ptr && !e.IsNil() && e.Elem().Type().Implements(rt) && t.Chance(1, 2) {
			e = e.Elem() // the value instead of a pointer
		}
		n := reflect.New(e.Type())
		rebuildTo(t, n.Elem(), e, loose)
		if e.Kind() != reflect.Ptr && n.Type().Implements(rt) && t.Chance(1, 3) {
			dst.Set(n)
		} else {
			dst.Set(n.Elem())
		}
	case reflect.Slice:
		if src.Len() == 0 {
			if loose && t.Chance(1, 2) {
				if src.IsNil() {
					dst.Set(reflect.MakeSlice(rt, 0, t.Draw(3)))
				}
				return
			}
			if !src.IsNil() {
				dst.Set(reflect.MakeSlice(rt, 0, t.Draw(3)))
			}
			return
		}
		n := src.Len()
		off := t.Draw(3)
		s := reflect.MakeSlice(rt, n+off, n+off+t.Draw(5))
		full := s.Slice(0, s.Cap())
		if rt.Elem().Kind() == reflect.Uint8 {
			for i := 0; i < full.Len(); i++ {
				full.Index(i).SetUint(0xA5)
			}
		}
		s = s.Slice(off, off+n)
		for i := 0; i < n; i++ {
			rebuildTo(t, s.Index(i), src.Index(i), loose)
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			rebuildTo(t, dst.Index(i), src.Index(i), loose)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMapWithSize(rt, t.Draw(40))
		ks := src.MapKeys()
		sortKeys(ks)
		junk := reflect.New(rt.Key()).Elem()
		junk.SetString("junk")
		if t.Chance(1, 2) {
			m.SetMapIndex(junk, reflect.Zero(rt.Elem()))
		}
		for _, i := range t.Perm(len(ks)) {
			e := reflect.New(rt.Elem()).Elem()
			rebuildTo(t, e, src.MapIndex(ks[i]), loose)
			m.SetMapIndex(ks[i], e)
		}
		if !src.MapIndex(junk).IsValid() {
			m.SetMapIndex(junk, reflect.Value{})
		}
		dst.Set(m)
	case reflect.Struct:
		if x, ok := src.Interface().(time.Time); ok {
			dst.Set(reflect.ValueOf(x.In(zones[t.Pick(4, 1, 1, 1)])))
			return
		}
		if !exportedOnly(rt) {
			dst.Set(uni.Clone(src))
			return
		}
		for i := 0; i < src.NumField(); i++ {
			rebuildTo(t, dst.Field(i), src.Field(i), loose)
		}
	case reflect.String:
		dst.SetString(string(append([]byte(nil), src.String()...)))
	default:
		dst.Set(src)
	}
}

func exportedOnly(rt reflect.Type) bool {
	for i := 0; i < rt.NumField(); i++ {
		if rt.Field(i).PkgPath != "" && !rt.Field(i).Anonymous {
			return false
		}
	}
	return true
}

func sortKeys(ks []reflect.Value) {
	for i := range ks {
		for j := i; j > 0 && ks[j].String() < ks[j-1].String(); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

// agreed is what the cluster agrees on: the encoding of one value.
type agreed struct {
	t    *uni.Type
	v    reflect.Value
	kind sys.Kind
	want sys.Result
	back *sys.Op // its decoding
	re   sys.Result
}

func (a *agreed) String() string { return fmt.Sprintf("%s of a %s", a.kind, a.t.Name) }

// use is a call made when only some of the types are registered.
type use struct {
	after int // index of the registration before it
	a     *agreed
	v     reflect.Value
}

// touched collects the types a call that encodes or decodes v may look up.
func touched(v reflect.Value, set map[reflect.Type]bool) {
	touchedTypes(v.Type(), set)
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			touched(v.Elem(), set)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				touched(v.Index(i), set)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			touched(v.MapIndex(k), set)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			touched(v.Field(i), set)
		}
	}
}

func touchedTypes(t reflect.Type, set map[reflect.Type]bool) {
	if set[t] {
		return
	}
	set[t] = true
	if m, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok && t.Kind() != reflect.Interface && m.Type.NumIn() > 1 {
		touchedTypes(m.Type.In(1), set)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		touchedTypes(t.Elem(), set)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			touchedTypes(t.Field(i).Type, set)
		}
	}
}

// between plans calls made between the registrations of a process, none of which
// concerns a type that is registered later.
func (r *Run) between(cfg *sys.Config) []use {
	w := r.Work
	if !w.Chance(1, 2) {
		return nil
	}
	var uses []use
	n := len(cfg.Regs)
	at := w.Draw(n)
	for i := 1 + w.Draw(4); i > 0 && at < n; i-- {
		part := &sys.Config{Regs: cfg.Regs[:at+1]}
		set := map[reflect.Type]bool{}
		t := holders[w.Draw(len(holders))]
		known := false
		for _, reg := range part.Regs {
			known = known || reg.Iface != nil && reg.Iface.RT == ifaceOf(t)
		}
		g := &uni.Gen{T: w, Concs: part.Concs(), JSON: true, Size: 8}
		v := g.Value(t.RT)
		touched(v, set)
		for _, reg := range cfg.Regs[at+1:] {
			if reg.Conc != nil && set[reg.Conc.RT] {
				known = false
			}
		}
		if known {
			a := &agreed{t: t, v: v, kind: []sys.Kind{sys.Bare, sys.JSON, sys.LP}[w.Pick(4, 2, 1)]}
			ref := part.Apply(sys.Ref())
			a.want = (&sys.Op{Kind: a.kind, Type: t, Val: v}).Run(ref, nil, sys.PlainIO{})
			if a.want.Class == "ok" && w.Chance(1, 3) {
				back := &sys.Op{Kind: sys.DecKind(w, a.kind), Type: t, Data: []byte(a.want.Out)}
				if dec := back.Run(ref, nil, sys.PlainIO{}); dec.Class == "ok" {
					a.back = back
					a.re = (&sys.Op{Kind: a.kind, Type: t, Val: dec.Value.Elem()}).Run(ref, nil, sys.PlainIO{})
				}
			}
			uses = append(uses, use{at, a, rebuild(w, v, !a.kind.IsJSON())})
		}
		at += w.Draw(n - at + 1)
	}
	return uses
}

func clusterWorld(r *Run) {
	w := r.Work
	dyn := r.dynTypes()
	cfg := r.newCfg()
	for i, d := range dyn {
		if w.Chance(1, 2) {
			cfg.Regs = append(cfg.Regs, sys.Reg{Conc: &uni.Conc{Name: "dyn", RT: d.RT, Ptr: w.Chance(1, 2)}, Name: fmt.Sprintf("sim/dyn%d", i)})
		}
	}
	r.Log("types: %v", cfg)
	var vals []*agreed
	for i := 1 + w.Draw(4); i > 0; i-- {
		var t *uni.Type
		switch {
		case len(dyn) > 0 && w.Chance(1, 5):
			t = dyn[w.Draw(len(dyn))]
		case w.Chance(1, 4):
			t = uni.PickType(w, func(t *uni.Type) bool { return t.Map && t.JSON })
		default:
			t = uni.PickType(w, func(t *uni.Type) bool { return t.JSON })
		}
		g := &uni.Gen{T: w, Concs: cfg.Concs(), JSON: true, Modes: "Y", Rate: 4, Size: []int{20, 6, 60}[w.Pick(5, 3, 1)]}
		v := g.Value(t.RT)
		kinds := []sys.Kind{sys.JSON}
		if t.Bin {
			kinds = []sys.Kind{sys.Bare, sys.JSON, sys.LP, sys.LPWriter}
		}
		for _, k := range kinds {
			if w.Chance(1, 3) {
				continue
			}
			a := &agreed{t: t, v: v, kind: k}
			e := &sys.Op{Kind: k, Type: t, Val: v}
			a.want = e.Run(cfg.Shuffle(w).Apply(sys.Ref()), nil, sys.PlainIO{})
			if a.want.Class == "ok" {
				// A node that receives it computes its encoding, too.
				ref := cfg.Shuffle(w).Apply(sys.Ref())
				a.back = &sys.Op{Kind: sys.DecKind(w, k), Type: t, Data: []byte(a.want.Out)}
				if dec := a.back.Run(ref, nil, sys.PlainIO{}); dec.Class == "ok" {
					e := &sys.Op{Kind: k, Type: t, Val: dec.Value.Elem()}
					a.re = e.Run(ref, nil, sys.PlainIO{})
				} else {
					a.back = nil
				}
			}
			vals = append(vals, a)
			r.Log("value: %v %s -> %v", a, clip(uni.DumpV(v), 300), a.want)
		}
	}
	if len(vals) == 0 {
		return
	}
	type step struct {
		restart bool
		past    []*item
		a       *agreed
		v       reflect.Value
		ptr     bool
		reenc   bool
		pause   int64
	}
	type node struct {
		cfgs  []*sys.Config
		uses  [][]use // per life, between its registrations
		seal  bool
		lives [][][]step // per life, per task
	}
	m := mix{modes: "EPY", rate: 4, bad: 8, corrupt: 6, unreg: 5, reject: 2, print: true}
	g := &opgen{r: r, m: m, cfg: cfg, dyn: dyn}
	g.pool()
	var nodes []*node
	for i := 2 + w.Draw(2); i > 0; i-- {
		n := &node{seal: w.Chance(1, 3)}
		for l := 1 + w.Draw(3); l > 0; l-- {
			n.cfgs = append(n.cfgs, cfg.Shuffle(w))
			n.uses = append(n.uses, r.between(n.cfgs[len(n.cfgs)-1]))
			var tasks [][]step
			for t := 1 + w.Draw(2); t > 0; t-- {
				var steps []step
				for k := 1 + w.Draw(4); k > 0; k-- {
					s := step{a: vals[w.Draw(len(vals))], ptr: w.Chance(1, 2), pause: int64(w.Draw(3)) * int64(w.Draw(1000))}
					for h := w.Draw(3); h > 0; h-- {
						it := g.item()
						if n.seal && it.op.Kind == sys.Register {
							continue
						}
						s.past = append(s.past, it)
					}
					s.reenc = s.a.back != nil && w.Chance(1, 3)
					if !s.reenc {
						s.v = rebuild(w, s.a.v, !s.a.kind.IsJSON())
					}
					s.ptr = s.ptr && s.a.t.RT.Kind() != reflect.Interface
					steps = append(steps, s)
				}
				tasks = append(tasks, steps)
			}
			n.lives = append(n.lives, tasks)
		}
		nodes = append(nodes, n)
	}
	r.Sim(func(s *simrt.Sim) {
		for i, n := range nodes {
			i, n := i, n
			r.Spawn(s, fmt.Sprintf("node%d", i), i, func(*simrt.Task) {
				for l, tasks := range n.lives {
					if l > 0 {
						Inject(FRestart)
					}
					// A new process: nothing is left of the one before.
					c := sys.New()
					left := n.uses[l]
					for k, reg := range n.cfgs[l].Regs {
						reg.Apply(c)
						for len(left) > 0 && left[0].after == k {
							r.agree(fmt.Sprintf("node %d (life %d, after %d registrations)", i, l, k+1), c, left[0].a, left[0].v, false, left[0].a.back != nil)
							left = left[1:]
						}
					}
					if n.seal {
						c.DoSeal()
					}
					busy := len(tasks)
					var key byte
					for k, steps := range tasks {
						k, steps := k, steps
						r.Spawn(s, fmt.Sprintf("node%d.%d.%d", i, l, k), i, func(*simrt.Task) {
							for _, st := range steps {
								for _, it := range st.past {
									r.perform(it, c)
								}
								if st.pause > 0 {
									simrt.Sleep(st.pause)
								}
								r.agree(fmt.Sprintf("node %d (life %d)", i, l), c, st.a, st.v, st.ptr, st.reenc)
							}
							busy--
							if busy == 0 {
								simrt.Wake(ptr(&key))
							}
						})
					}
					for busy > 0 {
						simrt.Block(ptr(&key), false)
					}
				}
			})
		}
	})
}

// agree computes an encoding at a node and compares it with everyone else's.
func (r *Run) agree(who string, c sys.Codec, a *agreed, v reflect.Value, byPtr, reenc bool) {
	if r.Failed() {
		return
	}
	want, how := a.want, "built anew"
	if reenc {
		got := call(a.back, c, sys.PlainIO{})
		if got.Class != "ok" {
			r.Fail("differs", "%s cannot decode the %v: %v", who, a, got)
			return
		}
		v, want, how = got.Value.Elem(), a.re, "decoded"
	}
	e := &sys.Op{Kind: a.kind, Type: a.t, Val: v, ByPtr: byPtr}
	got := call(e, c, sys.PlainIO{})
	r.Log("%s: %v (%s, by pointer %v): %v", who, a, how, byPtr, got)
	Checked()
	r.Note(got.Class)
	r.Note(got.Out)
	if got.Class != want.Class || got.Out != want.Out {
		r.Fail("differs", "the %v, %s, differs at %s (by pointer: %v)\n value %s\n there   %v\n elsewhere %v", a, how, who, byPtr, clip(uni.DumpV(v), 1200), got, want)
	}
}

func init() { world("C17", clusterWorld) }

func ptr(b *byte) unsafe.Pointer { return unsafe.Pointer(b) }
